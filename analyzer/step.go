package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxTermDepth = 16

func (x *Engine) bind(p *Path, in ssa.Instruction, t *Term) {
	v := in.(ssa.Value)
	if t.depth > maxTermDepth || x.KeepWide && incrChain(t) > 1 {
		w := x.fresh(p, "wide", "", in, v.Type())
		if x.KeepWide {
			p.Vars["wide|"+w.key] = x.ageTerm(t, w.site)
			p.Vars["widened"] = w
		}
		t = w
	}
	p.top().env[v] = t
}

// incrChain: how many times in a row one was added.
func incrChain(t *Term) int {
	n := 0
	mod := t.op == "bin" && t.name == "%"
	for {
		if mod && t.op == "bin" && t.name == "%" {
			t = t.args[0]
		}
		if t.op != "bin" || t.name != "+" || t.args[1].key != "1" {
			break
		}
		n++
		t = t.args[0]
	}
	if i, ok := t.intConst(); ok && n > 0 && i > 0 {
		n++
	}
	return n
}

// step executes one non-control instruction. It returns nil when it continued
// on p, or the list of successor paths.
func (x *Engine) step(p *Path, in ssa.Instruction) []*Path {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := x.fresh(p, "alloc", typeStr(derefT(in.Type())), in, in.Type())
		// a new object: nothing is known to be stored in it
		for k, c := range p.mem {
			if c.addr.addrRoot().key == t.key {
				delete(p.mem, k)
			}
		}
		x.bind(p, in, t)
	case *ssa.BinOp:
		x.bind(p, in, x.binop(p, in))
	case *ssa.UnOp:
		return x.unop(p, in)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		ops := in.Operands(nil)
		x.bind(p, in, x.val(p, *ops[0]))
	case *ssa.Convert:
		v := x.val(p, in.X)
		if v.isConst() && v.cv != nil {
			if b, ok := in.Type().Underlying().(*types.Basic); ok {
				if isFloat(in.Type()) && (v.cv.Kind() == constant.Int || v.cv.Kind() == constant.Float) {
					x.bind(p, in, mkConst(constant.ToFloat(v.cv), in.Type()))
					return nil
				}
				if b.Info()&types.IsInteger != 0 && v.cv.Kind() == constant.Int && constant.Sign(v.cv) >= 0 {
					x.bind(p, in, mkConst(v.cv, in.Type()))
					return nil
				}
			}
		}
		x.bind(p, in, mk(&Term{op: "conv", name: typeStr(in.Type()), args: []*Term{v}, typ: in.Type()}))
	case *ssa.MultiConvert:
		v := x.val(p, in.X)
		x.bind(p, in, mk(&Term{op: "conv", name: typeStr(in.Type()), args: []*Term{v}, typ: in.Type()}))
	case *ssa.SliceToArrayPointer:
		v := x.val(p, in.X)
		x.bind(p, in, mk(&Term{op: "conv", name: typeStr(in.Type()), args: []*Term{v}, typ: in.Type()}))
	case *ssa.MakeInterface:
		v := x.val(p, in.X)
		if v.typ == nil || v.isNil() {
			v2 := *v
			v2.typ = in.X.Type()
			v = &v2
		}
		x.bind(p, in, mk(&Term{op: "iface", name: typeStr(in.X.Type()), args: []*Term{v}, typ: in.Type()}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(p, b))
		}
		fn := in.Fn.(*ssa.Function)
		x.bind(p, in, mk(&Term{op: "closure", name: fn.Name(), args: bs, fn: fn, typ: in.Type()}))
	case *ssa.MakeMap:
		x.bind(p, in, x.fresh(p, "makemap", "", in, in.Type()))
	case *ssa.MakeChan:
		x.bind(p, in, x.fresh(p, "makechan", "", in, in.Type(), x.val(p, in.Size)))
	case *ssa.MakeSlice:
		x.bind(p, in, x.fresh(p, "makeslice", "", in, in.Type(), x.val(p, in.Len), x.val(p, in.Cap)))
	case *ssa.FieldAddr:
		base := x.val(p, in.X)
		o := derefT(in.X.Type())
		x.bind(p, in, fieldAddr(base, o, structOf(o).Field(in.Field)))
	case *ssa.Field:
		w := x.val(p, in.X)
		f := structOf(in.X.Type()).Field(in.Field)
		x.bind(p, in, x.fieldOf(w, f, fieldName(f, in.X.Type()), in.Type()))
	case *ssa.IndexAddr:
		b, i := x.val(p, in.X), x.val(p, in.Index)
		if b.op == "slice" && len(b.args) == 1 && b.args[0].op == "alloc" {
			b = b.args[0]
		}
		t := mk(&Term{op: "idx", args: []*Term{b, i}, typ: in.Type()})
		x.bind(p, in, t)
		x.event(p, &Event{Kind: "index", Addr: t, Args: []*Term{b, i}, Instr: in, In: in.Parent()})
	case *ssa.Index:
		b, i := x.val(p, in.X), x.val(p, in.Index)
		x.bind(p, in, mk(&Term{op: "elem", args: []*Term{b, i}, typ: in.Type()}))
		x.event(p, &Event{Kind: "index", Args: []*Term{b, i}, Instr: in, In: in.Parent()})
	case *ssa.Lookup:
		m, k := x.val(p, in.X), x.val(p, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			x.bind(p, in, mk(&Term{op: "elem", args: []*Term{m, k}, typ: in.Type()}))
			x.event(p, &Event{Kind: "index", Args: []*Term{m, k}, Instr: in, In: in.Parent()})
			return nil
		}
		args := []*Term{m, k}
		if v, ok := p.mem["mapver "+m.key]; ok {
			args = append(args, v.val)
		} else if p.epoch != nil && m.root().op != "alloc" && m.op != "makemap" {
			args = append(args, p.epoch)
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		lv := mk(&Term{op: "lookup", args: args, typ: et})
		if in.CommaOk {
			ok := mk(&Term{op: "has", args: args, typ: types.Typ[types.Bool]})
			x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{lv, ok}}))
		} else if isBoolSet(in.X) { // entries only ever hold true: the value is membership
			x.bind(p, in, mk(&Term{op: "has", args: args, typ: types.Typ[types.Bool]}))
		} else {
			x.bind(p, in, lv)
		}
		x.event(p, &Event{Kind: "lookup", Args: []*Term{m, k}, Res: lv, Instr: in, In: in.Parent()})
	case *ssa.MapUpdate:
		m, k, v := x.val(p, in.Map), x.val(p, in.Key), x.val(p, in.Value)
		x.event(p, &Event{Kind: "mapupdate", Args: []*Term{m, k, v}, Addr: m, Val: v, Instr: in, In: in.Parent()})
		x.bumpMap(p, m, in)
	case *ssa.Extract:
		t := x.val(p, in.Tuple)
		if t.op == "tuple" {
			x.bind(p, in, t.args[in.Index])
		} else {
			x.bind(p, in, mk(&Term{op: "ext", idx: in.Index, args: []*Term{t}, typ: in.Type()}))
		}
	case *ssa.Slice:
		v := x.val(p, in.X)
		args := []*Term{v}
		if in.Low != nil || in.High != nil || in.Max != nil {
			for _, o := range []ssa.Value{in.Low, in.High, in.Max} {
				if o == nil {
					args = append(args, mk(&Term{op: "none"}))
				} else {
					args = append(args, x.val(p, o))
				}
			}
			if args[3].op == "none" {
				args = args[:3]
			}
			// s[0:] and s[:len] of a full array are the whole
			if c, ok := args[1].intConst(); ok && c == 0 && args[2].op == "none" && len(args) == 3 {
				args = args[:1]
			} else if len(args) == 3 && v.op == "alloc" && (args[1].op == "none") {
				if at, ok := derefT(v.typ).Underlying().(*types.Array); ok {
					if c, ok := args[2].intConst(); ok && c == at.Len() {
						args = args[:1]
					}
				}
			}
		}
		x.bind(p, in, mk(&Term{op: "slice", args: args, typ: in.Type()}))
		x.event(p, &Event{Kind: "slice", Args: args, Instr: in, In: in.Parent()})
	case *ssa.TypeAssert:
		v := x.val(p, in.X)
		marker := &Term{op: "type", name: typeStr(in.AssertedType), typ: in.AssertedType, key: typeStr(in.AssertedType)}
		isT := mk(&Term{op: "is", name: typeStr(in.AssertedType), args: []*Term{v}, attr: []*Term{marker}, typ: types.Typ[types.Bool]})
		var av *Term
		if v.op == "iface" && types.Identical(v.args[0].typ, in.AssertedType) {
			av = v.args[0]
		} else if _, tp := in.AssertedType.(*types.TypeParam); !tp && types.IsInterface(in.AssertedType) {
			av = v
		} else {
			av = mk(&Term{op: "as", name: typeStr(in.AssertedType), args: []*Term{v}, typ: in.AssertedType})
		}
		if in.CommaOk {
			// on failure the value is the zero value: fork
			switch p.Decide(isT) {
			case yes:
				x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{av, tTrue}}))
			case no:
				x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{zeroTerm(in.AssertedType), tFalse}}))
			default:
				q := p.fork()
				q.Assume(isT, true)
				q.note(in.Pos(), short(isT)+"=true")
				x.bind(q, in, mk(&Term{op: "tuple", args: []*Term{av, tTrue}}))
				x.event(q, &Event{Kind: "branch", Val: isT, Truth: true, Instr: in, In: in.Parent()})
				p.Assume(isT, false)
				p.note(in.Pos(), short(isT)+"=false")
				x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{zeroTerm(in.AssertedType), tFalse}}))
				x.event(p, &Event{Kind: "branch", Val: isT, Truth: false, Instr: in, In: in.Parent()})
				return []*Path{q, p}
			}
			return nil
		}
		x.event(p, &Event{Kind: "assert", Val: isT, Instr: in, In: in.Parent()})
		p.Assume(isT, true)
		x.bind(p, in, av)
	case *ssa.Range:
		x.bind(p, in, mk(&Term{op: "range", args: []*Term{x.val(p, in.X)}, typ: in.Type()}))
	case *ssa.Next:
		r := x.val(p, in.Iter)
		x.event(p, &Event{Kind: "prenext", Args: []*Term{r.arg(0)}, Instr: in, In: in.Parent()})
		n := x.fresh(p, "next", "", in, in.Type(), r)
		ok := mk(&Term{op: "nextok", args: []*Term{n}, attr: []*Term{r.arg(0)}, typ: types.Typ[types.Bool]})
		var kt, vt types.Type
		if tt, ok2 := in.Type().(*types.Tuple); ok2 {
			kt, vt = tt.At(1).Type(), tt.At(2).Type()
		}
		if rt := r.arg(0).typ; rt != nil {
			if mt, ok2 := rt.Underlying().(*types.Map); ok2 {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		k := mk(&Term{op: "mapkey", args: []*Term{n}, attr: []*Term{r.arg(0)}, typ: kt})
		v := mk(&Term{op: "mapval", args: []*Term{n}, attr: []*Term{r.arg(0)}, typ: vt})
		x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{ok, k, v}}))
		x.event(p, &Event{Kind: "next", Args: []*Term{r.arg(0), k, v}, Res: ok, Instr: in, In: in.Parent()})
	case *ssa.Store:
		a, v := x.val(p, in.Addr), x.val(p, in.Val)
		ev := &Event{Kind: "store", Addr: a, Val: v, Instr: in, In: in.Parent()}
		x.event(p, ev)
		x.Store(p, a, ev.Val) // a rule that counts for itself may put a simpler value
	case *ssa.Send:
		c, v := x.val(p, in.Chan), x.val(p, in.X)
		x.event(p, &Event{Kind: "send", Addr: c, Val: v, Instr: in, In: in.Parent(), Blocking: true})
	case *ssa.Select:
		return x.sel(p, in)
	case *ssa.Go:
		fnv, args := x.callee(p, &in.Call)
		x.event(p, &Event{Kind: "go", Name: termCallee(fnv), Fn: fnv.fn, Args: append([]*Term{fnv}, args...), Instr: in, In: in.Parent()})
		x.havoc(p, fnv, in, "go")
		for _, a := range args {
			x.havoc(p, a, in, "go")
		}
		if x.InlineGo != nil && x.InlineGo(fnv.fn) {
			var ps []*Path
			for _, o := range x.invoke(p, in, fnv, args, types.NewTuple(), false) {
				if o.Dead {
					continue
				}
				x.event(o.Path, &Event{Kind: "goend", Instr: in, In: in.Parent()})
				ps = append(ps, o.Path)
			}
			return ps
		}
	case *ssa.Defer:
		fnv, args := x.callee(p, &in.Call)
		f := p.top()
		f.defers = append(f.defers, deferred{in, fnv, args})
		x.event(p, &Event{Kind: "defer", Name: termCallee(fnv), Fn: fnv.fn, Args: args, Instr: in, In: in.Parent()})
	case *ssa.RunDefers:
		return x.runDefers(p, in)
	case *ssa.Call:
		fnv, args := x.callee(p, &in.Call)
		outs := x.invoke(p, in, fnv, args, in.Type(), false)
		var ps []*Path
		for _, o := range outs {
			if o.Dead {
				continue
			}
			x.bindRes(o.Path, in, o.Res)
			ps = append(ps, o.Path)
		}
		if len(ps) == 1 && ps[0] == p {
			return nil
		}
		if ps == nil {
			ps = []*Path{}
		}
		return ps
	default:
		x.undecided("unhandled instruction %T in %s", in, in.Parent())
		if v, ok := in.(ssa.Value); ok {
			p.top().env[v] = x.fresh(p, "unk", "", in, v.Type())
		}
	}
	return nil
}

// preAge ages the instances made by an instruction before it makes a new one,
// so that arguments naming the previous instance are named as such.
func (x *Engine) preAge(p *Path, k string, args []*Term) []*Term {
	s := x.siteOf(p.top().ctx, k)
	x.age(p, s)
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = x.ageTerm(a, s)
	}
	return out
}

func (t *Term) arg(i int) *Term {
	if t != nil && i < len(t.args) {
		return t.args[i]
	}
	return tNil
}

func (x *Engine) bindRes(p *Path, in *ssa.Call, res []*Term) {
	switch len(res) {
	case 0:
		p.top().env[in] = mk(&Term{op: "void"})
	case 1:
		x.bind(p, in, res[0])
	default:
		p.top().env[in] = mk(&Term{op: "tuple", args: res})
	}
}

func (x *Engine) bumpMap(p *Path, m *Term, in ssa.Instruction) {
	v := x.freshK(p, "mapver", "", instrKey(in)+"/mv", nil)
	p.mem["mapver "+m.key] = memCell{addr: m, val: v}
}

func (x *Engine) binop(p *Path, in *ssa.BinOp) *Term {
	a, b := x.val(p, in.X), x.val(p, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		pr, neg := cmp(in.Op, a, b)
		if neg {
			return tNot(pr)
		}
		return pr
	}
	cyc := x.inCycle(in.Block())
	if ph, ok := in.X.(*ssa.Phi); ok && cyc && in.Op == token.ADD {
		// the counter of a short loop is followed exactly
		if n, ok := a.intConst(); ok && n <= maxUnroll {
			if hd := x.backEdges(in.Parent())[ph.Block()]; hd != nil && inductionPhi(ph, hd) {
				cyc = false
			}
		}
	}
	return x.arith(in.Op, a, b, in.Type(), cyc)
}

func mkNeg(t *Term, typ types.Type) *Term {
	if t.op == "neg" {
		return t.args[0]
	}
	if t.isConst() && t.cv != nil {
		return mkConst(constant.UnaryOp(token.SUB, t.cv, 0), typ)
	}
	return mk(&Term{op: "neg", args: []*Term{t}, typ: typ})
}

func (x *Engine) arith(op token.Token, a, b *Term, typ types.Type, cyc bool) *Term {
	if a.op == "ivm1" {
		if c, ok := b.intConst(); ok && c == 1 && op == token.ADD {
			return mk(&Term{op: "iv", site: a.site, age: a.age, typ: a.typ})
		}
	}
	if a.isConst() && b.isConst() && a.cv != nil && b.cv != nil && !cyc {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return mkConst(constant.BinaryOp(a.cv, op, b.cv), typ)
		case token.QUO:
			if constant.Sign(b.cv) != 0 {
				o := op
				if isIntT(typ) {
					o = token.QUO_ASSIGN
				}
				return mkConst(constant.BinaryOp(a.cv, o, b.cv), typ)
			}
		}
	}
	if c, ok := b.intConst(); ok && isIntT(typ) {
		if c == 0 && (op == token.ADD || op == token.SUB || op == token.SHL || op == token.SHR || op == token.OR || op == token.XOR) {
			return a
		}
		if c == 1 && (op == token.MUL || op == token.QUO) {
			return a
		}
	}
	if c, ok := a.intConst(); ok && isIntT(typ) {
		if c == 0 && (op == token.ADD || op == token.OR || op == token.XOR) {
			return b
		}
		if c == 1 && op == token.MUL {
			return b
		}
		if c == 0 && op == token.SUB || c == -1 && op == token.MUL {
			return mkNeg(b, typ)
		}
	}
	if c, ok := b.intConst(); ok && isIntT(typ) && c == -1 && op == token.MUL {
		return mkNeg(a, typ)
	}
	if !isStringT(typ) {
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if a.key > b.key || (a.isConst() && !b.isConst()) {
				if !b.isConst() || a.isConst() {
					a, b = b, a
				}
			}
		}
	}
	return mk(&Term{op: "bin", name: op.String(), args: []*Term{a, b}, typ: typ})
}

func (x *Engine) unop(p *Path, in *ssa.UnOp) []*Path {
	v := x.val(p, in.X)
	switch in.Op {
	case token.NOT:
		x.bind(p, in, tNot(v))
	case token.MUL:
		x.event(p, &Event{Kind: "load", Addr: v, Instr: in, In: in.Parent()})
		x.bind(p, in, x.Load(p, v, in.Type()))
	case token.ARROW:
		r := x.fresh(p, "recv", "", in, in.Type(), v)
		var ok *Term
		if in.CommaOk {
			ok = mk(&Term{op: "recvok", args: []*Term{r}, attr: []*Term{v}, typ: types.Typ[types.Bool]})
			et := v.chanElem()
			rv := mk(&Term{op: "recvval", args: []*Term{r}, attr: []*Term{v}, typ: et})
			x.bind(p, in, mk(&Term{op: "tuple", args: []*Term{rv, ok}}))
		} else {
			x.bind(p, in, r)
		}
		val := r
		if in.CommaOk {
			val = mk(&Term{op: "recvval", args: []*Term{r}, attr: []*Term{v}, typ: v.chanElem()})
		}
		x.event(p, &Event{Kind: "recv", Addr: v, Val: val, Res: ok, Instr: in, In: in.Parent(), Blocking: true})
	case token.SUB:
		if v.isConst() && v.cv != nil {
			x.bind(p, in, mkConst(constant.UnaryOp(token.SUB, v.cv, 0), in.Type()))
			return nil
		}
		x.bind(p, in, mkNeg(v, in.Type()))
	case token.XOR:
		x.bind(p, in, mk(&Term{op: "compl", args: []*Term{v}, typ: in.Type()}))
	default:
		x.bind(p, in, mk(&Term{op: "un", name: in.Op.String(), args: []*Term{v}, typ: in.Type()}))
	}
	return nil
}

func (t *Term) chanElem() types.Type {
	if t.typ != nil {
		if c, ok := t.typ.Underlying().(*types.Chan); ok {
			return c.Elem()
		}
	}
	return nil
}

func (x *Engine) sel(p *Path, in *ssa.Select) []*Path {
	var outs []*Path
	n := len(in.States)
	type cs struct {
		c, v *Term
	}
	var chans []cs
	for _, s := range in.States {
		c := cs{c: x.val(p, s.Chan)}
		if s.Send != nil {
			c.v = x.val(p, s.Send)
		}
		chans = append(chans, c)
	}
	var allc []*Term
	for _, c := range chans {
		allc = append(allc, c.c)
	}
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	total := n
	if !in.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		q := p
		if i < total-1 {
			q = p.fork()
		}
		s := x.freshK(q, "sel", "", instrKey(in), nil)
		ok := mk(&Term{op: "recvok", args: []*Term{s}, typ: types.Typ[types.Bool]})
		vals := []*Term{tInt(int64(i)), ok}
		if i == n {
			vals[0] = tInt(-1)
			vals[1] = tFalse
		}
		ri := 0
		for j, st := range in.States {
			if st.Dir == types.RecvOnly {
				if j == i {
					vals = append(vals, mk(&Term{op: "recvval", args: []*Term{s}, attr: []*Term{chans[j].c}, typ: chans[j].c.chanElem()}))
				} else {
					et := chans[j].c.chanElem()
					if et == nil {
						vals = append(vals, tNil)
					} else {
						vals = append(vals, zeroTerm(et))
					}
				}
				ri++
			}
		}
		q.top().env[in] = mk(&Term{op: "tuple", args: vals})
		if i == n {
			q.note(in.Pos(), "select default")
			x.event(q, &Event{Kind: "seldefault", Args: allc, Instr: in, In: in.Parent()})
		} else if in.States[i].Dir == types.SendOnly {
			q.note(in.Pos(), "select send "+short(chans[i].c))
			x.event(q, &Event{Kind: "send", Addr: chans[i].c, Val: chans[i].v, Args: allc, Instr: in, In: in.Parent(), Blocking: in.Blocking})
		} else {
			q.note(in.Pos(), "select recv "+short(chans[i].c))
			x.event(q, &Event{Kind: "recv", Addr: chans[i].c, Res: ok, Args: allc, Instr: in, In: in.Parent(), Blocking: in.Blocking})
		}
		if !q.Dead {
			outs = append(outs, q)
		}
	}
	if outs == nil {
		outs = []*Path{}
	}
	return outs
}

func (x *Engine) runDefers(p *Path, in *ssa.RunDefers) []*Path {
	type w struct{ p *Path }
	pend := []*Path{p}
	var done []*Path
	for len(pend) > 0 {
		q := pend[len(pend)-1]
		pend = pend[:len(pend)-1]
		f := q.top()
		if len(f.defers) == 0 {
			done = append(done, q)
			continue
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		outs := x.invoke(q, d.instr, d.fnv, d.args, nil, true)
		for _, o := range outs {
			if !o.Dead {
				pend = append(pend, o.Path)
			}
		}
	}
	if done == nil {
		done = []*Path{}
	}
	return done
}

// callee evaluates the callee and arguments of a call.
func (x *Engine) callee(p *Path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := x.val(p, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, x.val(p, a))
		}
		// devirtualise a boxed concrete value
		if recv.op == "iface" && recv.args[0].typ != nil {
			if m := x.P.SSA.LookupMethod(recv.args[0].typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				args[0] = recv.args[0]
				return mk(&Term{op: "fn", name: calleeName(m), fn: m}), args
			}
		}
		if x.Devirt != nil {
			if m := x.Devirt(p, recv, c.Method); m != nil {
				return mk(&Term{op: "fn", name: calleeName(m), fn: m}), args
			}
		}
		it := c.Value.Type()
		nm := typeStr(it)
		if _, ok := types.Unalias(it).(*types.Named); !ok {
			nm = "iface"
			if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
				nm = typeStr(r.Type())
			}
		}
		return mk(&Term{op: "imethod", name: nm + "." + c.Method.Name()}), args
	}
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	return x.val(p, c.Value), args
}

func termCallee(t *Term) string {
	switch t.op {
	case "fn":
		return t.name
	case "builtin":
		return "builtin." + t.name
	case "imethod":
		return t.name
	case "closure":
		return "closure"
	}
	return "dyn:" + t.key
}

func calleeName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if ob, ok := f.Object().(*types.Func); ok {
		sig := ob.Type().(*types.Signature)
		pk := ""
		if ob.Pkg() != nil {
			pk = strings.TrimPrefix(strings.TrimPrefix(ob.Pkg().Path(), modPath+"/"), modPath)
		}
		if r := sig.Recv(); r != nil {
			t := r.Type()
			star := ""
			if pt, ok := t.(*types.Pointer); ok {
				star = "*"
				t = pt.Elem()
			}
			if nt, ok := types.Unalias(t).(*types.Named); ok {
				suffix := ""
				if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") {
					suffix = "$bound"
				}
				return pk + ".(" + star + nt.Obj().Name() + ")." + ob.Name() + suffix
			}
			return pk + ".(" + typeStr(t) + ")." + ob.Name()
		}
		return pk + "." + ob.Name()
	}
	return strings.TrimPrefix(strings.TrimPrefix(f.String(), modPath+"/"), modPath)
}

func (x *Engine) onStack(p *Path, fn *ssa.Function) bool {
	for _, f := range p.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// invoke performs a call: builtin, lock operation, inlined function or opaque effect.
func (x *Engine) invoke(p *Path, in ssa.Instruction, fnv *Term, args []*Term, typ types.Type, deferredCall bool) []Outcome {
	in0 := in.Parent()
	one := func(res ...*Term) []Outcome { return []Outcome{{p, res}} }
	if fnv.op == "builtin" {
		return x.builtin(p, in, fnv.name, args, typ, deferredCall)
	}
	name := termCallee(fnv)
	// locks
	if k := lockOp(name); k != "" {
		lk := x.preAge(p, instrKey(in)+"/ep", args)[0]
		if strings.HasPrefix(k, "Try") {
			q := p.fork()
			q.note(in.Pos(), name+" fails")
			x.event(q, &Event{Kind: "lockfail", Name: k, Addr: lk, Instr: in, In: in0})
			x.acquire(p, lk, strings.TrimPrefix(k, "Try"), in)
			x.event(p, &Event{Kind: "lock", Name: strings.TrimPrefix(k, "Try"), Addr: lk, Instr: in, In: in0, Deferred: deferredCall})
			return []Outcome{{p, []*Term{tTrue}}, {q, []*Term{tFalse}}}
		}
		switch k {
		case "Lock", "RLock":
			x.event(p, &Event{Kind: "prelock", Name: k, Addr: lk, Instr: in, In: in0, Deferred: deferredCall, Blocking: true})
			x.acquire(p, lk, k, in)
			x.event(p, &Event{Kind: "lock", Name: k, Addr: lk, Instr: in, In: in0, Deferred: deferredCall})
		case "Unlock", "RUnlock":
			x.event(p, &Event{Kind: "unlock", Name: k, Addr: lk, Instr: in, In: in0, Deferred: deferredCall})
			h := p.locks[lk.key]
			h.t = lk
			if k == "Unlock" {
				h.w--
			} else {
				h.r--
			}
			if h.w == 0 && h.r == 0 {
				delete(p.locks, lk.key)
			} else {
				p.locks[lk.key] = h
			}
		}
		return one()
	}
	// functions with bodies
	var fn *ssa.Function
	var bind []*Term
	switch fnv.op {
	case "fn":
		fn = fnv.fn
	case "closure":
		fn, bind = fnv.fn, fnv.args
	}
	if fnv.isCall("sync.OnceFunc") && len(fnv.callArgs()) == 1 {
		return x.once(p, in, fnv, fnv.callArgs()[0], deferredCall)
	}
	if fn != nil && name == "sync.(*Once).Do" && len(args) == 2 {
		return x.once(p, in, args[0], args[1], deferredCall)
	}
	if fn != nil && len(fn.Blocks) > 0 && (inModule(fn) || isWrapperOfModule(fn)) && (x.NoInline == nil || !x.NoInline(fn)) && len(p.frames) <= x.MaxDepth {
		if !x.onStack(p, fn) {
			x.event(p, &Event{Kind: "enter", Name: name, Fn: fn, Args: args, Instr: in, In: in0, Deferred: deferredCall})
			if p.Dead {
				return nil
			}
			outs := x.call(p, fn, args, bind, in)
			for i := range outs {
				e := &Event{Kind: "exit", Name: name, Fn: fn, Args: args, Instr: in, In: in0, Deferred: deferredCall}
				if len(outs[i].Res) == 1 {
					e.Res = outs[i].Res[0]
				} else if len(outs[i].Res) > 1 {
					e.Res = mk(&Term{op: "tuple", args: outs[i].Res})
				}
				x.event(outs[i].Path, e)
			}
			return outs
		}
	}
	if outs, ok := x.scanFunc(p, in, name, args); ok {
		return outs
	}
	if isSyncHOF(name) {
		// the callback runs synchronously, some number of times: analyse one
		// arbitrary invocation, then continue with its effects forgotten
		for _, a := range args {
			a = a.unbox()
			var cb *ssa.Function
			if a.op == "closure" || a.op == "fn" {
				cb = a.fn
			}
			if cb == nil || len(cb.Blocks) == 0 || !inModule(cb) || x.onStack(p, cb) {
				continue
			}
			q := p.fork()
			var ps []*Term
			for i, prm := range cb.Params {
				ps = append(ps, x.freshK(q, "cbarg", name, fmt.Sprintf("%s/%d", instrKey(in), i), prm.Type(), args...))
			}
			x.event(q, &Event{Kind: "cbenter", Name: name, Fn: cb, Args: ps, Instr: in, In: in0})
			for _, o := range x.call(q, cb, ps, a.args, in) {
				x.event(o.Path, &Event{Kind: "cbexit", Name: name, Fn: cb, Args: o.Res, Instr: in, In: in0})
			}
			x.havoc(p, a, in, name)
		}
	}
	// opaque call
	var sig *types.Signature
	switch c := in.(type) {
	case *ssa.Call:
		sig = c.Call.Signature()
	case *ssa.Defer:
		sig = c.Call.Signature()
	}
	args = x.preAge(p, instrKey(in), args)
	fnv = x.ageTerm(fnv, x.siteOf(p.top().ctx, instrKey(in)))
	full := args
	if sig != nil && sig.Variadic() {
		full = x.expandVariadic(p, fnv, args)
	}
	x.event(p, &Event{Kind: "precall", Name: name, Fn: fn, Args: full, Instr: in, In: in0, Deferred: deferredCall})
	var res []*Term
	if r := x.model(p, in, name, args, full, sig); r != nil {
		if r.dead {
			return nil
		}
		if r.forks != nil {
			var outs []Outcome
			for _, o := range r.forks {
				e := &Event{Kind: "call", Name: name, Fn: fn, Args: full, Instr: in, In: in0, Deferred: deferredCall}
				if len(o.Res) == 1 {
					e.Res = o.Res[0]
				}
				x.event(o.Path, e)
				outs = append(outs, o)
			}
			return outs
		}
		res = r.res
	} else {
		pure := isPure(name)
		var t *Term
		if pure {
			t = mk(&Term{op: "pcall", name: name, args: full, typ: resType(sig)})
		} else {
			t = x.fresh(p, "call", name, in, resType(sig), full...)
		}
		n := 0
		if sig != nil {
			n = sig.Results().Len()
		}
		switch n {
		case 0:
		case 1:
			res = []*Term{t}
		default:
			for i := 0; i < n; i++ {
				res = append(res, mk(&Term{op: "ext", idx: i, args: []*Term{t}, typ: sig.Results().At(i).Type()}))
			}
		}
		if !pure && !noEscape(name) {
			for _, a := range args {
				x.havoc(p, a, in, name)
			}
			if fnv.op == "closure" {
				x.havoc(p, fnv, in, name)
			}
		}
	}
	e := &Event{Kind: "call", Name: name, Fn: fn, Args: full, Instr: in, In: in0, Deferred: deferredCall}
	if fnv.op != "fn" && fnv.op != "imethod" {
		e.Addr = fnv
	}
	if len(res) == 1 {
		e.Res = res[0]
	} else if len(res) > 1 {
		e.Res = mk(&Term{op: "tuple", args: res})
	}
	x.event(p, e)
	if terminates(name) {
		return nil
	}
	return []Outcome{{p, res}}
}

func resType(sig *types.Signature) types.Type {
	if sig == nil {
		return nil
	}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func terminates(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf":
		return true
	}
	return false
}

func isWrapperOfModule(f *ssa.Function) bool {
	return f.Synthetic != "" && len(f.Blocks) > 0 && f.Parent() == nil && f.Object() != nil && f.Object().Pkg() != nil &&
		(f.Object().Pkg().Path() == modPath || strings.HasPrefix(f.Object().Pkg().Path(), modPath+"/"))
}

func (x *Engine) acquire(p *Path, lk *Term, k string, in ssa.Instruction) {
	// re-reads of shared mutable state after acquiring a lock are new values
	for key, c := range p.mem {
		r := c.addr.addrRoot()
		if r.op != "alloc" && r.op != "makemap" && r.op != "makeslice" {
			delete(p.mem, key)
		}
	}
	ep := x.freshK(p, "ep", "", instrKey(in)+"/ep", nil)
	p.epoch = ep
	h := p.locks[lk.key]
	h.t = lk
	if k == "Lock" {
		h.w++
	} else {
		h.r++
	}
	p.locks[lk.key] = h
}

func lockOp(name string) string {
	for _, pre := range []string{"sync.(*Mutex).", "sync.(*RWMutex)."} {
		if strings.HasPrefix(name, pre) {
			k := strings.TrimPrefix(name, pre)
			switch k {
			case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
				return k
			}
		}
	}
	return ""
}

// expandVariadic replaces a literal variadic slice by its elements.
func (x *Engine) expandVariadic(p *Path, fnv *Term, args []*Term) []*Term {
	if len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	el := x.Elems(p, last)
	if el == nil {
		return args
	}
	out := append([]*Term(nil), args[:len(args)-1]...)
	out = append(out, mk(&Term{op: "list", args: el, typ: last.typ}))
	return out
}

// Elems lists the elements of a slice built from a literal array, or nil.
func (x *Engine) Elems(p *Path, t *Term) []*Term {
	if t.op != "slice" || len(t.args) != 1 || t.args[0].op != "alloc" {
		return nil
	}
	at, ok := derefT(t.args[0].typ).Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil
	}
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		a := mk(&Term{op: "idx", args: []*Term{t.args[0], mkConst(constant.MakeInt64(i), types.Typ[types.Int])}, typ: types.NewPointer(at.Elem())})
		out = append(out, x.Load(p, a, at.Elem()))
	}
	return out
}

func (x *Engine) builtin(p *Path, in ssa.Instruction, name string, args []*Term, typ types.Type, dc bool) []Outcome {
	in0 := in.Parent()
	switch name {
	case "len", "cap":
		a := args[0]
		var t *Term
		if s, ok := a.strConst(); ok && name == "len" {
			t = tInt(int64(len(s)))
		} else if a.isNil() {
			t = tInt(0)
		} else if el := x.Elems(p, a); el != nil && name == "len" {
			t = tInt(int64(len(el)))
		} else {
			args := []*Term{a}
			if a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Map); ok {
					if v, ok := p.mem["mapver "+a.key]; ok {
						args = append(args, v.val)
					}
				}
			}
			t = mk(&Term{op: name, args: args, typ: types.Typ[types.Int]})
		}
		return []Outcome{{p, []*Term{t}}}
	case "append":
		args = x.preAge(p, instrKey(in), args)
		var el []*Term
		if len(args) > 1 {
			el = x.Elems(p, args[1])
			if el == nil {
				el = []*Term{mk(&Term{op: "spread", args: []*Term{args[1]}})}
			}
		}
		t := x.fresh(p, "append", "", in, typ, append([]*Term{args[0]}, el...)...)
		x.event(p, &Event{Kind: "append", Args: append([]*Term{args[0]}, el...), Res: t, Instr: in, In: in0})
		return []Outcome{{p, []*Term{t}}}
	case "close":
		x.event(p, &Event{Kind: "close", Addr: args[0], Instr: in, In: in0, Deferred: dc})
		return []Outcome{{p, nil}}
	case "delete":
		x.event(p, &Event{Kind: "delete", Addr: args[0], Args: args, Instr: in, In: in0})
		x.bumpMap(p, args[0], in)
		return []Outcome{{p, nil}}
	case "clear":
		x.event(p, &Event{Kind: "clear", Addr: args[0], Args: args, Instr: in, In: in0})
		x.bumpMap(p, args[0], in)
		return []Outcome{{p, nil}}
	case "copy":
		args = x.preAge(p, instrKey(in), args)
		t := x.fresh(p, "copied", "", in, types.Typ[types.Int], args...)
		x.event(p, &Event{Kind: "copy", Args: args, Res: t, Instr: in, In: in0})
		if args[0].op == "alloc" || args[0].op == "slice" {
			x.havoc(p, args[0], in, "copy")
		}
		return []Outcome{{p, []*Term{t}}}
	case "min", "max":
		t := mk(&Term{op: "pcall", name: "builtin." + name, args: args, typ: typ})
		return []Outcome{{p, []*Term{t}}}
	case "recover":
		return []Outcome{{p, []*Term{tNil}}}
	case "panic":
		return nil
	case "ssa:wrapnilchk":
		return []Outcome{{p, []*Term{args[0]}}}
	case "print", "println":
		return []Outcome{{p, nil}}
	}
	t := x.fresh(p, "call", "builtin."+name, in, typ, args...)
	return []Outcome{{p, []*Term{t}}}
}

var _ = fmt.Sprint

// isBoolSet: a map made here whose every store puts the constant true, so
// that reading an entry tells exactly whether it is there.
func isBoolSet(v ssa.Value) bool {
	mm, ok := v.(*ssa.MakeMap)
	if !ok || mm.Referrers() == nil {
		return false
	}
	if b, ok := mm.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.MapUpdate:
			c, ok := r.Value.(*ssa.Const)
			if r.Map != v || !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
				return false
			}
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "delete" && b.Name() != "clear" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// once runs f if no earlier call did; both cases are followed.
func (x *Engine) once(p *Path, in ssa.Instruction, o, f *Term, deferredCall bool) []Outcome {
	q := p.fork()
	q.note(in.Pos(), "once already done")
	x.event(q, &Event{Kind: "oncedone", Addr: o, Instr: in, In: in.Parent()})
	x.event(p, &Event{Kind: "onceenter", Addr: o, Instr: in, In: in.Parent()})
	outs := x.invoke(p, in, f, nil, nil, deferredCall)
	for i := range outs {
		outs[i].Res = nil
		x.event(outs[i].Path, &Event{Kind: "onceexit", Addr: o, Instr: in, In: in.Parent()})
	}
	return append(outs, Outcome{q, nil})
}
