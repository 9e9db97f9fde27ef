package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable action on a path.
type Event struct {
	Kind     string // call store send recv select lock unlock mapupdate panic branch go defer return close append enter exit
	Name     string // callee / lock op
	Fn       *ssa.Function
	Args     []*Term
	Res      *Term
	Addr     *Term
	Val      *Term
	Truth    bool
	Instr    ssa.Instruction
	In       *ssa.Function
	Deferred bool
	Blocking bool
}

func (e *Event) Pos() token.Pos {
	if e.Instr == nil {
		return token.NoPos
	}
	return e.Instr.Pos()
}

// Outcome is a path that reached the return of the analysed root.
type Outcome struct {
	*Path
	Res []*Term
}

// Engine runs the path-sensitive interprocedural dataflow for one root.
type Engine struct {
	P        *Prog
	Root     *ssa.Function
	OnEvent  func(p *Path, e *Event)
	NoInline func(f *ssa.Function) bool
	// KeepClone: strings.Clone yields a value of its own (else it is its
	// argument: the same string).
	KeepClone bool
	// InlineGo: goroutines running this are followed as if run at once, where
	// they are started; a goend event tells where that ends.
	InlineGo func(fn *ssa.Function) bool

	KeepWide bool // Vars["wide|key"] tells what a widened value was
	// Inline lets a rule inline functions outside the module default.
	Devirt   func(p *Path, recv *Term, m *types.Func) *ssa.Function
	MaxSteps int
	MaxDepth int
	Track    func(pred *Term) bool // nil: track every predicate

	steps   int
	sites   map[string]int
	siteN   []string
	ctxs    map[string]int
	Undec   []string
	Fns     map[*ssa.Function]bool
	Events  int
	Paths   int
	viol    map[string]bool
	Report  func(p *Path, e *Event, msg string)
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	cyc     map[*ssa.Function]map[*ssa.BasicBlock]bool
	heads   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	Aborted bool
	immFree map[string]bool
}

func newEngine(P *Prog, root *ssa.Function) *Engine {
	return &Engine{P: P, Root: root, MaxSteps: 400000, MaxDepth: 14,
		immFree: map[string]bool{}, sites: map[string]int{}, ctxs: map[string]int{}, Fns: map[*ssa.Function]bool{}, viol: map[string]bool{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, cyc: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		heads: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
}

func (x *Engine) siteOf(ctx int, k string) int {
	key := fmt.Sprintf("%d/%s", ctx, k)
	if s, ok := x.sites[key]; ok {
		return s
	}
	x.siteN = append(x.siteN, key)
	x.sites[key] = len(x.siteN)
	return len(x.siteN)
}

func instrKey(i ssa.Instruction) string {
	b := i.Block()
	for n, j := range b.Instrs {
		if i == j {
			return fmt.Sprintf("%s.%d.%d", i.Parent().String(), b.Index, n)
		}
	}
	return fmt.Sprintf("%s.%d.?", i.Parent().String(), b.Index)
}

func (x *Engine) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, u := range x.Undec {
		if u == m {
			return
		}
	}
	x.Undec = append(x.Undec, m)
}

// Params returns the root parameter terms.
func rootParam(f *ssa.Function, i int) *Term {
	return mk(&Term{op: "param", name: fmt.Sprintf("p%d", i), typ: f.Params[i].Type()})
}

// Run analyses the root with symbolic parameters and returns all outcomes.
func (x *Engine) Run() []Outcome {
	return x.RunWith(nil)
}

// RunWith lets the caller add entry facts (e.g. non-nil parameters).
func (x *Engine) RunWith(init func(p *Path, params []*Term)) []Outcome {
	p := &Path{x: x, mem: map[string]memCell{}, doms: map[string]*dom{}, rels: map[string]relFact{}, locks: map[string]lockHeld{}, Flags: map[string]bool{}, Vars: map[string]*Term{}}
	p.frames = []*frame{{fn: nil, env: map[ssa.Value]*Term{}}}
	var args []*Term
	for i := range x.Root.Params {
		args = append(args, rootParam(x.Root, i))
	}
	var fvs []*Term
	for i, fv := range x.Root.FreeVars {
		t := mk(&Term{op: "free", name: fmt.Sprintf("f%d_%s", i, fv.Name()), typ: fv.Type()})
		fvs = append(fvs, t)
		if writtenOnce(fv, i) {
			x.immFree[t.key] = true
		}
	}
	if x.Root.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
			p.Assume(mkEq(args[0], tNil), false)
		}
	}
	for _, fv := range fvs {
		p.Assume(mkEq(fv, tNil), false)
	}
	if init != nil {
		init(p, args)
	}
	outs := x.call(p, x.Root, args, fvs, nil)
	x.Paths = len(outs)
	return outs
}

var dbgStates = os.Getenv("HCV_STATES")

// ---- function execution --------------------------------------------------

func (x *Engine) call(p *Path, fn *ssa.Function, args, bind []*Term, site ssa.Instruction) []Outcome {
	x.Fns[fn] = true
	f := &frame{fn: fn, env: map[ssa.Value]*Term{}, call: site}
	if site != nil {
		k := fmt.Sprintf("%d>%s", p.top().ctx, instrKey(site))
		c, ok := x.ctxs[k]
		if !ok {
			c = len(x.ctxs) + 1
			x.ctxs[k] = c
		}
		f.ctx = c
	}
	for i, prm := range fn.Params {
		if i < len(args) {
			f.env[prm] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		}
	}
	p.frames = append(append([]*frame(nil), p.frames...), f)
	base := len(p.frames)

	type item struct {
		p    *Path
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		in   bool // the block was entered already
	}
	var outs []Outcome
	seenOut := map[string]bool{}
	visited := map[string]bool{}
	work := []item{{p, fn.Blocks[0], nil, false}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if x.Aborted {
			return outs
		}
		cur := it.p
		if !it.in {
			x.enterBlock(cur, it.b, it.pred)
		}
		x.prune(cur, it.b)
		k := fmt.Sprintf("%d#%s", it.b.Index, cur.key())
		if visited[k] {
			continue
		}
		visited[k] = true
		if dbgStates != "" && strings.HasSuffix(fn.String(), dbgStates) {
			fmt.Fprintf(os.Stderr, "STATE %s b%d %s\n", fn.Name(), it.b.Index, k)
		}
		// run the block; may fork at calls
		type st struct {
			p *Path
			i int
		}
		stack := []st{{cur, 0}}
		for len(stack) > 0 {
			s := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			q := s.p
		instrs:
			for i := s.i; i < len(it.b.Instrs); i++ {
				x.steps++
				if x.steps > x.MaxSteps {
					x.undecided("state budget exceeded in %s", fn)
					x.Aborted = true
					return outs
				}
				switch in := it.b.Instrs[i].(type) {
				case *ssa.If:
					cond := x.val(q, in.Cond)
					if ph := x.bottomTest(it.b, in); ph != nil {
						// a loop over an integer range is tested at its end: report its
						// turns as those of a loop that is tested at its head
						d := q.Decide(cond)
						lim := x.val(q, in.Cond.(*ssa.BinOp).Y)
						r := q.fork()
						if d != no && (d == yes || r.Assume(cond, true)) {
							if d == unknown {
								r.note(in.Cond.Pos(), fmt.Sprintf("%v=true", short(cond)))
							}
							x.enterBlock(r, it.b.Succs[0], it.b)
							c, neg := cmp(token.LSS, r.top().env[ph], lim)
							if r.Decide(c) != b2t(neg) && r.Assume(c, !neg) {
								x.event(r, &Event{Kind: "branch", Val: c, Truth: !neg, Instr: in, In: fn})
								if !r.Dead {
									work = append(work, item{r, it.b.Succs[0], it.b, true})
								}
							}
						}
						if d != yes && (d == no || q.Assume(cond, false)) {
							if d == unknown {
								q.note(in.Cond.Pos(), fmt.Sprintf("%v=false", short(cond)))
							}
							h := q.fork()
							x.enterBlock(h, it.b.Succs[0], it.b)
							c, neg := cmp(token.LSS, h.top().env[ph], lim)
							x.event(q, &Event{Kind: "branch", Val: c, Truth: neg, Instr: in, In: fn})
							if !q.Dead {
								work = append(work, item{q, it.b.Succs[1], it.b, false})
							}
						}
						break instrs
					}
					d := q.Decide(cond)
					emit := func(r *Path, truth bool) bool {
						if d == unknown {
							if !r.Assume(cond, truth) {
								return false
							}
							r.note(in.Cond.Pos(), fmt.Sprintf("%v=%v", short(cond), truth))
						}
						c, t := cond, truth
						if c.op == "not" {
							c, t = c.args[0], !t
						}
						x.event(r, &Event{Kind: "branch", Val: c, Truth: t, Instr: in, In: fn})
						return !r.Dead
					}
					if d != no {
						r := q
						if d == unknown {
							r = q.fork()
						}
						if emit(r, true) {
							work = append(work, item{r, it.b.Succs[0], it.b, false})
						}
					}
					if d != yes {
						if emit(q, false) {
							work = append(work, item{q, it.b.Succs[1], it.b, false})
						}
					}
					break instrs
				case *ssa.Jump:
					work = append(work, item{q, it.b.Succs[0], it.b, false})
					break instrs
				case *ssa.Return:
					var res []*Term
					for _, r := range in.Results {
						res = append(res, x.val(q, r))
					}
					if base == 2 {
						x.event(q, &Event{Kind: "return", Args: res, Instr: in, In: fn})
						if q.Dead {
							break instrs
						}
					}
					q.frames = q.frames[:base-1]
					q.frames = append([]*frame(nil), q.frames...)
					q.frames[base-2] = q.frames[base-2].clone()
					ok := ""
					for _, r := range res {
						ok += r.key + "~"
					}
					ok += q.key()
					if !seenOut[ok] {
						seenOut[ok] = true
						outs = append(outs, Outcome{q, res})
					}
					break instrs
				case *ssa.Panic:
					x.event(q, &Event{Kind: "panic", Args: []*Term{x.val(q, in.X)}, Instr: in, In: fn})
					break instrs
				default:
					nexts := x.step(q, in)
					if nexts == nil { // continue on q
						if q.Dead {
							break instrs
						}
						continue
					}
					for _, n := range nexts {
						if !n.Dead {
							stack = append(stack, st{n, i + 1})
						}
					}
					break instrs
				}
			}
		}
	}
	return outs
}

// bottomTest: the branch decides whether another turn of a loop is made, its
// operand becoming the counter of that turn.
func (x *Engine) bottomTest(b *ssa.BasicBlock, in *ssa.If) *ssa.Phi {
	c, ok := in.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return nil
	}
	h := b.Succs[0]
	hd := x.backEdges(b.Parent())[h]
	if hd == nil {
		return nil
	}
	for i, pr := range h.Preds {
		if pr != b {
			continue
		}
		for _, hi := range h.Instrs {
			ph, ok := hi.(*ssa.Phi)
			if !ok {
				break
			}
			if ph.Edges[i] == c.X && inductionPhi(ph, hd) && ivUnit(ph, hd) {
				return ph
			}
			if k, ok := ph.Edges[i].(*ssa.Const); ok && ivUnit(ph, hd) && inductionPhi(ph, hd) {
				if k2, ok := c.X.(*ssa.Const); ok && sameIntConst(k, k2) && ph.Comment == "rangeint.iter" {
					return ph
				}
			}
		}
	}
	return nil
}

// enterBlock evaluates phis for the edge pred->b.
func (x *Engine) enterBlock(p *Path, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, q := range b.Preds {
		if q == pred {
			idx = i
		}
	}
	f := p.top()
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) == 0 {
		return
	}
	hd := x.backEdges(f.fn)[b]
	var ivs []*ssa.Phi
	if hd != nil {
		for _, ph := range phis {
			if inductionPhi(ph, hd) {
				ivs = append(ivs, ph)
			}
		}
	}
	if n := x.shortLoop(p, b, pred, ivs, idx); n {
		ivs = nil
	} else if hd != nil {
		for _, ph := range phis {
			if !contains(ivs, ph) && countingPhi(ph, hd) {
				ivs = append(ivs, ph)
			}
		}
	}
	for _, ph := range ivs {
		x.event(p, &Event{Kind: "advance", Addr: x.ivTerm(f.ctx, ph, hd), Val: x.val(p, ph.Edges[idx]), Truth: hd[pred], Instr: ph, In: f.fn})
	}
	f = p.top()
	for _, ph := range ivs {
		x.age(p, x.siteOf(f.ctx, instrKey(ph)))
	}
	f = p.top()
	vals := map[*ssa.Phi]*Term{}
	for _, ph := range phis {
		if contains(ivs, ph) {
			vals[ph] = x.ivTerm(f.ctx, ph, hd)
			continue
		}
		vals[ph] = x.val(p, ph.Edges[idx])
	}
	for ph, v := range vals {
		f.env[ph] = v
	}
}

// ivTerm is the current value of a loop counter.
func (x *Engine) ivTerm(ctx int, ph *ssa.Phi, hd map[*ssa.BasicBlock]bool) *Term {
	op := "iv"
	if ph.Comment == "rangeindex" || ivFromMinusOne(ph, hd) {
		op = "ivm1"
	} else if !ivNonNeg(ph, hd) {
		op = "ivz"
	} else if !ivUnit(ph, hd) {
		op = "ivp"
	}
	return mk(&Term{op: op, site: x.siteOf(ctx, instrKey(ph)), typ: ph.Type()})
}

const maxUnroll = 6

// shortLoop: the loop counts from a constant up to a constant not above
// maxUnroll, so its counter can be followed exactly.
func (x *Engine) shortLoop(p *Path, b, pred *ssa.BasicBlock, ivs []*ssa.Phi, idx int) bool {
	if len(ivs) != 1 || len(b.Instrs) == 0 {
		return false
	}
	ph := ivs[0]
	n, ok := x.val(p, ph.Edges[idx]).intConst()
	if !ok || n < -1 || n > maxUnroll {
		return false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return false
	}
	if cond.X != ssa.Value(ph) {
		inc, ok := cond.X.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD || inc.X != ssa.Value(ph) || inc.Block() != b {
			return false
		}
	}
	for i, e := range ph.Edges {
		if b.Dominates(b.Preds[i]) {
			inc, ok := e.(*ssa.BinOp)
			if !ok || inc.Op != token.ADD || inc.X != ssa.Value(ph) {
				return false
			}
			if c, ok := ssaInt(inc.Y); !ok || c != 1 {
				return false
			}
		}
	}
	var lim *Term
	switch y := cond.Y.(type) {
	case *ssa.Const:
		lim = x.val(p, y)
	case *ssa.Call:
		if lim = p.top().env[y]; lim == nil {
			if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || y.Block() != b {
				return false
			}
			a := p.top().env[y.Call.Args[0]]
			if a == nil {
				return false
			}
			lim = lenOf(a)
		}
	default:
		lim = p.top().env[y]
	}
	if lim == nil {
		return false
	}
	m, ok := lim.intConst()
	return ok && m <= maxUnroll
}

func contains(l []*ssa.Phi, p *ssa.Phi) bool {
	for _, q := range l {
		if q == p {
			return true
		}
	}
	return false
}

// inductionPhi: every back-edge value is phi +/- constant (integers).
func inductionPhi(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) bool {
	if !isIntT(ph.Type()) {
		return false
	}
	found := false
	for i, e := range ph.Edges {
		if !back[ph.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok {
			if e == ssa.Value(ph) {
				continue
			}
			return false
		}
		if (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == ssa.Value(ph) {
			found = true
			continue
		}
		if bo.Op == token.SHL || bo.Op == token.MUL || bo.Op == token.QUO || bo.Op == token.SHR {
			found = true
			continue
		}
		return false
	}
	return found
}

// countingPhi: every way round the loop leaves the counter as it is or adds a
// constant, whichever way the paths join inside.
func countingPhi(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) bool {
	if !isIntT(ph.Type()) {
		return false
	}
	vals := backVals(ph, back)
	found := false
	for _, e := range vals {
		if e == ssa.Value(ph) {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(ph) {
			return false
		}
		if _, ok := ssaInt(bo.Y); !ok {
			return false
		}
		found = true
	}
	return found
}

// backVals: the values a loop's variable may have at the end of a turn.
func backVals(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && q != ph {
			for _, e := range q.Edges {
				add(e)
			}
			return
		}
		out = append(out, v)
	}
	for i, e := range ph.Edges {
		if back[ph.Block().Preds[i]] {
			add(e)
		}
	}
	return out
}

func ivFromMinusOne(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) bool { return false }

// ivNonNeg: starts at a constant >= 0 and only steps up.
func ivNonNeg(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) bool {
	for _, e := range backVals(ph, back) {
		bo, ok := e.(*ssa.BinOp)
		if !ok {
			if e == ssa.Value(ph) {
				continue
			}
			return false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || bo.Op != token.ADD || constant.Sign(c.Value) < 0 {
			return false
		}
	}
	for i, e := range ph.Edges {
		if back[ph.Block().Preds[i]] {
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || constant.Sign(c.Value) < 0 {
			return false
		}
	}
	return true
}

// ssaInt: the integer constant v is.
func ssaInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func sameIntConst(a, b *ssa.Const) bool {
	x, ok := ssaInt(a)
	y, ok2 := ssaInt(b)
	return ok && ok2 && x == y
}

// ivUnit: counts 0, 1, 2, ... without skipping.
func ivUnit(ph *ssa.Phi, back map[*ssa.BasicBlock]bool) bool {
	for _, e := range backVals(ph, back) {
		bo, ok := e.(*ssa.BinOp)
		if !ok {
			return false
		}
		if c, ok := ssaInt(bo.Y); !ok || c != 1 {
			return false
		}
	}
	for i, e := range ph.Edges {
		if back[ph.Block().Preds[i]] {
			continue
		}
		if c, ok := ssaInt(e); !ok || c != 0 {
			return false
		}
	}
	return true
}

// backEdges maps loop heads to their back-edge predecessors.
func (x *Engine) backEdges(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := x.heads[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if m[s] == nil {
					m[s] = map[*ssa.BasicBlock]bool{}
				}
				m[s][b] = true
			}
		}
	}
	x.heads[fn] = m
	return m
}

// inCycle: block lies on a cycle of its function.
func (x *Engine) inCycle(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	m, ok := x.cyc[fn]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		for _, s := range fn.Blocks {
			seen := map[*ssa.BasicBlock]bool{}
			st := append([]*ssa.BasicBlock(nil), s.Succs...)
			for len(st) > 0 {
				t := st[len(st)-1]
				st = st[:len(st)-1]
				if seen[t] {
					continue
				}
				seen[t] = true
				st = append(st, t.Succs...)
			}
			m[s] = seen[s]
		}
		x.cyc[fn] = m
	}
	return m[b]
}

func (x *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := x.live[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		m[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := out[b]
			for _, s := range b.Succs {
				for v := range m[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					o[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && track(ph.Edges[k]) {
							o[ph.Edges[k]] = true
						}
					}
				}
			}
			li := map[ssa.Value]bool{}
			for v := range o {
				li[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(li, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && track(*op) {
						li[*op] = true
					}
				}
			}
			// phis defined here that are used stay in live-in so that their value survives pruning
			for v := range li {
				if !m[b][v] {
					m[b][v] = true
					ch = true
				}
			}
		}
	}
	x.live[fn] = m
	return m
}

// prune drops dead values and the facts and memory only they could reach.
func (x *Engine) prune(p *Path, b *ssa.BasicBlock) {
	f := p.top()
	li := x.liveIn(f.fn)[b]
	for v := range f.env {
		if !li[v] {
			delete(f.env, v)
		}
	}
	if x.Track != nil {
		for k, r := range p.rels {
			if !x.Track(r.t) {
				delete(p.rels, k)
			}
		}
		for k, d := range p.doms {
			if !x.Track(d.t) {
				delete(p.doms, k)
			}
		}
	}
	live := map[int]bool{}
	add := func(t *Term) {
		for _, s := range t.sites {
			live[s] = true
		}
	}
	for _, fr := range p.frames {
		for _, t := range fr.env {
			add(t)
			if t.op == "closure" {
				for _, a := range t.args {
					add(a)
				}
			}
		}
		for _, d := range fr.defers {
			add(d.fnv)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, t := range p.Vars {
		add(t)
	}
	for _, l := range p.locks {
		add(l.t)
	}
	if p.epoch != nil {
		add(p.epoch)
	}
	for ch := true; ch; {
		ch = false
		for _, c := range p.mem {
			ok := true
			for _, s := range c.addr.sites {
				if !live[s] {
					ok = false
				}
			}
			if ok {
				for _, s := range c.val.sites {
					if !live[s] {
						live[s] = true
						ch = true
					}
				}
			}
		}
	}
	dead := func(t *Term) bool {
		for _, s := range t.sites {
			if !live[s] {
				return true
			}
		}
		return false
	}
	for k, c := range p.mem {
		if dead(c.addr) {
			delete(p.mem, k)
		}
	}
	for k, r := range p.rels {
		if dead(r.t) {
			delete(p.rels, k)
		}
	}
	for k, d := range p.doms {
		if dead(d.t) {
			delete(p.doms, k)
		}
	}
}

// age renames instances of site s from "most recent" to "earlier".
func (x *Engine) age(p *Path, s int) {
	memo := map[string]*Term{}
	var ren func(t *Term) *Term
	ren = func(t *Term) *Term {
		if t == nil || !t.hasSite(s) {
			return t
		}
		if r, ok := memo[t.key]; ok {
			return r
		}
		n := *t
		if len(t.args) > 0 {
			n.args = make([]*Term, len(t.args))
			for i, a := range t.args {
				n.args[i] = ren(a)
			}
		}
		if len(t.attr) > 0 {
			n.attr = make([]*Term, len(t.attr))
			for i, a := range t.attr {
				n.attr[i] = ren(a)
			}
		}
		if t.site == s {
			n.age = 1
		}
		r := mk(&n)
		memo[t.key] = r
		return r
	}
	touched := false
	oldRef, newRef := false, false // an earlier instance, the latest one is mentioned
	for _, v := range p.Vars {
		oldRef, newRef = oldRef || v.hasOld(s), newRef || v.hasSite(s)
	}
	for _, c := range p.mem {
		oldRef = oldRef || c.addr.hasOld(s) || c.val.hasOld(s)
		newRef = newRef || c.addr.hasSite(s) || c.val.hasSite(s)
	}
	for i, f := range p.frames {
		hit := false
		for _, t := range f.env {

			if t.hasSite(s) {
				hit, newRef = true, true
			}
			oldRef = oldRef || t.hasOld(s)
		}
		for _, d := range f.defers {
			if d.fnv.hasSite(s) {
				hit = true
			}
			for _, a := range d.args {
				if a.hasSite(s) {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		touched = true
		g := f
		if i != len(p.frames)-1 {
			g = f.clone()
			p.frames[i] = g
		}
		for v, t := range g.env {
			g.env[v] = ren(t)
		}
		for j := range g.defers {
			d := g.defers[j]
			na := make([]*Term, len(d.args))
			for k, a := range d.args {
				na[k] = ren(a)
			}
			g.defers[j] = deferred{d.instr, ren(d.fnv), na}
		}
	}
	_ = touched
	for k, v := range p.Vars {
		p.Vars[k] = ren(v)
	}
	if p.epoch != nil {
		newRef = newRef || p.epoch.hasSite(s)
		p.epoch = ren(p.epoch)
	}
	for k, l := range p.locks {
		if l.t.hasSite(s) {
			newRef = true
			delete(p.locks, k)
			l.t = ren(l.t)
			p.locks[l.t.key] = l
		}
	}
	type mc struct{ c memCell }
	var moved []memCell
	for k, c := range p.mem {
		if c.addr.hasSite(s) || c.val.hasSite(s) {
			delete(p.mem, k)
			moved = append(moved, memCell{ren(c.addr), ren(c.val)})
		}
	}
	sort.Slice(moved, func(i, j int) bool { return moved[i].addr.key+moved[i].val.key < moved[j].addr.key+moved[j].val.key })
	for _, c := range moved {
		if o, ok := p.mem[c.addr.key]; ok && o.val.key != c.val.key {
			// two objects summarised by one: weak update
			c.val = mk(&Term{op: "weak", args: []*Term{c.addr}, typ: c.val.typ})
		}
		p.mem[c.addr.key] = c
	}
	if !newRef {
		// nobody can mention the latest instance any more
		for k, r := range p.rels {
			if r.t.hasSite(s) {
				delete(p.rels, k)
			}
		}
		for k, d := range p.doms {
			if d.t.hasSite(s) {
				delete(p.doms, k)
			}
		}
		return
	}
	// An earlier instance stands for every instance but the latest: what is
	// known of it stays known only when the instance joining it has it too,
	// unless nothing mentions an earlier one any more.
	newRels := map[string]relFact{}
	for k, r := range p.rels {
		if r.t.hasSite(s) {
			delete(p.rels, k)
			if !r.t.hasOld(s) {
				r.t = ren(r.t)
				newRels[r.t.key] = r
			}
		}
	}
	for k, r := range p.rels {
		if r.t.hasOld(s) {
			if n, ok := newRels[k]; !ok || n.v != r.v {
				delete(p.rels, k)
				if ok {
					delete(newRels, k)
				}
			}
		}
	}
	for k, r := range newRels {
		if _, ok := p.rels[k]; ok || !oldRef {
			p.rels[k] = r
		}
	}
	newDoms := map[string]*dom{}
	for k, d := range p.doms {
		if d.t.hasSite(s) {
			delete(p.doms, k)
			if !d.t.hasOld(s) {
				nd := d.clone()
				nd.t = ren(d.t)
				if nd.eq != nil {
					nd.eq = ren(nd.eq)
				}
				newDoms[nd.t.key] = nd
			}
		}
	}
	for k, d := range p.doms {
		if d.t.hasOld(s) {
			if n, ok := newDoms[k]; !ok || n.str() != d.str() {
				delete(p.doms, k)
				if ok {
					delete(newDoms, k)
				}
			}
		}
	}
	for k, d := range newDoms {
		if _, ok := p.doms[k]; ok || !oldRef {
			p.doms[k] = d
		}
	}
}

func (x *Engine) fresh(p *Path, op, name string, in ssa.Instruction, typ types.Type, attr ...*Term) *Term {
	return x.freshK(p, op, name, instrKey(in), typ, attr...)
}

func (x *Engine) freshK(p *Path, op, name, k string, typ types.Type, attr ...*Term) *Term {
	s := x.siteOf(p.top().ctx, k)
	x.age(p, s)
	// attrs may themselves have mentioned the site: they were computed before ageing
	na := make([]*Term, len(attr))
	for i, a := range attr {
		na[i] = x.ageTerm(a, s)
	}
	return mk(&Term{op: op, name: name, site: s, typ: typ, attr: na})
}

func (x *Engine) ageTerm(t *Term, s int) *Term {
	if t == nil || !t.hasSite(s) {
		return t
	}
	n := *t
	if len(t.args) > 0 {
		n.args = make([]*Term, len(t.args))
		for i, a := range t.args {
			n.args[i] = x.ageTerm(a, s)
		}
	}
	if len(t.attr) > 0 {
		n.attr = make([]*Term, len(t.attr))
		for i, a := range t.attr {
			n.attr[i] = x.ageTerm(a, s)
		}
	}
	if t.site == s {
		n.age = 1
	}
	return mk(&n)
}

func (x *Engine) event(p *Path, e *Event) {
	x.Events++
	if x.OnEvent != nil {
		x.OnEvent(p, e)
	}
}

// ---- values ---------------------------------------------------------------

func (x *Engine) val(p *Path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return zeroTerm(v.Type())
			}
			if _, ok := v.Type().Underlying().(*types.Array); ok {
				return zeroTerm(v.Type())
			}
			return tNil
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mk(&Term{op: "global", name: strings.TrimPrefix(strings.TrimPrefix(v.String(), modPath+"/"), modPath), typ: v.Type()})
	case *ssa.Function:
		return mk(&Term{op: "fn", name: calleeName(v), fn: v, typ: v.Type()})
	case *ssa.Builtin:
		return mk(&Term{op: "builtin", name: v.Name()})
	}
	if t, ok := p.top().env[v]; ok {
		return t
	}
	return mk(&Term{op: "undef", name: v.Name(), typ: v.Type()})
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
	case *types.Struct:
		return mk(&Term{op: "zero", name: typeStr(t), typ: t})
	case *types.Array:
		return mk(&Term{op: "zero", name: typeStr(t), typ: t})
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return tNil
	}
	return mk(&Term{op: "zero", name: typeStr(t), typ: t})
}

func fieldAddr(base *Term, owner types.Type, f *types.Var) *Term {
	return mk(&Term{op: "field", name: fieldName(f, owner), args: []*Term{base}, fld: f, typ: types.NewPointer(f.Type())})
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Load reads memory at addr.
func (x *Engine) Load(p *Path, addr *Term, typ types.Type) *Term {
	if typ == nil && addr.typ != nil {
		typ = derefT(addr.typ)
	}
	if c, ok := p.mem[addr.key]; ok {
		// a whole struct with per-field overrides
		if st := structOf(typ); st != nil {
			if ov := x.overrides(p, addr, typ, st, c.val); ov != nil {
				return ov
			}
		}
		return c.val
	}
	if st := structOf(typ); st != nil {
		if ov := x.overrides(p, addr, typ, st, nil); ov != nil {
			return ov
		}
	}
	switch addr.op {
	case "field":
		base := addr.args[0]
		if w, ok := x.whole(p, base); ok {
			return x.fieldOf(w, addr.fld, addr.name, typ)
		}
	case "idx":
		if w, ok := x.whole(p, addr.args[0]); ok {
			if w.op == "zero" {
				return zeroTerm(typ)
			}
			return mk(&Term{op: "elem", args: []*Term{w, addr.args[1]}, typ: typ})
		}
	}
	r := addr.addrRoot()
	if r.op == "alloc" && r.age == 0 && !x.maybeStored(p, addr) {
		return zeroTerm(typ)
	}
	args := []*Term{addr}
	if p.epoch != nil && r.op != "alloc" && r.op != "global" && !x.immFree[addr.key] && x.P.mutableAddr(addr) {
		args = append(args, p.epoch)
	}
	return mk(&Term{op: "load", args: args, typ: typ})
}

// maybeStored: an element of an array that lies under addr may have been
// stored under another name for its index.
func (x *Engine) maybeStored(p *Path, addr *Term) bool {
	for u := addr; len(u.args) > 0 && (u.op == "idx" || u.op == "field"); u = u.args[0] {
		if u.op != "idx" {
			continue
		}
		for _, c := range p.mem {
			if j := stepUnder(c.addr, u.args[0]); j != nil && j.key != u.args[1].key && mayEqual(j, u.args[1]) {
				return true
			}
		}
	}
	return false
}

// stepUnder: the index by which a lies under the array base.
func stepUnder(a, base *Term) *Term {
	for u := a; len(u.args) > 0 && (u.op == "idx" || u.op == "field"); u = u.args[0] {
		if u.op == "idx" && u.args[0].key == base.key {
			return u.args[1]
		}
	}
	return nil
}

func mayEqual(i, j *Term) bool {
	a, ok := i.intConst()
	b, ok2 := j.intConst()
	return !ok || !ok2 || a == b
}

// whole finds the most specific enclosing value known for address a.
func (x *Engine) whole(p *Path, a *Term) (*Term, bool) {
	if c, ok := p.mem[a.key]; ok {
		return c.val, true
	}
	switch a.op {
	case "field":
		if w, ok := x.whole(p, a.args[0]); ok {
			return x.fieldOf(w, a.fld, a.name, derefT(a.typ)), true
		}
	case "idx":
		if w, ok := x.whole(p, a.args[0]); ok {
			return mk(&Term{op: "elem", args: []*Term{w, a.args[1]}, typ: derefT(a.typ)}), true
		}
	}
	return nil, false
}

func (x *Engine) fieldOf(w *Term, f *types.Var, name string, typ types.Type) *Term {
	switch w.op {
	case "struct":
		if st := structOf(w.typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == f || (f != nil && st.Field(i).Name() == f.Name()) {
					return w.args[i]
				}
			}
		}
	case "zero":
		return zeroTerm(typ)
	case "load":
		// value copied out of memory: name the field through its address
		return mk(&Term{op: "load", args: append([]*Term{mk(&Term{op: "field", name: name, args: []*Term{w.args[0]}, fld: f, typ: types.NewPointer(typ)})}, w.args[1:]...), typ: typ})
	}
	return mk(&Term{op: "fld", name: name, args: []*Term{w}, fld: f, typ: typ})
}

// overrides assembles a struct value from per-field memory, or nil if there is none.
func (x *Engine) overrides(p *Path, addr *Term, typ types.Type, st *types.Struct, whole *Term) *Term {
	pre := addr.key + "."
	any := false
	for k := range p.mem {
		if strings.HasPrefix(k, pre) {
			any = true
			break
		}
	}
	r := addr.addrRoot()
	if !any && !(whole == nil && r.op == "alloc" && r.age == 0) {
		return nil
	}
	if !any {
		return nil
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = x.Load(p, fieldAddr(addr, typ, st.Field(i)), st.Field(i).Type())
	}
	return mk(&Term{op: "struct", name: typeStr(typ), args: args, typ: typ})
}

// Store writes memory.
func (x *Engine) Store(p *Path, addr, v *Term) {
	for k := range p.mem {
		if strings.HasPrefix(k, addr.key+".") || strings.HasPrefix(k, "idx("+addr.key+",") || (k != addr.key && strings.Contains(k, "("+addr.key+",")) {
			delete(p.mem, k)
		}
	}
	// an element known by another index may be the one written
	for u := addr; len(u.args) > 0 && (u.op == "idx" || u.op == "field"); u = u.args[0] {
		if u.op != "idx" {
			continue
		}
		for k, c := range p.mem {
			if j := stepUnder(c.addr, u.args[0]); j != nil && j.key != u.args[1].key && mayEqual(j, u.args[1]) {
				p.mem[k] = memCell{c.addr, mk(&Term{op: "load", args: []*Term{c.addr, addr}, typ: c.val.typ})}
			}
		}
	}
	if v.op == "struct" {
		if st := structOf(v.typ); st != nil && len(v.args) == st.NumFields() {
			delete(p.mem, addr.key)
			for i := range v.args {
				fa := fieldAddr(addr, v.typ, st.Field(i))
				x.Store(p, fa, v.args[i])
			}
			return
		}
	}
	// facts derived from an earlier load of this very address no longer describe it
	p.mem[addr.key] = memCell{addr, v}
}

// havoc forgets what is known about the memory reachable from an address.
func (x *Engine) havoc(p *Path, a *Term, in ssa.Instruction, why string) {
	switch a.op {
	case "iface":
		x.havoc(p, a.args[0], in, why)
		return
	case "closure":
		for i, b := range a.args {
			if i < len(a.fn.FreeVars) && !mayWrite(a.fn.FreeVars[i], map[ssa.Value]bool{}) {
				continue
			}
			x.havocCell(p, b, in, why)
		}
		return
	case "slice":
		if a.args[0].op == "alloc" {
			if at, ok := derefT(a.args[0].typ).Underlying().(*types.Array); ok {
				if _, basic := at.Elem().Underlying().(*types.Basic); basic {
					x.havocCell(p, a.args[0], in, why)
					return
				}
			}
			// elements escape by value only
			for _, c := range snapshotMem(p) {
				if c.addr.op == "idx" && c.addr.args[0].key == a.args[0].key {
					if c.val.op == "iface" || c.val.op == "alloc" || c.val.op == "field" || c.val.op == "closure" {
						x.havoc(p, c.val, in, why)
					}
				}
			}
		}
		return
	case "alloc", "field", "idx":
		x.havocCell(p, a, in, why)
	}
}

// writtenOnce: the variable behind a free variable is assigned exactly once,
// before the closure is made.
func writtenOnce(fv *ssa.FreeVar, i int) bool {
	fn := fv.Parent()
	if fn.Parent() == nil || mayWrite(fv, map[ssa.Value]bool{}) {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			switch v := mc.Bindings[i].(type) {
			case *ssa.FreeVar:
				j := -1
				for k, f := range fn.Parent().FreeVars {
					if f == v {
						j = k
					}
				}
				return j >= 0 && writtenOnce(v, j)
			case *ssa.Alloc:
				stores := 0
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == ssa.Value(v) {
							stores++
						} else {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						for k, bd := range r.Bindings {
							if bd == ssa.Value(v) && mayWrite(r.Fn.(*ssa.Function).FreeVars[k], map[ssa.Value]bool{}) {
								return false
							}
						}
					default:
						return false
					}
				}
				return stores == 1
			}
			return false
		}
	}
	return false
}

// mayWrite: the cell behind a captured variable (or a pointer to it) may be
// written by the function it is captured in, or by a closure nested there.
func mayWrite(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.FieldAddr:
			if mayWrite(r, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if mayWrite(r, seen) {
				return true
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && mayWrite(f.FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.Call:
			n := ""
			if cal := r.Call.StaticCallee(); cal != nil {
				n = calleeName(cal)
			}
			if lockOp(n) == "" && !strings.HasPrefix(n, "sync/atomic.") {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func snapshotMem(p *Path) []memCell {
	var out []memCell
	for _, c := range p.mem {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].addr.key < out[j].addr.key })
	return out
}

func (x *Engine) havocCell(p *Path, a *Term, in ssa.Instruction, why string) {
	switch a.op {
	case "alloc", "field", "idx":
	default:
		return
	}
	et := types.Type(types.Typ[types.Invalid])
	if a.typ != nil {
		et = derefT(a.typ)
	}
	// a cell bound by closures: its own content becomes unknown; things it points to stay
	h := x.freshK(p, "out", why, instrKey(in)+"/"+a.key, et)
	h.attr = []*Term{a}
	x.Store(p, a, h)
}

// mutableAddr: the field may be written after construction.
func (P *Prog) mutableAddr(addr *Term) bool {
	if addr.op != "field" {
		return true
	}
	return P.mutFields()[addr.fld.Origin()]
}

var mutCache map[*types.Var]bool

// mutFields: fields stored to (or whose address escapes to a call) through a
// base that is not freshly allocated in the same function.
func (P *Prog) mutFields() map[*types.Var]bool {
	if mutCache != nil {
		return mutCache
	}
	m := map[*types.Var]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOf(derefT(fa.X.Type()))
				if st == nil {
					continue
				}
				v := st.Field(fa.Field).Origin()
				base := ssa.Value(fa.X)
				for {
					if q, ok := base.(*ssa.FieldAddr); ok {
						base = q.X
						continue
					}
					break
				}
				if _, ok := base.(*ssa.Alloc); ok {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == ssa.Value(fa) {
							m[v] = true
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					default:
						m[v] = true
					}
				}
			}
		}
	}
	mutCache = m
	return m
}
