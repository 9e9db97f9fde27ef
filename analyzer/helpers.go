package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func lt(a, b *Term) *Term {
	t, neg := cmp(token.LSS, a, b)
	if neg {
		return tNot(t)
	}
	return t
}

func eq(a, b *Term) *Term {
	t, neg := cmp(token.EQL, a, b)
	if neg {
		return tNot(t)
	}
	return t
}

// exportedRoots lists the exported functions and exported-name methods of a package.
func (c *Ctx) exportedRoots(rel string) []*ssa.Function {
	var out []*ssa.Function
	p := c.P.pkg(rel)
	if p == nil {
		c.failAt("anchor package "+rel, "?", "", "package "+rel+" not loaded")
		return nil
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || f.Pkg != p && (f.Origin() == nil || f.Origin().Pkg != p) {
			continue
		}
		if f.Object() == nil || !token.IsExported(f.Name()) {
			continue
		}
		if f.Origin() != nil {
			continue
		}
		out = append(out, f)
	}
	return out
}

// typeMethods lists every method (exported or not) declared on a named type.
func (c *Ctx) typeMethods(rel, typ string, exportedOnly bool) []*ssa.Function {
	var out []*ssa.Function
	p := c.P.pkg(rel)
	if p == nil || p.Type(typ) == nil {
		c.failAt("anchor type "+rel+"."+typ, "?", "", "type not found")
		return nil
	}
	named := p.Type(typ).Type()
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		if types.Identical(derefT(f.Signature.Recv().Type()), named) {
			if exportedOnly && !token.IsExported(f.Name()) {
				continue
			}
			out = append(out, f)
		}
	}
	return out
}

// goRoots finds functions started as goroutines in a package.
func (c *Ctx) goRoots(rel string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != strings.TrimSuffix(modPath+"/"+rel, "/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var t *ssa.Function
				switch v := g.Call.Value.(type) {
				case *ssa.Function:
					t = v
				case *ssa.MakeClosure:
					t = v.Fn.(*ssa.Function)
				}
				if t != nil && len(t.Blocks) > 0 && inModule(t) && !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// freshBase: the object an address lies in was allocated on this path.
func freshBase(a *Term) bool {
	r := a.addrRoot()
	switch r.op {
	case "alloc", "makemap", "makeslice", "append":
		return true
	}
	return false
}

// guard is one guarded-by instance: field Type.F may be touched only while
// Type.Lock of the same object is held.
type guard struct {
	Field string // "Type.field"
	Lock  string // "Type.lock"
	ROK   bool   // immutable content: reading the field needs the lock, its content does not
	Map   bool   // the map or list itself is guarded, the field that holds it is set at construction only
}

// lockRules checks, on every path from the given roots: guarded-by, lock
// balance, no re-acquisition, and no blocking or callbacks while a lock is held.
type lockRules struct {
	Guards     []guard
	Exempt     func(f *ssa.Function) bool // constructor-time functions
	AllowCall  func(p *Path, e *Event) bool
	NoCallback bool
	NoBlock    bool
	Extra      func(p *Path, e *Event)
	Config     func(x *Engine)
	Modular    bool // analyse each function that touches a guarded field on its own
}

func (c *Ctx) runLocks(rel string, roots []*ssa.Function, lr lockRules) {
	visited := map[ssa.Instruction]bool{}
	entered := map[*ssa.Function]bool{}
	g, isLock := map[string]guard{}, map[string]bool{}
	for _, q := range lr.Guards {
		g[q.Field] = q
		isLock[q.Lock] = true
	}
	// closures nobody analysed as part of their maker are entry points too
	var late []*ssa.Function
	touches := map[*ssa.Function]int{} // 1: touches a guarded field, itself or through what it calls
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if v, ok := touches[f]; ok {
			return v == 1
		}
		touches[f] = 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if st := structOf(derefT(fa.X.Type())); st != nil {
						n := fieldName(st.Field(fa.Field), derefT(fa.X.Type()))
						if _, ok := g[n]; ok || isLock[n] {
							touches[f] = 1
							return true
						}
					}
				}
				for _, o := range in.Operands(nil) {
					if q, ok := (*o).(*ssa.Function); ok && inModule(q) && len(q.Blocks) > 0 && reach(q) {
						touches[f] = 1
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil && fnPkgPath(f) == strings.TrimSuffix(modPath+"/"+rel, "/") && f.Synthetic == "" && reach(f) {
			late = append(late, f)
		}
	}
	depth := func(f *ssa.Function) int {
		n := 0
		for ; f.Parent() != nil; f = f.Parent() {
			n++
		}
		return n
	}
	sort.SliceStable(late, func(i, j int) bool { return depth(late[i]) < depth(late[j]) })
	opaque := map[*ssa.Function]bool{}
	acquires := map[*ssa.Function]map[string]bool{}
	needs := map[*ssa.Function]map[string]bool{}
	explore := func(c *Ctx, r *ssa.Function, seen map[*ssa.Function]bool, with map[string]bool) {
		rn := calleeName(r)
		c.Oblige("locks " + rn)
		x := newEngine(c.P, r)
		if lr.Config != nil {
			lr.Config(x)
		}
		if lr.Modular {
			prev := x.NoInline
			x.NoInline = func(f *ssa.Function) bool {
				if prev != nil && prev(f) {
					return true
				}
				if fnPkgPath(f) != strings.TrimSuffix(modPath+"/"+rel, "/") || isWrapperOfModule(f) {
					return true
				}
				return opaque[f] || !reach(f)
			}
		}
		check := func(p *Path, e *Event, addr *Term, write bool, what string) {
			q, ok := g[addr.name]
			if !ok || addr.op != "field" || freshBase(addr) {
				return
			}
			if q.Map && what == "read of the field" {
				return
			}
			if q.Map && what == "write" {
				c.Fail(fmt.Sprintf("guarded-by %s replaced in %s", q.Field, calleeName(e.In)), e.Pos(), p.Trace(), "%s is replaced after construction", q.Field)
				return
			}
			base := addr.args[0]
			isL := func(t *Term) bool {
				return t.op == "field" && t.name == q.Lock && t.args[0].key == base.key
			}
			held := p.HeldW(isL)
			if !write {
				held = p.HeldRW(isL)
			}
			if !held {
				c.Fail(fmt.Sprintf("guarded-by %s in %s", q.Field, calleeName(e.In)), e.Pos(), p.Trace(), "%s of %s without holding %s (entry %s)", what, q.Field, q.Lock, rn)
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			if e.Instr != nil {
				visited[e.Instr] = true
				entered[e.In] = true
				if seen != nil {
					seen[e.In] = true
				}
			}
			switch e.Kind {
			case "precall":
				if f := e.Fn; f != nil && opaque[f] {
					for n := range needs[f] {
						if len(e.Args) == 0 || !p.HeldW(func(t *Term) bool { return t.isFieldAddr(n) && t.args[0].unbox().key == e.Args[0].unbox().key }) {
							c.Fail(fmt.Sprintf("guarded-by %s: call of %s in %s", n, e.Name, calleeName(e.In)), e.Pos(), p.Trace(), "%s, which relies on %s being held, is called without it (entry %s)", e.Name, n, rn)
						}
					}
					for n := range acquires[f] {
						if seen != nil && acquires[r] != nil {
							acquires[r][n] = true
						}
						for _, l := range p.locks {
							if (l.w > 0 || l.r > 0) && l.t.name == n {
								c.Fail(fmt.Sprintf("self-deadlock %s in %s", n, calleeName(e.In)), e.Pos(), p.Trace(), "%s, which acquires %s, is called while %s is held (entry %s)", e.Name, n, short(l.t), rn)
							}
						}
					}
				}
			case "load":
				if e.Addr.op == "field" {
					check(p, e, e.Addr, false, "read of the field")
				}
				for a := e.Addr; a.op == "idx" || a.op == "field"; a = a.args[0] {
					if b := a.args[0]; b.op == "load" && b.args[0].op == "field" {
						if q, ok := g[b.args[0].name]; ok && !q.ROK {
							check(p, e, b.args[0], false, "read of an element")
						}
						break
					}
				}
			case "store":
				if e.Addr.op == "field" {
					check(p, e, e.Addr, true, "write")
				}
				for a := e.Addr; a.op == "idx" || a.op == "field"; a = a.args[0] {
					if b := a.args[0]; b.op == "load" && b.args[0].op == "field" {
						if q, ok := g[b.args[0].name]; ok {
							if q.ROK {
								c.Fail(fmt.Sprintf("published %s modified in place in %s", q.Field, calleeName(e.In)), e.Pos(), p.Trace(), "element of %s written after publication", q.Field)
							}
							check(p, e, b.args[0], true, "write to an element")
						}
						break
					}
				}
			case "lookup", "next":
				if m := e.Args[0]; m.op == "load" && m.args[0].op == "field" {
					check(p, e, m.args[0], false, "read")
				}
			case "mapupdate", "delete", "clear":
				if m := e.Addr; m.op == "load" && m.args[0].op == "field" {
					check(p, e, m.args[0], true, "update")
				}
			case "prelock":
				if acquires[r] != nil {
					acquires[r][e.Addr.name] = true
				}
				if l, ok := p.locks[e.Addr.key]; ok && (l.w > 0 || l.r > 0) {
					c.Fail(fmt.Sprintf("self-deadlock %s in %s", e.Addr.name, calleeName(e.In)), e.Pos(), p.Trace(), "%s acquired while already held (entry %s)", short(e.Addr), rn)
				}
			case "unlock":
				l := p.locks[e.Addr.key]
				if (e.Name == "Unlock" && l.w == 0) || (e.Name == "RUnlock" && l.r == 0) {
					c.Fail(fmt.Sprintf("unlock-not-held %s in %s", e.Addr.name, calleeName(e.In)), e.Pos(), p.Trace(), "%s of %s which is not held in that mode (entry %s)", e.Name, short(e.Addr), rn)
				}
			case "return":
				for n := range with {
					if !p.HeldW(func(t *Term) bool { return t.isFieldAddr(n) && t.args[0].op == "param" }) {
						c.Fail(fmt.Sprintf("lock lost in %s", rn), e.Pos(), p.Trace(), "returns without %s, which it was called with", n)
					}
				}
				for _, l := range p.locks {
					if with != nil && (l.w > 0 || l.r > 0) && !(l.t.op == "field" && with[l.t.name] && l.t.args[0].op == "param") {
						c.Fail(fmt.Sprintf("lock-leak in %s", rn), e.Pos(), p.Trace(), "returns with %s still held", l.t.key)
					}
				}
				if h := p.HeldAny(); h != "" && with == nil {
					c.Fail(fmt.Sprintf("lock-leak in %s", rn), e.Pos(), p.Trace(), "returns with %s still held", h)
				}
			case "panic":
				if h := p.HeldAny(); h != "" && !x.deferredUnlock(p) {
					c.Fail(fmt.Sprintf("lock-leak-panic in %s", rn), e.Pos(), p.Trace(), "panics with %s still held", h)
				}
			case "call":
				if h := p.HeldAny(); h != "" {
					if lr.NoCallback && strings.HasPrefix(e.Name, "dyn:") && (lr.AllowCall == nil || !lr.AllowCall(p, e)) {
						c.Fail(fmt.Sprintf("callback-under-lock in %s", calleeName(e.In)), e.Pos(), p.Trace(), "calls out (%s) while holding %s (entry %s)", e.Name, h, rn)
					}
					if lr.NoBlock && blockingCall(e.Name) && (lr.AllowCall == nil || !lr.AllowCall(p, e)) {
						c.Fail(fmt.Sprintf("blocking-under-lock %s in %s", e.Name, calleeName(e.In)), e.Pos(), p.Trace(), "blocking call %s while holding %s (entry %s)", e.Name, h, rn)
					}
				}
			case "send", "recv":
				if h := p.HeldAny(); h != "" && lr.NoBlock && e.Blocking {
					c.Fail(fmt.Sprintf("blocking-%s-under-lock in %s", e.Kind, calleeName(e.In)), e.Pos(), p.Trace(), "blocking channel %s on %s while holding %s (entry %s)", e.Kind, short(e.Addr), h, rn)
				}
			}
			if lr.Extra != nil {
				lr.Extra(p, e)
			}
		}
		c.Explore(x, func(p *Path, ps []*Term) {
			for n := range with {
				a := mk(&Term{op: "field", name: n, args: []*Term{ps[0]}})
				p.locks[a.key] = lockHeld{t: a, w: 1}
			}
		})
	}
	if lr.Modular {
		// callees first; what is clean on its own is opaque to its callers
		type held struct {
			f *ssa.Function
			c *Ctx
		}
		var order []*ssa.Function
		mark := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if mark[f] || fnPkgPath(f) != strings.TrimSuffix(modPath+"/"+rel, "/") || f.Synthetic != "" || !reach(f) {
				return
			}
			mark[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if q, ok := (*o).(*ssa.Function); ok {
							visit(q)
						}
					}
				}
			}
			order = append(order, f)
		}
		for _, f := range c.P.Funcs {
			visit(f)
		}
		must := map[*ssa.Function]bool{}
		for _, r := range roots {
			must[r] = true
		}
		reentered := map[*ssa.Function]bool{}
		var dirty []held
		for _, f := range order {
			if lr.Exempt != nil && lr.Exempt(f) {
				continue
			}
			sub := newCtx(c.P, c.Prop, c.Tier)
			acquires[f] = map[string]bool{}
			seen := map[*ssa.Function]bool{}
			explore(sub, f, seen, nil)
			if len(sub.Viol) > 0 && !must[f] && f.Signature.Recv() != nil {
				// does it work for a caller that holds the locks of the receiver's guarded fields?
				with := map[string]bool{}
				for _, q := range lr.Guards {
					if !touchesField(f, q.Field, map[*ssa.Function]bool{}) {
						continue
					}
					if n, ok := derefT(f.Signature.Recv().Type()).(*types.Named); ok && strings.HasPrefix(q.Lock, n.Obj().Name()+".") {
						with[q.Lock] = true
					}
				}
				if len(with) > 0 {
					acquires[f] = map[string]bool{}
					alt := newCtx(c.P, c.Prop, c.Tier)
					explore(alt, f, nil, with)
					c.absorb(alt)
					if len(alt.Viol) == 0 {
						opaque[f], needs[f] = true, with
						c.absorb(sub)
						continue
					}
				}
			}
			if len(sub.Viol) == 0 || must[f] {
				opaque[f] = true
			}
			for g := range seen {
				if g != f {
					reentered[g] = true
				}
			}
			c.absorb(sub)
			dirty = append(dirty, held{f, sub})
		}
		for _, d := range dirty {
			if must[d.f] || !reentered[d.f] {
				for _, v := range d.c.Viol {
					c.failAt(v.Key, v.Where, v.Trace, v.Msg)
				}
			}
		}
	} else {
		nroots := len(roots)
		for ri, r := range append(append([]*ssa.Function(nil), roots...), late...) {
			if lr.Exempt != nil && lr.Exempt(r) {
				continue
			}
			if ri >= nroots && entered[r] {
				continue
			}
			explore(c, r, nil, nil)
		}
	}
	// every access to a guarded field must have been reached by some root
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != strings.TrimSuffix(modPath+"/"+rel, "/") || f.Synthetic != "" {
			continue
		}
		if lr.Exempt != nil && lr.Exempt(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOf(derefT(fa.X.Type()))
				if st == nil {
					continue
				}
				n := fieldName(st.Field(fa.Field), derefT(fa.X.Type()))
				if _, ok := g[n]; !ok {
					continue
				}
				key := fmt.Sprintf("guarded-by %s in %s", n, calleeName(f))
				c.Oblige(key)
				used := false
				n2 := 0
				for _, r := range *fa.Referrers() {
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					n2++
					if visited[r] {
						used = true
					}
				}
				if n2 > 0 && !used {
					c.Fail("unreached "+key, fa.Pos(), "", "access to %s in %s was not reached from any analysed entry point", n, calleeName(f))
				}
			}
		}
	}
}

// deferredUnlock: every held lock has an unlock pending in a deferred call.
func (x *Engine) deferredUnlock(p *Path) bool {
	for _, l := range p.locks {
		ok := false
		for _, f := range p.frames {
			for _, d := range f.defers {
				if lockOp(termCallee(d.fnv)) != "" && len(d.args) > 0 && d.args[0].key == l.t.key {
					ok = true
				}
				if d.fnv.op == "closure" {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func blockingCall(n string) bool {
	switch n {
	case "sync.(*WaitGroup).Wait", "time.Sleep", "net/http.(*Client).Do", "sync.(*Cond).Wait", "net.Dial", "net/http.Get":
		return true
	}
	return false
}

// signUnder evaluates the sign of a three-way comparison result on a path.
func signUnder(p *Path, t *Term) (int, bool) {
	if c, ok := t.intConst(); ok {
		switch {
		case c < 0:
			return -1, true
		case c > 0:
			return 1, true
		}
		return 0, true
	}
	if t.op == "pcall" && (t.name == "cmp.Compare" || t.name == "strings.Compare") {
		a, b := t.args[0], t.args[1]
		if p.IsTrue(lt(a, b)) {
			return -1, true
		}
		if p.IsTrue(lt(b, a)) {
			return 1, true
		}
		if p.IsTrue(eq(a, b)) {
			return 0, true
		}
		return 0, false
	}
	if t.op == "pcall" && t.name == "cmp.Or" && len(t.args) == 1 && t.args[0].op == "list" {
		for _, e := range t.args[0].args {
			s, ok := signUnder(p, e)
			if !ok {
				return 0, false
			}
			if s != 0 {
				return s, true
			}
		}
		return 0, true
	}
	if t.op == "neg" {
		s, ok := signUnder(p, t.args[0])
		return -s, ok
	}
	lo, hi := p.interval(t)
	if lo != nil && *lo > 0 {
		return 1, true
	}
	if hi != nil && *hi < 0 {
		return -1, true
	}
	return 0, false
}

// splitBool resolves a boolean result into the cases where it is true and false.
func splitBool(o Outcome, t *Term, f func(p *Path, v bool)) {
	switch o.Path.Decide(t) {
	case yes:
		f(o.Path, true)
	case no:
		f(o.Path, false)
	default:
		q := o.Path.fork()
		if q.Assume(t, true) {
			f(q, true)
		}
		q = o.Path.fork()
		if q.Assume(t, false) {
			f(q, false)
		}
	}
}

// feasible: the path stays consistent when pred is assumed.
func feasible(p *Path, pred *Term, v bool) bool {
	q := p.fork()
	return q.Assume(pred, v)
}

func hasPrefixAny(s string, pre ...string) bool {
	for _, p := range pre {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

// loadOf builds the term for a field load of base (no epoch).
func isBaseLoad(t *Term, field string, base *Term) bool {
	t = t.unbox()
	return t.op == "load" && t.args[0].op == "field" && t.args[0].name == field && t.args[0].args[0].key == base.key
}

// touchesField: f, or a module function it refers to, addresses the field.
func touchesField(f *ssa.Function, field string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	hit := false
	eachFieldAddr(f, field, func(*ssa.FieldAddr) { hit = true })
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if q, ok := (*o).(*ssa.Function); ok && inModule(q) && touchesField(q, field, seen) {
					return true
				}
			}
		}
	}
	return hit
}
