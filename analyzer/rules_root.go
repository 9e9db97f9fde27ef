package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relMW = "pkg/middleware"

func init() {
	register(&Property{ID: "D01", Level: "proof", MinObl: 60, Run: runD01,
		Explain: "Every type of the middleware package that is a cache service is taken with every method of the service interface: on each path the same method of the wrapped service is called exactly once with the caller's own arguments (the context may be one derived from the caller's), no other method of it, and what it returns is what the middleware returns. Constructors store the service they are given, and ApplyMiddleware folds the list in order."})
	register(&Property{ID: "T01", Level: "proof", MinObl: 14, Run: runT01,
		Explain: "All paths of every method of the typed wrapper, for an arbitrary value type: the one call of the wrapped cache it makes, with which arguments, and the answer for each of miss, error, value of another type and value of the right type."})
}

// serviceIface: the cache service interface of the root package.
func (c *Ctx) serviceIface() (*types.Named, *types.Interface) {
	p := c.P.pkg("")
	if p == nil || p.Type("Service") == nil {
		c.failAt("anchor Service", "?", "", "the service interface is not in the analysed program")
		return nil, nil
	}
	n, ok := p.Type("Service").Type().(*types.Named)
	if !ok {
		return nil, nil
	}
	it, _ := n.Underlying().(*types.Interface)
	return n, it
}

// derivesCtx: the call makes a context from one it is given, ending with it.
func derivesCtx(name string) bool {
	return name == "context.WithValue" || strings.HasSuffix(name, "/trace.Tracer.Start") || strings.HasSuffix(name, "/trace.ContextWithSpan") || strings.HasSuffix(name, "/baggage.ContextWithBaggage")
}

// isCtxOf: t is ctx or was made from it (see noteCtx).
func (p *Path) isCtxOf(t, ctx *Term) bool {
	t = t.unbox()
	if t.key == ctx.key {
		return true
	}
	if t.op == "ext" {
		if t.idx != 0 {
			return false
		}
		t = t.args[0]
	}
	if t.op == "pcall" && derivesCtx(t.name) {
		for _, a := range t.args {
			if p.isCtxOf(a, ctx) {
				return true
			}
		}
	}
	v := p.Vars["ctx|"+t.key]
	return v != nil && v.key == ctx.key
}

// noteCtx records the contexts made from ctx.
func (p *Path) noteCtx(e *Event, ctx *Term) {
	if e.Kind != "call" || !derivesCtx(e.Name) || e.Res == nil {
		return
	}
	for _, a := range e.Args {
		if p.isCtxOf(a, ctx) {
			r := e.Res
			if r.op == "tuple" {
				r = r.args[0]
			}
			if r.op == "ext" {
				r = r.args[0]
			}
			p.Vars["ctx|"+r.key] = ctx
			return
		}
	}
}

func runD01(c *Ctx) {
	named, it := c.serviceIface()
	if it == nil {
		return
	}
	p := c.P.pkg(relMW)
	if p == nil {
		c.failAt("anchor package "+relMW, "?", "", "package not loaded")
		return
	}
	n := 0
	for _, nm := range sortedMembers(p) {
		tt := p.Type(nm)
		if tt == nil {
			continue
		}
		st := structOf(tt.Type())
		if st == nil || !types.Implements(types.NewPointer(tt.Type()), it) {
			continue
		}
		next := ""
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), named) {
				next = nm + "." + st.Field(i).Name()
			}
		}
		if next == "" {
			c.Fail("middleware "+nm, tt.Pos(), "", "it has no wrapped service")
			continue
		}
		n++
		kw := "middleware " + nm + ": the wrapped service is only set where it is made"
		c.Oblige(kw)
		for _, f := range c.P.Funcs {
			eachFieldAddr(f, next, func(fa *ssa.FieldAddr) {
				if _, ok := fa.X.(*ssa.Alloc); ok {
					return
				}
				for _, r := range *fa.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
						c.Fail(kw, st.Pos(), "", "%s replaces it", f.Name())
					}
				}
			})
		}
		for i := 0; i < it.NumMethods(); i++ {
			c.delegates(nm, next, it.Method(i).Name())
		}
		for _, f := range c.P.Funcs {
			if f.Pkg != p || f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil {
				continue
			}
			c.mwConstructor(f, nm, next, named)
		}
	}
	c.Check("middlewares found", n >= 4, p.Func("init").Pos(), "only %d middlewares implement the service", n)
	if f := c.NeedF("", "ApplyMiddleware"); f != nil {
		k := "ApplyMiddleware: every middleware once, in order"
		c.Oblige(k)
		x := newEngine(c.P, f)
		svc, list := rootParam(f, 0), rootParam(f, 1)
		tr := &turns{tag: "m", over: func(p *Path, s *Term) bool { return s.key == list.key }, end: func(p *Path, e *Event) {
			if !p.Has("m/applied") {
				c.Fail(k, e.Pos(), p.Trace(), "a middleware is left out")
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			tr.step(p, e)
			cur := p.Vars["cur"]
			if cur == nil {
				cur = svc
			}
			switch e.Kind {
			case "precall":
				if !strings.HasPrefix(e.Name, "dyn:") || len(e.Args) != 1 {
					return
				}
				iv := p.Vars["m"]
				if iv == nil || p.Has("m/applied") || e.Name != "dyn:*(idx("+list.key+", "+iv.key+"))" {
					c.Fail(k, e.Pos(), p.Trace(), "%s is applied", strings.TrimPrefix(e.Name, "dyn:"))
				}
				if a := e.Args[0]; a.key != cur.key && a.op != "wide" {
					c.Fail(k, e.Pos(), p.Trace(), "a middleware wraps %s, not the service decorated so far", short(a))
				}
				p.Set("m/applied")
			case "call":
				if strings.HasPrefix(e.Name, "dyn:") && e.Res != nil {
					p.Vars["cur"] = e.Res
				}
			case "return":
				if !p.Has("m.all") {
					c.Fail(k, e.Pos(), p.Trace(), "it returns before all middlewares are applied")
				}
				if r := e.Args[0]; r.key != cur.key && r.op != "wide" {
					c.Fail(k, e.Pos(), p.Trace(), "it returns %s, not the decorated service", short(r))
				}
			}
		}
		c.Explore(x, nil)
	}
}

func sortedMembers(p *ssa.Package) []string {
	m := map[string]bool{}
	for k := range p.Members {
		m[k] = true
	}
	return sortedKeys(m)
}

// mwConstructor: a function that makes the middleware wraps the service given.
func (c *Ctx) mwConstructor(f *ssa.Function, nm, next string, svc types.Type) {
	prm := -1
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if types.Identical(f.Signature.Params().At(i).Type(), svc) {
			prm = i
		}
	}
	if prm < 0 || f.Signature.Results().Len() == 0 || !types.Identical(f.Signature.Results().At(0).Type(), svc) {
		return
	}
	x := newEngine(c.P, f)
	k := f.Name() + ": wraps the service it is given"
	want := rootParam(f, prm)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "store" && e.Addr.op == "field" && e.Addr.name == next && e.Addr.args[0].op == "alloc" {
			p.Vars["next|"+e.Addr.args[0].key] = e.Val
		}
	}
	for _, o := range c.Explore(x, nil) {
		r := o.Res[0]
		if r.isNil() {
			if len(o.Res) < 2 || o.Path.Decide(mkEq(o.Res[1], tNil)) != no && !nonNilTerm(o.Res[1].unbox()) {
				c.Oblige(k)
				c.Fail(k, f.Pos(), o.Path.Trace(), "it returns no service and no error")
			}
			continue
		}
		b := r.unbox()
		if b.typ == nil || !strings.HasSuffix(typeStr(derefT(b.typ)), "."+nm) {
			continue
		}
		c.Oblige(k)
		v := o.Path.Vars["next|"+b.key]
		if v == nil {
			v = x.fieldByName(o.Path, b, strings.TrimPrefix(next, nm+"."))
		}
		if v == nil || v.key != want.key {
			c.Fail(k, f.Pos(), o.Path.Trace(), "it wraps %s", short(v))
		}
		if len(o.Res) > 1 && !o.Res[1].isNil() && o.Path.Decide(mkEq(o.Res[1], tNil)) != yes {
			c.Fail(k, f.Pos(), o.Path.Trace(), "it returns a service and an error")
		}
	}
}

func (c *Ctx) delegates(nm, next, m string) {
	f := c.P.method(relMW, nm, m)
	k := nm + "." + m + ": "
	if f == nil || len(f.Blocks) == 0 {
		c.Oblige(k + "delegates")
		c.failAt(k+"delegates", "?", "", "the method is not declared")
		return
	}
	for _, s := range []string{"called once with the caller's arguments", "its answer is returned"} {
		c.Oblige(k + s)
	}
	x := newEngine(c.P, f)
	var ps []*Term
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(s, f2 string, a ...any) { c.Fail(k+s, e.Pos(), p.Trace(), f2, a...) }
		switch e.Kind {
		case "go":
			fail("called once with the caller's arguments", "it starts a goroutine")
		case "precall":
			if !strings.HasPrefix(e.Name, "Service.") {
				return
			}
			s := "called once with the caller's arguments"
			if !e.Args[0].isLoadOf(next) {
				fail(s, "%s is called on %s, not on the wrapped service", e.Name, short(e.Args[0]))
				return
			}
			if e.Name != "Service."+m {
				fail(s, "it calls %s of the wrapped service", e.Name)
				return
			}
			if p.Has("called") {
				fail(s, "the wrapped service is called twice")
			}
			p.Set("called")
			for i, a := range e.Args[1:] {
				want := ps[i+1]
				if typeStr(want.typ) == "context.Context" {
					if !p.isCtxOf(a, want) {
						fail(s, "the wrapped service gets the context %s", short(a))
					}
					continue
				}
				if a.key != want.key {
					fail(s, "the wrapped service gets %s for %s", short(a), want.key)
				}
			}
		case "call":
			for _, a := range ps {
				if typeStr(a.typ) == "context.Context" {
					p.noteCtx(e, a)
				}
			}
			if e.Name == "Service."+m && e.Res != nil {
				p.Vars["res"] = e.Res
			}
		case "return":
			s := "its answer is returned"
			if !p.Has("called") {
				fail("called once with the caller's arguments", "it returns without calling the wrapped service")
				return
			}
			r := p.Vars["res"]
			for i, a := range e.Args {
				want := r
				if r != nil && len(e.Args) > 1 && r.op == "tuple" {
					want = r.args[i]
				}
				if want == nil || !p.sameVal(a, want) {
					fail(s, "it returns %s", short(a))
				}
			}
		case "panic":
			fail("its answer is returned", "it panics")
		}
	}
	c.Explore(x, func(p *Path, in []*Term) { ps = in })
}

// sameVal: a is b, or both are known to be the same nil or constant.
func (p *Path) sameVal(a, b *Term) bool {
	if a.key == b.key || a.unbox().key == b.unbox().key {
		return true
	}
	if a.isNil() && p.KnownNil(b) {
		return true
	}
	if a.isConst() && isBoolT(b.typ) {
		d := p.Decide(b)
		if a.cv != nil && a.cv.String() == "true" {
			return d == yes
		}
		return d == no
	}
	return false
}

const hcT = ".(*HyperCache)."

func runT01(c *Ctx) {
	type rule func(p *Path, e *Event, cl []*Term, res func(i int) *Term, fail func(f string, a ...any))
	isZero := isZeroVal
	one := func(m, target string, on rule) {
		f := c.NeedM("", "Typed", m)
		if f == nil {
			return
		}
		ks := m + ": calls " + target + " of the wrapped cache once"
		kr := m + ": its answer"
		c.Oblige(ks)
		c.Oblige(kr)
		x := newEngine(c.P, f)
		x.NoInline = func(g *ssa.Function) bool { return strings.HasPrefix(calleeName(g), hcT) }
		var ps []*Term
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "branch":
				p.noteType(e)
			case "precall":
				if !strings.HasPrefix(e.Name, hcT) {
					return
				}
				if e.Name != hcT+target || p.Has("called") || !e.Args[0].isLoadOf("Typed.hc") {
					c.Fail(ks, e.Pos(), p.Trace(), "it calls %s", strings.TrimPrefix(e.Name, hcT))
				}
				p.Set("called")
				for i, a := range e.Args[1:] {
					if i+1 >= len(ps) || a.unbox().key != ps[i+1].key {
						c.Fail(ks, e.Pos(), p.Trace(), "the wrapped cache gets %s", short(a))
					}
				}
			case "call":
				if strings.HasPrefix(e.Name, hcT) {
					p.Vars["res"] = e.Res
				}
			case "return":
				if !p.Has("called") {
					c.Fail(ks, e.Pos(), p.Trace(), "it answers without asking the wrapped cache")
					return
				}
				r := p.Vars["res"]
				res := func(i int) *Term {
					if r.op == "tuple" {
						return r.args[i]
					}
					return r
				}
				on(p, e, e.Args, res, func(f2 string, a ...any) { c.Fail(kr, e.Pos(), p.Trace(), f2, a...) })
			case "panic":
				c.Fail(kr, e.Pos(), p.Trace(), "it panics")
			}
		}
		c.Explore(x, func(p *Path, in []*Term) { ps = in })
	}
	isAs := func(t, raw *Term) bool { t = t.unbox(); return t.op == "as" && t.args[0].key == raw.key }
	same := func(p *Path, e *Event, r []*Term, res func(i int) *Term, fail func(f string, a ...any)) {
		if !p.sameVal(r[0], res(0)) {
			fail("it answers %s", short(r[0]))
		}
	}
	one("Set", "Set", same)
	one("Remove", "Remove", same)
	one("Clear", "Clear", same)
	isOf := func(p *Path, raw *Term) int { return p.isType(raw) }
	one("Get", "Get", func(p *Path, e *Event, r []*Term, res func(i int) *Term, fail func(f string, a ...any)) {
		hit, of := p.Decide(res(1)), isOf(p, res(0))
		switch {
		case hit == yes && of == yes:
			if !isAs(r[0], res(0)) || !p.IsTrue(r[1]) {
				fail("a value of the right type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case hit == no || of == no:
			if !isZero(r[0]) || !p.IsFalse(r[1]) {
				fail("a miss or a value of another type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		default:
			fail("it answers (%s, %s) without knowing whether there is a value of the right type", short(r[0]), short(r[1]))
		}
	})
	const notFound, mismatch = "internal/sentinel.ErrKeyNotFound", "internal/sentinel.ErrTypeMismatch"
	one("GetTyped", "Get", func(p *Path, e *Event, r []*Term, res func(i int) *Term, fail func(f string, a ...any)) {
		hit, of := p.Decide(res(1)), isOf(p, res(0))
		switch {
		case hit == no:
			if !isZero(r[0]) || !wrapsSentinel(r[1], notFound) {
				fail("a miss is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case hit == yes && of == yes:
			if !isAs(r[0], res(0)) || !r[1].isNil() {
				fail("a value of the right type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case hit == yes && of == no:
			if !isZero(r[0]) || !wrapsSentinel(r[1], mismatch) {
				fail("a value of another type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		default:
			fail("it answers (%s, %s) without knowing whether there is a value of the right type", short(r[0]), short(r[1]))
		}
	})
	one("GetOrSet", "GetOrSet", func(p *Path, e *Event, r []*Term, res func(i int) *Term, fail func(f string, a ...any)) {
		err, of := p.Decide(mkEq(res(1), tNil)), isOf(p, res(0))
		switch {
		case err == no:
			if !isZero(r[0]) || !carries(r[1], res(1)) {
				fail("an error is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case err == yes && of == yes:
			if !isAs(r[0], res(0)) || !r[1].isNil() {
				fail("a value of the right type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case err == yes && of == no:
			if !isZero(r[0]) || !wrapsSentinel(r[1], mismatch) {
				fail("a value of another type is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		default:
			fail("it answers (%s, %s) without knowing what came back", short(r[0]), short(r[1]))
		}
	})
	one("GetWithInfo", "GetWithInfo", func(p *Path, e *Event, r []*Term, res func(i int) *Term, fail func(f string, a ...any)) {
		hit := p.Decide(res(1))
		it := res(0)
		good := func(t *Term) bool {
			t = t.unbox()
			return t.op == "as" && t.args[0].isLoadOf("Item.Value") && loadBase(t.args[0]).key == it.key
		}
		switch {
		case good(r[1]):
			if hit != yes || r[0].key != it.key || !p.IsTrue(r[2]) || p.isType(r[1].unbox().args[0]) != yes {
				fail("it answers (%s, %s, %s)", short(r[0]), short(r[1]), short(r[2]))
			}
		case !r[0].isNil() || !isZero(r[1]) || !p.IsFalse(r[2]):
			fail("a miss or a value of another type is answered with (%s, %s, %s)", short(r[0]), short(r[1]), short(r[2]))
		case hit != no && !p.Has("other"):
			fail("a value that may be of the right type is answered as a miss")
		}
	})
	c.typedMultiple()
}

// noteType records the outcome of a test for the wrapper's value type.
func (p *Path) noteType(e *Event) {
	if e.Val.op != "is" {
		return
	}
	if _, ok := e.Val.typ2().(*types.TypeParam); !ok {
		return
	}
	k := e.Val.args[0].key
	if e.Truth {
		p.Set("is+" + k)
		return
	}
	p.Set("is-" + k)
	if e.Val.args[0].isLoadOf("Item.Value") {
		p.Set("other")
	}
}

// isType: t is known (not) to be of the wrapper's value type.
func (p *Path) isType(t *Term) int {
	switch {
	case p.Has("is+" + t.key):
		return yes
	case p.Has("is-" + t.key):
		return no
	}
	return unknown
}

// typedMultiple: every raw hit ends in exactly one of the two answers.
func (c *Ctx) typedMultiple() {
	f := c.NeedM("", "Typed", "GetMultiple")
	if f == nil {
		return
	}
	ks, kr, kt := "GetMultiple: calls GetMultiple of the wrapped cache once", "GetMultiple: its answer", "GetMultiple: every raw hit lands in exactly one map"
	for _, k := range []string{ks, kr, kt} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return strings.HasPrefix(calleeName(g), hcT) }
	var ps []*Term
	res := func(p *Path, i int) *Term {
		r := p.Vars["res"]
		if r != nil && r.op == "tuple" {
			return r.args[i]
		}
		return nil
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, f2 string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), f2, a...) }
		raw, errs := res(p, 0), res(p, 1)
		switch e.Kind {
		case "precall":
			if !strings.HasPrefix(e.Name, hcT) {
				return
			}
			if e.Name != hcT+"GetMultiple" || p.Has("called") || !e.Args[0].isLoadOf("Typed.hc") || len(e.Args) != 3 || e.Args[1].key != ps[1].key || e.Args[2].key != ps[2].key {
				fail(ks, "it calls %s", strings.TrimPrefix(e.Name, hcT))
			}
			p.Set("called")
		case "call":
			if strings.HasPrefix(e.Name, hcT) {
				p.Vars["res"] = e.Res
			}
		case "next":
			if raw != nil && e.Args[0].key == raw.key {
				p.Vars["k"], p.Vars["v"] = e.Args[1], e.Args[2]
				p.Clear("is+" + e.Args[2].key)
				p.Clear("is-" + e.Args[2].key)
			}
		case "branch":
			p.noteType(e)
			if raw != nil && isCmp(e.Val, "==") && e.Truth && (isZeroVal(e.Val.args[0]) && isLenOf(e.Val.args[1], raw) || isZeroVal(e.Val.args[1]) && isLenOf(e.Val.args[0], raw)) {
				p.Set("all")
			}
			if e.Val.op != "nextok" || raw == nil || len(e.Val.attr) == 0 || e.Val.attr[0].key != raw.key {
				return
			}
			if p.Has("turn") && !p.Has("done") {
				fail(kt, "a raw hit is dropped")
			}
			p.Clear("turn")
			p.Clear("done")
			p.Clear("all")
			if e.Truth {
				p.Set("turn")
			} else {
				p.Set("all")
			}
		case "mapupdate":
			m, k, v := e.Args[0], e.Args[1], e.Args[2]
			if !p.Has("turn") || p.Vars["k"] == nil || k.key != p.Vars["k"].key || p.Has("done") {
				fail(kt, "the entry %s is written", short(k))
				return
			}
			cur := p.Vars["v"]
			p.Set("done")
			is := p.isType(cur)
			switch {
			case errs != nil && m.key == errs.key:
				if is != no || !wrapsSentinel(v, "internal/sentinel.ErrTypeMismatch") {
					fail(kt, "the error map gets %s for a value that is (possibly) of the right type", short(v))
				}
			case m.op == "makemap":
				if p.Vars["hits"] == nil {
					p.Vars["hits"] = m
				}
				if u := v.unbox(); is != yes || u.op != "as" || u.args[0].key != cur.key || p.Vars["hits"].key != m.key {
					fail(kt, "the hits get %s", short(v))
				}
			default:
				fail(kt, "the map %s is written", short(m))
			}
		case "delete", "clear":
			fail(kt, "entries are removed")
		case "panic":
			fail(kr, "it panics")
		case "return":
			if !p.Has("called") || raw == nil {
				fail(ks, "it answers without asking the wrapped cache")
				return
			}
			if !p.Has("all") {
				fail(kt, "it returns before all raw hits are looked at")
			}
			h, g := e.Args[0], e.Args[1]
			if hv := p.Vars["hits"]; h.op != "makemap" || hv != nil && hv.key != h.key {
				fail(kr, "the hits are %s", short(h))
			}
			if g.key != errs.key {
				fail(kr, "the errors are %s", short(g))
			}
		}
	}
	c.Explore(x, func(p *Path, in []*Term) { ps = in })
}

func isLenOf(t, s *Term) bool { return t.op == "len" && t.args[0].key == s.key }
