package main

import (
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// registrySpec describes one named-constructor registry.
type registrySpec struct {
	rel, typ, table                    string
	create, top, ctor, empty, register string
	unknown, blank                     string
	refuse                             func(p *Path, e *Event, er *Term) bool // further documented refusals
	defaults                           map[string]string                      // name -> dynamic type made ("" when it may fail)
	made                               map[string]string                      // name -> constructor called, when the result is a call
}

func (c *Ctx) intConstOf(rel, name string) (int64, bool) {
	pkg := c.P.pkg(rel)
	if pkg == nil {
		return 0, false
	}
	if k, ok := pkg.Members[name].(*ssa.NamedConst); ok {
		return constant.Int64Val(constant.ToInt(k.Value.Value))
	}
	return 0, false
}

// tableFill follows what a registry's table is filled with.
type tableFill struct {
	fns  map[string]*Term // name -> constructor
	fail func(p *Path, e *Event, f string, a ...any)
}

func (t *tableFill) on(p *Path, e *Event) {
	endTurn := func(p *Path, m string) {
		if p.Has("it:"+m) && !p.Has("upd:"+m) {
			t.fail(p, e, "an entry is not taken over")
		}
		p.Clear("it:" + m)
		p.Clear("upd:" + m)
	}
	switch e.Kind {
	case "branch":
		if e.Val.op == "nextok" && len(e.Val.attr) > 0 {
			m := e.Val.attr[0].key
			endTurn(p, m)
			if e.Truth {
				p.Set("it:" + m)
				p.Set("ran:" + m)
			} else {
				if !p.Has("ran:" + m) {
					for k := range p.Flags {
						if strings.HasPrefix(k, "reg:"+m+":") {
							p.Set("skip") // a loop over a non-empty table runs
						}
					}
				}
				p.Set("all:" + m)
			}
		}
	case "call":
		if e.Name == "maps.Copy" {
			p.Set("from:" + e.Args[0].key + "<" + e.Args[1].key)
			p.Set("all:" + e.Args[1].key)
		}
		if e.Name == "maps.Clone" && e.Res != nil {
			p.Set("from:" + e.Res.key + "<" + e.Args[0].key)
			p.Set("all:" + e.Args[0].key)
		}
	case "delete", "clear":
		t.fail(p, e, "entries are removed")
	case "mapupdate":
		k, v := e.Args[1], e.Args[2]
		if n, ok := k.strConst(); ok {
			p.Set("reg:" + e.Addr.key + ":" + n)
			if old := t.fns[n]; old != nil && old.key != v.key {
				t.fail(p, e, "%q is registered twice with different constructors", n)
			}
			t.fns[n] = v
			return
		}
		if k.op == "mapkey" && v.op == "mapval" && k.args[0].key == v.args[0].key && len(k.attr) > 0 {
			m := k.attr[0].key
			p.Set("upd:" + m)
			p.Set("from:" + e.Addr.key + "<" + m)
			return
		}
		t.fail(p, e, "%s is registered under %s", short(v), short(k))
	}
}

// names: what table m holds on this path.
func (t *tableFill) names(p *Path, m string) map[string]bool {
	out := map[string]bool{}
	for f := range p.Flags {
		if r, ok := strings.CutPrefix(f, "reg:"+m+":"); ok {
			out[r] = true
		}
		if r, ok := strings.CutPrefix(f, "from:"+m+"<"); ok && p.Has("all:"+r) && r != m {
			for k := range t.names(p, r) {
				out[k] = true
			}
		}
	}
	return out
}

func (c *Ctx) registryRules(s registrySpec) {
	tf := s.typ + "." + s.table
	// creating by name
	if f := c.NeedM(s.rel, s.typ, s.create); f != nil {
		for _, k := range []string{"blank name refused", "unknown name refused", "registered constructor called", "its result returned"} {
			c.Oblige(s.create + ": " + k)
		}
		x := newEngine(c.P, f)
		fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
			c.Fail(s.create+": "+k, e.Pos(), p.Trace(), f2, a...)
		}
		var ps []*Term
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "branch":
				if isCmp(e.Val, "==") && e.Truth {
					for i := 0; i < 2; i++ {
						if l := e.Val.args[i]; e.Val.args[1-i].isNil() && l.op == "lookup" && l.args[0].isLoadOf(tf) && l.args[1].key == ps[1].key && !p.Has("has+") {
							p.Set("has-") // registered as nil counts as not registered
						}
					}
				}
				if e.Val.op == "has" && e.Val.args[0].isLoadOf(tf) && e.Val.args[1].key == ps[1].key {
					p.Clear("has+")
					p.Clear("has-")
					if e.Truth {
						p.Set("has+")
					} else {
						p.Set("has-")
					}
				}
			case "mapupdate", "delete", "clear":
				fail("registered constructor called", p, e, "creating changes the table")
			case "call":
				if !strings.HasPrefix(e.Name, "dyn:") {
					return
				}
				l := e.Addr
				if l.op != "lookup" || !l.args[0].isLoadOf(tf) || l.args[1].key != ps[1].key {
					fail("registered constructor called", p, e, "%s is called", short(l))
				}
				if !p.Has("has+") && !p.KnownNonNil(l) {
					fail("registered constructor called", p, e, "the constructor of a name that may not be registered is called")
				}
				if p.Has("made") {
					fail("registered constructor called", p, e, "the constructor is called twice")
				}
				for i, a := range e.Args {
					if i+2 >= len(ps) || a.key != ps[i+2].key {
						fail("registered constructor called", p, e, "the constructor is given %s", short(a))
					}
				}
				p.Set("made")
				p.Vars["made"] = e.Res
			case "return":
				r, er := e.Args[0], e.Args[1]
				if p.Has("made") {
					if !p.IsFalse(eq(ps[1], tStr(""))) {
						fail("blank name refused", p, e, "a blank name may be accepted")
					}
					m := p.Vars["made"]
					ok := false
					if m.op == "tuple" {
						ok = len(m.args) == 2 && r.key == m.args[0].key && er.key == m.args[1].key
					} else {
						ok = r.key == m.key && er.isNil()
					}
					if !ok {
						fail("its result returned", p, e, "(%s, %s) is returned", short(r), short(er))
					}
					return
				}
				if !r.isNil() && !p.KnownNil(r) {
					fail("its result returned", p, e, "%s is returned without its constructor", short(r))
				}
				blank := p.IsTrue(eq(ps[1], tStr("")))
				switch {
				case wrapsSentinel(er, s.blank):
					if !blank {
						fail("blank name refused", p, e, "a name that is not blank is refused as blank")
					}
				case wrapsSentinel(er, s.unknown):
					if !p.Has("has-") {
						fail("unknown name refused", p, e, "a name that may be registered is refused as unknown")
					}
					if !p.IsFalse(eq(ps[1], tStr(""))) {
						fail("blank name refused", p, e, "a blank name may be refused as unknown")
					}
				case s.refuse != nil && s.refuse(p, e, er):
				default:
					fail("unknown name refused", p, e, "the refusal is %s, not one of the documented errors", short(er))
				}
			case "panic":
				fail("registered constructor called", p, e, "creating panics")
			}
		}
		c.Explore(x, func(p *Path, q []*Term) { ps = q })
	}
	// registering
	if f := c.NeedM(s.rel, s.typ, s.register); f != nil {
		c.Oblige("Register: exactly the given name and constructor")
		x := newEngine(c.P, f)
		var ps []*Term
		fail := func(p *Path, e *Event, f2 string, a ...any) {
			c.Fail("Register: exactly the given name and constructor", e.Pos(), p.Trace(), f2, a...)
		}
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "mapupdate":
				if !e.Addr.isLoadOf(tf) || e.Args[1].key != ps[1].key || e.Args[2].key != ps[2].key || p.Has("put") {
					fail(p, e, "%s[%s] = %s", short(e.Addr), short(e.Args[1]), short(e.Args[2]))
				}
				p.Set("put")
			case "delete", "clear":
				fail(p, e, "entries are removed")
			case "return":
				if !p.Has("put") {
					fail(p, e, "the constructor is not registered")
				}
			}
		}
		c.Explore(x, func(p *Path, q []*Term) { ps = q })
	}
	// the registries handed out
	var want []string
	for n := range s.defaults {
		want = append(want, n)
	}
	for n := range s.made {
		want = append(want, n)
	}
	sort.Strings(want)
	for _, cn := range []string{s.ctor, s.empty} {
		f := c.NeedF(s.rel, cn)
		if f == nil {
			continue
		}
		key := cn + ": table"
		c.Oblige(key)
		t := &tableFill{fns: map[string]*Term{}}
		t.fail = func(p *Path, e *Event, f2 string, a ...any) { c.Fail(key, e.Pos(), p.Trace(), f2, a...) }
		x := newEngine(c.P, f)
		names := want
		if cn == s.empty {
			names = nil
		}
		x.OnEvent = func(p *Path, e *Event) {
			t.on(p, e)
			if e.Kind != "return" || p.Has("skip") {
				return
			}
			m := x.fieldByName(p, e.Args[0].unbox(), s.table)
			if m == nil || m.op != "makemap" && !m.isCall("maps.Clone") {
				t.fail(p, e, "the registry's table is %s, not a table of its own", short(m))
				return
			}
			have := t.names(p, m.key)
			for _, n := range names {
				if !have[n] {
					t.fail(p, e, "%q is not registered", n)
				}
			}
			for n := range have {
				found := false
				for _, w := range names {
					found = found || w == n
				}
				if !found && cn == s.empty {
					t.fail(p, e, "%q is registered in the empty registry", n)
				}
			}
		}
		c.Explore(x, nil)
		if cn != s.ctor {
			continue
		}
		for _, n := range want {
			k := cn + ": constructor of " + n
			c.Oblige(k)
			fn := t.fns[n]
			if fn == nil || fn.unbox().fn == nil {
				c.Fail(k, f.Pos(), "", "no constructor is known")
				continue
			}
			g := fn.unbox().fn
			y := newEngine(c.P, g)
			if s.made[n] != "" {
				y.NoInline = func(h *ssa.Function) bool { return calleeName(h) == s.made[n] }
			}
			y.OnEvent = func(p *Path, e *Event) {
				if e.Kind != "return" {
					return
				}
				r := e.Args[0]
				if m := s.made[n]; m != "" {
					if !r.any(func(u *Term) bool { return u.isCall(m) && len(u.callArgs()) > 0 && u.callArgs()[0].key == "param:p0" }) {
						if len(e.Args) < 2 || !p.KnownNonNil(e.Args[1]) {
							c.Fail(k, e.Pos(), p.Trace(), "%q makes %s", n, short(r))
						}
					}
					return
				}
				u := r.unbox()
				if r.op != "iface" || r.name != s.defaults[n] || u.op != "alloc" {
					c.Fail(k, e.Pos(), p.Trace(), "%q makes %s", n, short(r))
				}
				if len(e.Args) > 1 && !e.Args[1].isNil() {
					c.Fail(k, e.Pos(), p.Trace(), "%q fails with %s", n, short(e.Args[1]))
				}
			}
			c.Explore(y, nil)
		}
	}
	// the package-level shortcut uses a fresh default registry
	if f := c.NeedF(s.rel, s.top); f != nil {
		c.Oblige(s.top + " (package): default registry")
		x := newEngine(c.P, f)
		cr := s.rel + ".(*" + s.typ + ")." + s.create
		ct := s.rel + "." + s.ctor
		x.NoInline = func(g *ssa.Function) bool { n := calleeName(g); return n == cr || n == ct }
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind != "return" {
				return
			}
			ok := len(e.Args) == 2
			for i, r := range e.Args {
				ok = ok && isExt(r, i) && r.isCall(cr)
				if !ok {
					break
				}
				a := r.callArgs()
				ok = a[0].isCall(ct)
				for j := range f.Params {
					ok = ok && j+1 < len(a) && a[j+1].key == "param:p"+decStr(int64(j))
				}
			}
			if !ok {
				c.Fail(s.top+" (package): default registry", e.Pos(), p.Trace(), "(%s) is returned", termList(e.Args))
			}
		}
		c.Explore(x, nil)
	}
}

func termList(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, short(t))
	}
	return strings.Join(s, ", ")
}
