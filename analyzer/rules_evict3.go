package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "V04", Level: "proof", Run: runV04, MinObl: 20,
		Explain: "All paths of the sharded algorithm and of its constructor, of the registry of algorithms, and of every registered constructor.",
		Assume:  []string{"there are fewer than 2^32 shards", "the algorithm made by name for a shard works as that algorithm should"}})
}

func runV04(c *Ctx) {
	const typ = "Sharded"
	shards, mask := typ+".shards", typ+".mask"
	hash := c.NeedF(relCmap, "Hash")
	if hash == nil {
		return
	}
	noHash := func(f *ssa.Function) bool { return f == hash }
	// the shard of a key: a function of the key and the mask only
	form := ""
	onKey := func(name string) {
		f := c.NeedM(relEvict, typ, name)
		if f == nil {
			return
		}
		k := typ + "." + name + ": exactly one call, of the same method of the key's shard, and its answer"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.NoInline = noHash
		key := rootParam(f, 1)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			switch e.Kind {
			case "call":
				if !isAlgorithmCall(e.Name) {
					return
				}
				if p.Has("called") {
					fail("the shard is called twice")
				}
				p.Set("called")
				if e.Res != nil {
					p.Vars["r"] = e.Res
				}
				if e.Name != relEvict+".IAlgorithm."+name {
					fail("another method of the shard is called")
				}
				s, ix, ok := elemOf(e.Args[0])
				if !ok || !s.isLoadOf(shards) {
					fail("something else than a shard is called")
					return
				}
				bounded := ix.op == "bin" && ix.name == "&" && (ix.args[0].isLoadOf(mask) || ix.args[1].isLoadOf(mask)) ||
					ix.op == "bin" && ix.name == "%" && ix.args[1].op == "len"
				if !bounded {
					fail("the number of the shard may not be that of a shard")
				}
				pure := true
				ix.any(func(u *Term) bool {
					switch u.op {
					case "call", "iv", "ivp", "out", "load":
						if !u.isCall(calleeName(hash)) && !u.isLoadOf(mask) && !u.isLoadOf(shards) {
							pure = false
						}
					}
					return false
				})
				if !pure || !ix.contains(key) {
					fail("the shard does not follow from the key alone")
				}
				n := withoutSites(ix)
				if form == "" {
					form = n
				} else if form != n {
					fail("the shard is not the one the other methods take")
				}
				for i, a := range e.Args[1:] {
					if a.key != rootParam(f, i+1).key {
						fail("the shard is not given what was passed")
					}
				}
			case "return":
				if !p.Has("called") {
					fail("no shard is called")
					return
				}
				for i, a := range e.Args {
					if r := resAt(p.Vars["r"], i); r == nil || a.key != r.key {
						fail("the answer is not the shard's")
					}
				}
			}
		}
		c.Explore(x, nil)
	}
	for _, n := range []string{"Set", "Get", "Delete"} {
		onKey(n)
	}
	if f := c.NeedM(relEvict, typ, "Evict"); f != nil {
		const (
			k  = "Sharded.Evict: every shard is tried once until one gives a key"
			kr = "Sharded.Evict: the key the shard gave, or nothing when none had any"
		)
		c.Oblige(k)
		c.Oblige(kr)
		x := newEngine(c.P, f)
		x.NoInline = noHash
		turn := &counted{tag: "t", over: func(p *Path, n *Term) bool {
			n = stripConv(turnsOf(n))
			if n.op == "ext" && n.idx == 0 {
				if m := n.args[0]; m.isCall("github.com/hyp3rd/sectools/pkg/converters.ToUint32") {
					n = m.callArgs()[0]
				}
			}
			return n.op == "len" && n.args[0].isLoadOf(shards)
		}, end: func(p *Path, e *Event) {
			if !p.Has("t/tried") {
				c.Fail(k, e.Pos(), p.Trace(), "a shard is passed over")
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			if turn.step(p, e) {
				return
			}
			switch e.Kind {
			case "branch":
				if isCmp(e.Val, "==") && e.Val.args[1].isNil() && e.Val.args[0].isCall("github.com/hyp3rd/sectools/pkg/converters.ToUint32") && !e.Truth {
					p.Dead = true
				}
			case "call":
				if !isAlgorithmCall(e.Name) {
					return
				}
				if e.Name != relEvict+".IAlgorithm.Evict" {
					fail(k, "another method of a shard is called")
				}
				if !p.Has("t") || p.Has("t/tried") {
					fail(k, "a shard is tried out of its turn")
				}
				p.Set("t/tried")
				s, ix, ok := elemOf(e.Args[0])
				if !ok || !s.isLoadOf(shards) {
					fail(k, "something else than a shard is tried")
					return
				}
				p.Vars["r"] = e.Res
				if !visitsAll(stripConv(ix), mask, shards) {
					fail(k, "the turns do not go through the shards")
				}
			case "return":
				splitBool(Outcome{Path: p}, e.Args[1], func(q *Path, found bool) {
					r := q.Vars["r"]
					if found {
						if r == nil || e.Args[0].key != resAt(r, 0).key || q.Decide(resAt(r, 1)) != yes {
							fail(kr, "the key is not one a shard gave")
						}
						return
					}
					if !q.Has("t.all") {
						fail(kr, "it gives up before every shard was tried")
					}
				})
			}
		}
		// the answer has to be seen before the next turn
		prev := x.OnEvent
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "advance" && e.Truth && p.Vars["r"] != nil && p.Decide(resAt(p.Vars["r"], 1)) != no {
				c.Fail(kr, e.Pos(), p.Trace(), "a key a shard gave is forgotten")
			}
			if e.Kind == "advance" {
				delete(p.Vars, "r")
			}
			prev(p, e)
		}
		c.Explore(x, nil)
	}
	if f := c.NeedF(relEvict, "NewSharded"); f != nil {
		const (
			kp = "NewSharded: a positive power of two of shards, or an error"
			ks = "NewSharded: every shard is made by the name given, with its part of the capacity rounded up"
			km = "NewSharded: the mask is one less than the number of shards"
		)
		c.Oblige(kp)
		c.Oblige(ks)
		c.Oblige(km)
		nm, total, n := rootParam(f, 0), rootParam(f, 1), rootParam(f, 2)
		top := relEvict + ".NewEvictionAlgorithm"
		x := newEngine(c.P, f)
		x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == top }
		turn := &counted{tag: "t", over: func(p *Path, m *Term) bool {
			m = turnsOf(m)
			return stripConv(m).key == n.key || m.op == "len" && m.args[0].op == "makeslice" && m.args[0].attr[0].key == n.key
		}, end: func(p *Path, e *Event) {
			if !p.Has("t/kept") {
				c.Fail(ks, e.Pos(), p.Trace(), "a shard is not made or not kept")
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			if turn.step(p, e) {
				return
			}
			switch e.Kind {
			case "branch":
				v, truth := e.Val, e.Truth
				for v.op == "not" {
					v, truth = v.args[0], !truth
				}
				if isCmp(v, "==") && truth {
					for i := 0; i < 2; i++ {
						b := stripConv(v.args[i])
						if !isZeroInt(v.args[1-i]) || b.op != "bin" || b.name != "&" {
							continue
						}
						for j := 0; j < 2; j++ {
							if b.args[j].key == n.key && linSame(b.args[1-j], linSub(n, tInt(1))) {
								p.Set("pow2")
							}
						}
					}
				}
				if isCmp(v, "==") && !truth {
					for i := 0; i < 2; i++ {
						if b := v.args[i]; isZeroInt(v.args[1-i]) && b.op == "bin" && b.name == "&" && b.contains(n) {
							p.Set("odd")
						}
					}
				}
			case "call":
				if e.Name != top {
					return
				}
				if !p.Has("t") || p.Has("t/made") {
					fail(ks, "a shard is made out of its turn")
				}
				p.Set("t/made")
				p.Vars["made"] = e.Res
				if e.Args[0].key != nm.key {
					fail(ks, "a shard is made by another name")
				}
				if !isCeil(p, e.Args[1], total, n) {
					fail(ks, "the capacity of a shard is not its part of the whole, rounded up")
				}
			case "store":
				if e.Addr.op == "idx" && e.Addr.args[0].op == "makeslice" {
					if !isIv(e.Addr.args[1]) || !e.Val.unbox().isCall(top) {
						fail(ks, "a shard is kept in the wrong place")
					}
					if p.Has("t") {
						p.Set("t/kept")
					}
				}
			case "return":
				er := e.Args[1]
				if !p.KnownNil(er) {
					switch {
					case p.Decide(lt(tInt(0), n)) == no || p.Has("odd"):
						if !wrapsSentinel(er, "internal/sentinel.ErrInvalidCapacity") {
							fail(kp, "the error does not say that the number is invalid")
						}
					case p.Decide(lt(total, tInt(0))) == yes:
					case p.Vars["made"] != nil && p.KnownNonNil(resAt(p.Vars["made"], 1)):
						if !carries(er, resAt(p.Vars["made"], 1)) {
							fail(ks, "the error does not say why a shard could not be made")
						}
					case er.any(func(u *Term) bool { return u.isCall("github.com/hyp3rd/sectools/pkg/converters.ToUint32") }):
					default:
						fail(kp, "a good number of shards is refused")
					}
					return
				}
				if p.Decide(lt(tInt(0), n)) != yes || !p.Has("pow2") {
					fail(kp, "the number of shards may not be a positive power of two")
				}
				if !p.Has("t.all") {
					fail(ks, "not every shard is made")
				}
				s := p.x.fieldByName(p, e.Args[0], "shards")
				if s == nil || s.op != "makeslice" || s.attr[0].key != n.key {
					fail(ks, "there are not as many shards as asked for")
				}
				m := p.x.fieldByName(p, e.Args[0], "mask")
				if m != nil {
					m = stripConv(m)
					if m.isCall("github.com/hyp3rd/sectools/pkg/converters.ToUint32") {
						m = m.callArgs()[0]
					}
				}
				if m == nil || !linSame(m, linSub(n, tInt(1))) {
					fail(km, "the mask is another number")
				}
			}
		}
		c.Explore(x, nil)
	}
	c.frozen(relEvict, typ, func(f *ssa.Function) bool { return f.Name() == "NewSharded" }, nil, map[string]bool{typ + ".evictCursor": true}, nil)
	var capTerm *Term
	if g := c.P.method(relEvict, "AlgorithmRegistry", "NewAlgorithm"); g != nil {
		capTerm = rootParam(g, 2)
	}
	c.registryRules(registrySpec{
		rel: relEvict, typ: "AlgorithmRegistry", table: "algorithms", create: "NewAlgorithm", top: "NewEvictionAlgorithm",
		ctor: "NewAlgorithmRegistry", empty: "NewEmptyAlgorithmRegistry", register: "Register",
		unknown: "internal/sentinel.ErrAlgorithmNotFound", blank: "internal/sentinel.ErrParamCannotBeEmpty",
		refuse: func(p *Path, e *Event, er *Term) bool {
			return wrapsSentinel(er, "internal/sentinel.ErrInvalidCapacity") && capTerm != nil && p.Decide(lt(capTerm, tInt(0))) == yes
		},
		defaults: map[string]string{"lru": "", "clock": "", "lfu": "", "cawolfu": ""},
		made: map[string]string{"lru": relEvict + ".NewLRUAlgorithm", "clock": relEvict + ".NewClockAlgorithm",
			"lfu": relEvict + ".NewLFUAlgorithm", "cawolfu": relEvict + ".NewCAWOLFU"},
	})
}

func isAlgorithmCall(name string) bool {
	const pre = relEvict + ".IAlgorithm."
	return len(name) > len(pre) && name[:len(pre)] == pre
}

// withoutSites is a term's key, with every call named by what it calls only.
func withoutSites(t *Term) string {
	s := t.op + ":" + t.name
	if t.op == "call" {
		for _, a := range t.callArgs() {
			s += "," + withoutSites(a)
		}
		return s + ";"
	}
	s += "("
	for _, a := range t.args {
		s += withoutSites(a) + ","
	}
	return s + ")"
}

// visitsAll: with the loop's counter going through the numbers of the shards,
// so does ix.
func visitsAll(ix *Term, mask, shards string) bool {
	if isIv(ix) {
		return true
	}
	if ix.op != "bin" {
		return false
	}
	var e *Term
	switch {
	case ix.name == "&" && ix.args[0].isLoadOf(mask):
		e = ix.args[1]
	case ix.name == "&" && ix.args[1].isLoadOf(mask):
		e = ix.args[0]
	case ix.name == "%" && ix.args[1].op == "len" && ix.args[1].args[0].isLoadOf(shards):
		e = ix.args[0]
	default:
		return false
	}
	m, _ := linear(stripConv(e))
	n, ivs := 0, 0
	e.any(func(u *Term) bool {
		if isIv(u) {
			ivs++
			if m[u.key] == 1 {
				n++
			}
		}
		return false
	})
	return ivs == 1 && n == 1
}

// isCeil: v is total/n, rounded up.
func isCeil(p *Path, v, total, n *Term) bool {
	div := func(v *Term) *Term {
		if v.op == "bin" && v.name == "/" && v.args[1].key == n.key {
			return v.args[0]
		}
		return nil
	}
	one := tInt(1)
	if d := div(v); d != nil {
		sum := mk(&Term{op: "bin", name: "+", args: []*Term{total, n}, typ: total.typ})
		if linSame(d, linSub(sum, one)) {
			return true
		}
		rem := mk(&Term{op: "bin", name: "%", args: []*Term{total, n}, typ: total.typ})
		return d.key == total.key && p.Decide(mkEq(rem, tInt(0))) == yes
	}
	if isPlusOne(v, func(t *Term) bool { d := div(t); return d != nil && d.key == total.key }) {
		rem := mk(&Term{op: "bin", name: "%", args: []*Term{total, n}, typ: total.typ})
		return p.Decide(mkEq(rem, tInt(0))) == no || p.Decide(lt(tInt(0), rem)) == yes
	}
	return false
}

// turnsOf drops a start at zero from a count of turns.
func turnsOf(n *Term) *Term {
	if n.op == "bin" && n.name == "-" && isZeroInt(n.args[1]) {
		return n.args[0]
	}
	return n
}
