package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "X04", Level: "proof", MinObl: 12, Run: runX04,
		Explain: "All paths of the eviction pass (the job handed to the worker pool), of changing the capacity and of triggering an eviction by hand: every single eviction follows a fresh comparison of count and capacity and of the number evicted with the limit per pass, the key evicted is removed, a pass ends for a documented reason only, and a smaller capacity is followed by a pass."})
	register(&Property{ID: "X05", Level: "proof", MinObl: 10, Run: runX05,
		Explain: "All paths of the expiration pass and of its trigger: the pass lists exactly the expired items (its filter is checked against the definition of expiry) and removes each; a trigger is sent without blocking unless one is pending or the debounce interval has not passed; and the loop that receives triggers clears the pending flag after the last one received and before the pass that serves it."})
	register(&Property{ID: "X06", Level: "proof", MinObl: 8, Run: runX06,
		Explain: "All paths of Stop and of every background loop: Stop signals without blocking, cancels, shuts the worker pool and the management server down and reports its failure; a loop ends on either signal, never works after it, and serves each tick and trigger with the pass it stands for before it waits again."})
}

const enqName = ".(*WorkerPool).Enqueue"
const hcRemove = ".(*" + hcType + ").Remove"

// passes finds the jobs handed to the worker pool, by what they reach.
func (c *Ctx) passes() (evict, expire map[*ssa.Function]bool) {
	evict, expire = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	isJob := func(f *ssa.Function) bool {
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Universe.Lookup("error").Type())
	}
	add := func(f *ssa.Function) {
		if f == nil || !isJob(f) || len(f.Blocks) == 0 {
			return
		}
		switch {
		case c.reaches(f, "Evict"):
			evict[f] = true
		case c.reaches(f, "List"):
			expire[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		if f.Origin() != nil && f.Origin() != f || fnPkgPath(f) != strings.TrimSuffix(modPath+"/", "/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					case *ssa.Function:
						if v.Parent() != nil {
							add(v)
						}
					}
				}
			}
		}
	}
	return
}

// reaches: a call of an interface method m of the backend or the eviction
// algorithm can be reached from f by static calls.
func (c *Ctx) reaches(f *ssa.Function, m string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k := ci.Common()
				if k.IsInvoke() {
					t := typeStr(k.Value.Type())
					if k.Method.Name() == m && (strings.Contains(t, "IBackend") || strings.Contains(t, "IAlgorithm")) {
						return true
					}
					continue
				}
				g := k.StaticCallee()
				if g != nil && g.Origin() != nil && len(g.Blocks) == 0 {
					g = g.Origin()
				}
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

func opaqueJobs(g *ssa.Function) bool {
	switch calleeName(g) {
	case enqName, hcRemove, "pkg/backend.WithFilterFunc", "pkg/backend.WithSortBy", "pkg/backend.WithSortOrderAsc":
		return true
	}
	return false
}

// isJobOf: t is one of the jobs.
func isJobOf(t *Term, jobs map[*ssa.Function]bool) bool {
	t = t.unbox()
	return (t.op == "closure" || t.op == "fn") && t.fn != nil && jobs[t.fn]
}

func runX04(c *Ctx) {
	evict, _ := c.passes()
	c.Check("eviction pass found", len(evict) > 0, 0, "no job evicts")
	for _, f := range c.P.Funcs {
		if evict[f] {
			c.evictPass(f)
		}
	}
	for f := range evict {
		if f.Synthetic != "" {
			c.evictPass(f)
		}
	}
	c.setCapacity(evict)
	if f := c.NeedM("", hcType, "TriggerEviction"); f != nil {
		k := "TriggerEviction: one trigger, never waiting"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
			isCh := func(t *Term) bool { return t.isLoadOf(hcType + ".evictCh") }
			switch e.Kind {
			case "send":
				if e.Blocking || !isCh(e.Addr) || p.Has("done") {
					fail("it sends on %s", short(e.Addr))
				}
				p.Set("done")
			case "seldefault":
				if len(e.Args) == 1 && isCh(e.Args[0]) {
					p.Set("done")
				}
			case "recv", "go", "close", "panic":
				fail("it does a %s", e.Kind)
			case "branch":
				if e.Val.op == "bin" && e.Val.name == "==" && e.Truth && (isCh(e.Val.args[0]) && e.Val.args[1].isNil() || isCh(e.Val.args[1]) && e.Val.args[0].isNil()) {
					p.Set("done")
				}
			case "return":
				if !p.Has("done") {
					fail("it returns without a trigger")
				}
			}
		}
		c.Explore(x, nil)
	}
}

// evictPass: one pass of evictions.
func (c *Ctx) evictPass(f *ssa.Function) {
	kn, kc, kl, kr, ke, ko := "eviction pass: each eviction only while over capacity", "eviction pass: each key evicted is removed, and no other", "eviction pass: at most the limit per pass", "eviction pass: a pass ends for a reason only", "eviction pass: a failed removal is reported", "eviction pass: changes nothing else"
	for _, k := range []string{kn, kc, kl, kr, ke, ko} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = opaqueJobs
	over := func(p *Path) int {
		n, cp := p.Vars["count"], p.Vars["cap"]
		if n == nil || cp == nil {
			return unknown
		}
		return p.Decide(lt(cp, n))
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		if over(p) == no {
			p.Set("within")
		}
		switch e.Kind {
		case "go", "panic", "send", "close":
			fail(ko, "it does a %s", e.Kind)
		case "store":
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, hcType+".") {
				fail(ko, "it changes %s", e.Addr.name)
			}
		case "branch":
			v, truth := e.Val, e.Truth
			if v.op != "bin" || len(v.args) != 2 {
				return
			}
			isMax := func(t *Term) bool { return t.isLoadOf(hcType + ".maxEvictionCount") }
			a, b := v.args[0], v.args[1]
			var iv *Term
			switch {
			case v.name == "==" && (isMax(a) && isIv(b) || isMax(b) && isIv(a)):
				iv = a
				if isMax(a) {
					iv = b
				}
				truth = !truth
			case v.name == "<" && isIv(a) && isMax(b):
				iv = a
			case v.name == "<=" && isMax(a) && isIv(b):
				iv, truth = b, !truth
			default:
				return
			}
			p.Vars["iv"] = iv
			if truth {
				p.Set("under")
			} else {
				p.Set("reached")
			}
		case "advance":
			if v := p.Vars["iv"]; v != nil && e.Truth && e.Addr.key == v.key {
				p.Clear("turn")
				p.Clear("under")
			}
		case "precall":
			switch op := cacheOp(e); op {
			case "e.Evict":
				if over(p) != yes || !p.Has("fresh") {
					fail(kn, "it evicts without the count being known to be over capacity")
				}
				if !p.Has("under") || p.Has("turn") {
					fail(kl, "it evicts without the number evicted being known to be under the limit")
				}
				if p.Has("victim") {
					fail(kc, "it evicts another key before the last one is removed")
				}
				if p.Has("none") {
					fail(kr, "it goes on although there is nothing left to evict")
				}
				p.Set("turn")
			case "b.Count", "b.Capacity", "":
			default:
				fail(ko, "it calls %s", e.Name)
			}
			if e.Name == enqName {
				fail(ko, "it enqueues a job")
			}
			if e.Name == hcRemove {
				v, got := p.Vars["victim"], p.Vars["got"]
				if v == nil || !p.Has("victim") || got == nil || p.Decide(got) != yes || !oneKey(e.Args[2], v) {
					fail(kc, "it removes %s", short(e.Args[2]))
				}
				p.Clear("victim")
				p.Clear("fresh")
				p.Clear("within")
			}
		case "call":
			switch cacheOp(e) {
			case "b.Count":
				p.Vars["count"] = e.Res
				p.Set("fresh")
			case "b.Capacity":
				p.Vars["cap"] = e.Res
			case "e.Evict":
				p.Vars["victim"], p.Vars["got"] = resAt(e.Res, 0), resAt(e.Res, 1)
				p.Set("victim")
			}
			if e.Name == hcRemove {
				p.Vars["rerr"] = e.Res
			}
		case "return":
			er := e.Args[0]
			if r := p.Vars["rerr"]; r != nil && p.Decide(mkEq(r, tNil)) != yes {
				if !carries(er, r) {
					fail(ke, "it returns %s although a removal may have failed", short(er))
				}
				return
			}
			if p.Has("victim") && p.Decide(p.Vars["got"]) != no {
				fail(kc, "the key evicted is not removed")
			}
			if !p.Has("within") && !p.Has("reached") && !p.Has("none") {
				fail(kr, "it ends while over capacity")
			}
		}
		if g := p.Vars["got"]; g != nil && p.Has("victim") && p.Decide(g) == no {
			p.Set("none")
			p.Clear("victim")
		}
		if r := p.Vars["rerr"]; r != nil && e.Kind == "precall" && cacheOp(e) == "e.Evict" && p.Decide(mkEq(r, tNil)) != yes {
			fail(ke, "it goes on although a removal may have failed")
		}
	}
	c.Explore(x, nil)
}

// storesShould: what is stored in shouldEvict says whether evictions are to be
// immediate: no interval, and a capacity to keep to.
func (c *Ctx) storesShould(x *Engine, p *Path, e *Event, self *Term, fresh bool, fail func(m string, a ...any)) bool {
	if e.Kind != "precall" || !strings.HasPrefix(e.Name, "sync/atomic.(*Bool).") || !e.Args[0].isFieldAddr(hcType+".shouldEvict") || strings.HasSuffix(e.Name, ".Load") {
		return false
	}
	if strings.HasSuffix(e.Name, ".CompareAndSwap") {
		fail("it is changed conditionally")
		return true
	}
	if !fresh {
		fail("it is decided before what it depends on is set")
	}
	iv := x.fieldByName(p, self, "evictionInterval")
	cp := p.Vars["cap"]
	splitBool(Outcome{Path: p}, e.Args[1], func(p *Path, v bool) {
		noIv := p.Decide(mkEq(iv, tInt(0)))
		pos := unknown
		if cp != nil {
			pos = p.Decide(lt(tInt(0), cp))
		}
		if v && (noIv != yes || pos != yes) {
			fail("evictions are immediate although there may be an interval or no capacity")
		}
		if !v && noIv != no && pos != no {
			fail("evictions are not immediate although there may be no interval and a capacity")
		}
	})
	return true
}

func (c *Ctx) setCapacity(evict map[*ssa.Function]bool) {
	f := c.NeedM("", hcType, "SetCapacity")
	if f == nil {
		return
	}
	kb, ks, kp := "SetCapacity: the backend's capacity is set to it, once", "SetCapacity: decides anew whether evictions are immediate", "SetCapacity: a pass follows when the cache is over its capacity"
	for _, k := range []string{kb, ks, kp} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = opaqueJobs
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		if c.storesShould(x, p, e, rootParam(f, 0), p.Has("set"), func(m string, a ...any) { fail(ks, m, a...) }) {
			p.Set("should")
		}
		switch e.Kind {
		case "go", "panic", "send":
			fail(kb, "it does a %s", e.Kind)
		case "precall":
			switch op := cacheOp(e); op {
			case "b.SetCapacity":
				if p.Has("set") || e.Args[1].key != rootParam(f, 2).key {
					fail(kb, "it is set to %s", short(e.Args[1]))
				}
				p.Set("set")
			case "b.Count", "b.Capacity", "":
			default:
				fail(kb, "it calls %s", e.Name)
			}
			if e.Name == enqName {
				if !isJobOf(e.Args[1], evict) || p.Has("pass") {
					fail(kp, "it enqueues %s", short(e.Args[1]))
				}
				if !p.Has("set") {
					fail(kp, "the pass starts before the capacity is set")
				}
				p.Set("pass")
			}
		case "call":
			switch cacheOp(e) {
			case "b.Count":
				p.Vars["count"] = e.Res
			case "b.Capacity":
				if p.Has("set") {
					p.Vars["cap"] = e.Res
				}
			}
		case "return":
			if !p.Has("set") {
				fail(kb, "it is not set")
			}
			if !p.Has("should") {
				fail(ks, "it is not decided")
			}
			if n, cp := p.Vars["count"], p.Vars["cap"]; !p.Has("pass") && (n == nil || cp == nil || p.Decide(lt(cp, n)) != no) {
				fail(kp, "it returns without a pass")
			}
		}
	}
	c.Explore(x, nil)
}

func runX05(c *Ctx) {
	_, expire := c.passes()
	c.Check("expiration pass found", len(expire) > 0, 0, "no job expires")
	done := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if expire[f] {
			done[f] = true
			c.expirePass(f)
		}
	}
	for f := range expire {
		if !done[f] {
			c.expirePass(f)
		}
	}
	c.expireTrigger()
	c.loops(func(f *ssa.Function) { c.triggerLoop(f, expire) })
}

func (c *Ctx) expirePass(f *ssa.Function) {
	kl, kf, kr, ke, ko := "expiration pass: lists the items once", "expiration pass: exactly the expired items", "expiration pass: each is removed", "expiration pass: failures are reported", "expiration pass: changes nothing else"
	for _, k := range []string{kl, kf, kr, ke, ko} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = opaqueJobs
	filters := map[*ssa.Function]bool{}
	tr := &turns{tag: "t", over: func(p *Path, s *Term) bool { return p.Vars["list"] != nil && s.key == p.Vars["list"].key }, end: func(p *Path, e *Event) {
		if !p.Has("t/gone") {
			c.Fail(kr, e.Pos(), p.Trace(), "an expired item is not removed")
		}
	}}
	isItem := func(p *Path, t *Term) bool {
		s, ix, ok := elemOf(t)
		return ok && p.Vars["list"] != nil && s.key == p.Vars["list"].key && p.Vars["t"] != nil && ix.key == p.Vars["t"].key
	}
	known := func(p *Path, v string) int {
		if p.Vars[v] == nil {
			return yes
		}
		return p.Decide(mkEq(p.Vars[v], tNil))
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		tr.step(p, e)
		switch e.Kind {
		case "go", "panic", "send", "close":
			fail(ko, "it does a %s", e.Kind)
		case "store":
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, hcType+".") {
				fail(ko, "it changes %s", e.Addr.name)
			}
		case "precall":
			if known(p, "rerr") != yes && (e.Name == hcRemove || cacheOp(e) == "p.Put") {
				fail(ke, "it goes on although a removal may have failed")
			}
			switch op := cacheOp(e); op {
			case "b.List":
				if p.Has("listed") {
					fail(kl, "it lists them twice")
				}
				p.Set("listed")
				fs := e.Args[len(e.Args)-1]
				if fs.op != "list" {
					fail(kf, "the filters are %s", short(fs))
					return
				}
				n := 0
				for _, t := range fs.args {
					t = t.unbox()
					if t.isCall("pkg/backend.WithSortBy") || t.isCall("pkg/backend.WithSortOrderAsc") {
						continue
					}
					if !t.isCall("pkg/backend.WithFilterFunc") {
						fail(kf, "the list is filtered by %s", short(t))
						continue
					}
					g := t.callArgs()[0].unbox()
					if g.op != "fn" && g.op != "closure" || g.fn == nil {
						fail(kf, "the filter is %s", short(g))
						continue
					}
					n++
					filters[g.fn] = true
				}
				if n != 1 {
					fail(kf, "%d filters", n)
				}
			case "b.Count", "b.Capacity", "":
			case "p.Put":
				if !isItem(p, e.Args[1]) || !p.Has("t/gone") || p.Has("t/pooled") {
					fail(ko, "%s is given to the pool", short(e.Args[1]))
				}
				p.Set("t/pooled")
			default:
				fail(ko, "it calls %s", e.Name)
			}
			if e.Name == enqName {
				fail(ko, "it enqueues a job")
			}
			if e.Name == hcRemove {
				ks := e.Args[2]
				ok := ks.op == "list" && len(ks.args) == 1
				if ok {
					k := ks.args[0].unbox()
					ok = k.isLoadOf("Item.Key") && isItem(p, loadBase(k))
				}
				if !ok || p.Has("t/pooled") {
					fail(kr, "it removes %s", short(ks))
				}
				p.Set("t/gone")
			}
		case "call":
			if cacheOp(e) == "b.List" {
				p.Vars["list"], p.Vars["lerr"] = resAt(e.Res, 0), resAt(e.Res, 1)
			}
			if e.Name == hcRemove {
				p.Vars["rerr"] = e.Res
			}
		case "return":
			er := e.Args[0]
			for _, v := range []string{"lerr", "rerr"} {
				if known(p, v) != yes {
					if !carries(er, p.Vars[v]) {
						fail(ke, "it returns %s although something may have failed", short(er))
					}
					return
				}
			}
			if !p.Has("listed") {
				fail(kl, "it returns without listing them")
			}
			if !p.Has("t.all") {
				fail(kr, "it returns before all are removed")
			}
		}
	}
	c.Explore(x, nil)
	for g := range filters {
		c.expiryRule(kf, g, rootParam(g, len(g.Params)-1))
	}
}

const pendName = hcType + ".expirationSignalPending"

func (c *Ctx) expireTrigger() {
	f := c.NeedM("", hcType, "TriggerExpiration")
	if f == nil {
		return
	}
	kd, kp, ks, kt := "trigger: dropped only within the debounce interval, while one is pending or when the channel is full", "trigger: sent only by the one that set the pending flag", "trigger: sent once, never waiting", "trigger: the debounce interval counts from the last one sent"
	for _, k := range []string{kd, kp, ks, kt} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	self := rootParam(f, 0)
	isCh := func(t *Term) bool { return t.isLoadOf(hcType + ".expirationTriggerCh") }
	isPend := func(e *Event, m string) bool {
		return e.Name == "sync/atomic.(*Bool)."+m && e.Args[0].isFieldAddr(pendName)
	}
	mine := func(p *Path) bool { // this trigger set the flag
		s, w := p.Vars["swap"], p.Vars["cas"]
		return s != nil && p.Decide(s) == no || w != nil && p.Decide(w) == yes
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		switch e.Kind {
		case "go", "panic", "recv", "close":
			fail(ks, "it does a %s", e.Kind)
		case "send":
			if e.Blocking || !isCh(e.Addr) || p.Has("sent") {
				fail(ks, "it sends on %s", short(e.Addr))
			}
			if !mine(p) {
				fail(kp, "it sends without having set the flag")
			}
			p.Set("sent")
		case "seldefault":
			if len(e.Args) == 1 && isCh(e.Args[0]) {
				p.Set("full")
			}
		case "precall":
			switch {
			case isPend(e, "Store"):
				fail(kp, "it overwrites the flag")
			case isPend(e, "Swap"):
				if !p.IsTrue(e.Args[1]) || p.Has("flagged") {
					fail(kp, "it sets the flag to %s", short(e.Args[1]))
				}
				p.Set("flagged")
			case isPend(e, "CompareAndSwap"):
				if !p.IsFalse(e.Args[1]) || !p.IsTrue(e.Args[2]) || p.Has("flagged") {
					fail(kp, "it sets the flag to %s", short(e.Args[2]))
				}
				p.Set("flagged")
			}
			if n := e.Name; strings.HasPrefix(n, "sync/atomic.(*Int64).") && e.Args[0].isFieldAddr(hcType+".lastExpirationTrigger") && !strings.HasSuffix(n, "Load") {
				v := e.Args[1]
				ok := strings.HasSuffix(n, ".Store") && v.isCall("time.(Time).UnixNano") && v.callArgs()[0].isCall("time.Now") && p.Has("sent")
				if !ok {
					fail(kt, "it is set to %s", short(v))
				}
				p.Set("stamped")
			}
		case "call":
			switch {
			case isPend(e, "Swap"):
				p.Vars["swap"] = e.Res
			case isPend(e, "CompareAndSwap"):
				p.Vars["cas"] = e.Res
			case isPend(e, "Load"):
				p.Vars["pend"] = e.Res
			case e.Name == "sync/atomic.(*Int64).Load" && e.Args[0].isFieldAddr(hcType+".lastExpirationTrigger"):
				p.Vars["last"] = e.Res
			case e.Name == "time.Since":
				a := e.Args[0]
				if l := p.Vars["last"]; l != nil && a.isCall("time.Unix") && isZeroInt(a.callArgs()[0]) && a.callArgs()[1].key == l.key {
					p.Vars["age"] = e.Res
				}
			}
		case "branch":
			// noted as they are decided: what the terms stand for is soon forgotten
			d := x.fieldByName(p, self, "expirationDebounceInterval")
			if a := p.Vars["age"]; a != nil && p.Decide(lt(tInt(0), d)) == yes && p.Decide(lt(a, d)) == yes {
				p.Set("debounced")
			}
		case "return":
			s, w, l := p.Vars["swap"], p.Vars["cas"], p.Vars["pend"]
			pending := s != nil && p.Decide(s) == yes || w != nil && p.Decide(w) == no || l != nil && p.Decide(l) == yes
			switch {
			case p.Has("sent"):
				if !p.Has("stamped") {
					fail(kt, "a trigger is sent without being noted")
				}
			case p.Has("full") && mine(p), pending, p.Has("debounced") && !p.Has("flagged"):
			default:
				fail(kd, "a trigger is dropped")
			}
		}
	}
	c.Explore(x, nil)
}

// loops hands every background loop of the cache to g: the goroutines that
// hand jobs to the worker pool.
func (c *Ctx) loops(g func(f *ssa.Function)) {
	n := 0
	for _, f := range c.goRoots("") {
		if f.Origin() != nil && f.Origin() != f || !c.calls(f, enqName) {
			continue
		}
		n++
		g(f)
	}
	c.Check("background loops found", n > 0, 0, "no goroutine hands jobs to the worker pool")
}

// calls: f reaches a static call of the function named.
func (c *Ctx) calls(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inModule(f) {
			return false
		}
		seen[f] = true
		if calleeName(f) == name {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g != nil && g.Origin() != nil && len(g.Blocks) == 0 {
						g = g.Origin()
					}
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// triggerLoop: the loop f clears the pending flag after the last trigger it
// receives and before the pass that serves it.
func (c *Ctx) triggerLoop(f *ssa.Function, expire map[*ssa.Function]bool) {
	kc, ks := "loop: the pending flag is cleared after the last trigger received", "loop: a pass follows the clearing of the flag"
	c.Oblige(kc)
	c.Oblige(ks)
	x := newEngine(c.P, f)
	x.NoInline = opaqueJobs
	settle := func(p *Path, e *Event) {
		if p.Has("got") && !p.Has("cleared") {
			c.Fail(kc, e.Pos(), p.Trace(), "a trigger received leaves the flag set")
		}
		if p.Has("got") && !p.Has("pass") {
			c.Fail(ks, e.Pos(), p.Trace(), "a trigger received is not followed by a pass")
		}
		p.Clear("got")
		p.Clear("cleared")
		p.Clear("pass")
	}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "recv":
			if e.Blocking {
				settle(p, e)
			}
			if e.Addr.isLoadOf(hcType + ".expirationTriggerCh") {
				p.Set("got")
				p.Clear("cleared")
				p.Clear("pass")
			}
		case "precall":
			if strings.HasPrefix(e.Name, "sync/atomic.(*Bool).") && e.Args[0].isFieldAddr(pendName) && !strings.HasSuffix(e.Name, "Load") {
				if v := e.Args[len(e.Args)-1]; !p.IsFalse(v) {
					c.Fail(kc, e.Pos(), p.Trace(), "the loop sets the flag to %s", short(v))
				}
				p.Set("cleared")
				p.Clear("pass")
			}
			if e.Name == enqName && isJobOf(e.Args[1], expire) {
				p.Set("pass")
			}
		case "return":
			settle(p, e)
		}
	}
	c.Explore(x, nil)
}

func runX06(c *Ctx) {
	evict, expire := c.passes()
	if f := c.NeedM("", hcType, "Stop"); f != nil {
		ks, kc, kw, km, kr := "Stop: the stop signal never waits", "Stop: cancels the background context", "Stop: shuts the worker pool down once", "Stop: shuts the management server down", "Stop: its answer"
		for _, k := range []string{ks, kc, kw, km, kr} {
			c.Oblige(k)
		}
		x := newEngine(c.P, f)
		x.NoInline = func(g *ssa.Function) bool {
			n := calleeName(g)
			return n == ".(*WorkerPool).Shutdown" || n == ".(*ManagementHTTPServer).Shutdown"
		}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
			switch e.Kind {
			case "go", "panic", "close":
				fail(ks, "it does a %s", e.Kind)
			case "recv":
				if e.Blocking {
					fail(ks, "it waits on %s", short(e.Addr))
				}
			case "send":
				if e.Blocking || !e.Addr.isLoadOf(hcType+".stop") {
					fail(ks, "it sends on %s", short(e.Addr))
				}
			case "branch":
				if e.Truth && e.Val.op == "bin" && e.Val.name == "==" && e.Val.args[1].isNil() {
					switch a := e.Val.args[0]; {
					case a.isLoadOf(hcType + ".bgCancel"):
						p.Set("canceled")
					case a.isLoadOf(hcType + ".mgmtHTTP"):
						p.Set("mgmt")
					}
				}
			case "precall":
				switch {
				case e.Name == ".(*WorkerPool).Shutdown":
					if !e.Args[0].isLoadOf(hcType+".workerPool") || p.Has("shut") {
						fail(kw, "%s is shut down", short(e.Args[0]))
					}
					if !p.Has("canceled") {
						fail(kc, "the worker pool is shut down while loops may still hand it jobs")
					}
					p.Set("shut")
				case e.Name == ".(*ManagementHTTPServer).Shutdown":
					if !e.Args[0].isLoadOf(hcType+".mgmtHTTP") || p.Has("mgmt") {
						fail(km, "%s is shut down", short(e.Args[0]))
					}
					p.Set("mgmt")
				}
			case "call":
				if strings.HasPrefix(e.Name, "dyn:") && e.Addr != nil && e.Addr.isLoadOf(hcType+".bgCancel") {
					p.Set("canceled")
				}
				if e.Name == ".(*ManagementHTTPServer).Shutdown" {
					p.Vars["merr"] = e.Res
				}
			case "store":
				if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, hcType+".") {
					n := strings.TrimPrefix(e.Addr.name, hcType+".")
					switch {
					case n == "bgCancel" || n == "once":
					default:
						fail(kr, "it changes %s", n)
					}
				}
			case "return":
				if !p.Has("canceled") {
					fail(kc, "it returns without cancelling")
				}
				if !p.Has("shut") {
					fail(kw, "it returns without shutting the worker pool down")
				}
				if !p.Has("mgmt") {
					fail(km, "it returns without shutting the server down")
				}
				er := e.Args[0]
				if m := p.Vars["merr"]; m != nil && p.Decide(mkEq(m, tNil)) != yes {
					if !carries(er, m) {
						fail(kr, "the server's failure is answered with %s", short(er))
					}
				} else if !er.isNil() && !p.KnownNil(er) {
					fail(kr, "it answers %s", short(er))
				}
			}
		}
		c.Explore(x, nil)
	}
	c.loops(func(f *ssa.Function) {
		kq, kw, kt := "loop: ends on a stop signal and on cancellation", "loop: does nothing after it", "loop: serves each tick and trigger before it waits again"
		for _, k := range []string{kq, kw, kt} {
			c.Oblige(k)
		}
		x := newEngine(c.P, f)
		x.NoInline = opaqueJobs
		isDone := func(t *Term) bool { return t.isCall("context.Context.Done") }
		isStop := func(t *Term) bool { return t.isLoadOf(hcType + ".stop") }
		settle := func(p *Path, e *Event) {
			for _, w := range []string{"tick", "evict", "expire"} {
				if p.Has("want " + w) {
					c.Fail(kt, e.Pos(), p.Trace(), "a %s is not served", w)
					p.Clear("want " + w)
				}
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
			switch e.Kind {
			case "recv":
				if p.Has("over") {
					fail(kw, "it waits on %s", short(e.Addr))
				}
				if e.Blocking {
					settle(p, e)
					d, s := false, false
					for _, a := range e.Args {
						d = d || isDone(a)
						s = s || isStop(a)
					}
					if !d || !s {
						fail(kq, "it waits without listening to both")
					}
				}
				switch a := e.Addr; {
				case isDone(a) || isStop(a):
					p.Set("over")
				case a.isLoadOf(hcType + ".evictCh"):
					p.Set("want evict")
				case a.isLoadOf(hcType + ".expirationTriggerCh"):
					p.Set("want expire")
				case a.isLoadOf("Ticker.C"):
					p.Set("want tick")
				}
			case "send":
				fail(kw, "it sends on %s", short(e.Addr))
			case "go":
				fail(kw, "it starts a goroutine")
			case "precall":
				if e.Name != enqName {
					if op := cacheOp(e); op != "" || e.Name == hcRemove {
						fail(kt, "the loop itself calls %s", e.Name)
					}
					return
				}
				if p.Has("over") {
					fail(kw, "it enqueues a job")
				}
				j := e.Args[1]
				switch {
				case isJobOf(j, evict):
					p.Clear("want evict")
				case isJobOf(j, expire):
					p.Clear("want expire")
				default:
					fail(kt, "it enqueues %s", short(j))
				}
				p.Clear("want tick")
			case "return":
				if !p.Has("over") {
					fail(kq, "it ends without being told to")
				}
				settle(p, e)
			}
		}
		c.Explore(x, nil)
	})
}
