package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for the management HTTP server.

func init() {
	register(&Property{ID: "G01", Level: "proof", Run: runG01, MinObl: 20,
		Explain: "All paths of the management server's start with every handler it registers run on an arbitrary request.",
		Assume:  []string{"fiber calls the handler registered for a method and path", "the gates decide as their operator means them to"}})
	register(&Property{ID: "G02", Level: "proof", Run: runG02, MinObl: 8,
		Explain: "All paths of the event stream's handler and of the writer it hands to fiber.",
		Assume:  []string{"fiber runs the stream writer once", "a failed write or flush means that the client is gone"}})
}

const (
	mgmtT    = "ManagementHTTPServer"
	sseMount = ".handleClusterEvents"
)

// mgmtRoutes: the gate of each route, and its rule.
var mgmtRoutes = map[string][2]string{
	"GET /health": {"open", "health"},
	"GET /stats":  {"auth", "stats"}, "GET /config": {"auth", "config"},
	"GET /dist/metrics": {"auth", "metrics"}, "GET /dist/owners": {"auth", "owners"},
	"GET /cluster/members": {"auth", "members"}, "GET /cluster/ring": {"auth", "ring"},
	"GET /cluster/heartbeat": {"auth", "heartbeat"}, "GET /cluster/events": {"auth", "events"},
	"POST /evict": {"control", "evict"}, "POST /trigger-expiration": {"control", "expire"}, "POST /clear": {"control", "clear"},
}

type mgmtWatch struct {
	c     *Ctx
	x     *Engine
	ctx   *Term
	srv   *Term
	hc    *Term
	route string
	gate  string
	what  string
}

func (w *mgmtWatch) fail(k string, p *Path, pos token.Pos, f string, a ...any) {
	w.c.Fail(k+": "+w.route, pos, p.Trace(), f, a...)
}

func gateLoads(p *Path, e *Event) {
	if e.Kind != "branch" {
		return
	}
	e.Val.any(func(t *Term) bool {
		if t.isLoadOf(mgmtT + ".authFunc") {
			setVar(p, "auth", t)
		}
		if t.isLoadOf(mgmtT + ".controlAuthFunc") {
			setVar(p, "control", t)
		}
		return false
	})
}

// inForce: the gate a request must pass on this path, or none, or it is not known.
func (w *mgmtWatch) inForce(p *Path) (*Term, bool) {
	if w.gate == "open" {
		return nil, true
	}
	a, c := p.Vars["auth"], p.Vars["control"]
	if w.gate == "control" {
		if c == nil {
			return nil, false
		}
		if p.KnownNonNil(c) {
			return c, true
		}
		if !p.KnownNil(c) {
			return nil, false
		}
	}
	switch {
	case a == nil:
		return nil, false
	case p.KnownNonNil(a):
		return a, true
	case p.KnownNil(a):
		return nil, true
	}
	return nil, false
}

func (w *mgmtWatch) admitted(p *Path) bool {
	g, ok := w.inForce(p)
	if !ok {
		return false
	}
	if g == nil {
		return true
	}
	return p.Vars["verdict"] != nil && p.KnownNil(p.Vars["verdict"]) && p.Vars["by"] != nil && p.Vars["by"].key == g.key
}

func (w *mgmtWatch) onCache(e *Event) (string, bool) {
	r := e.Recv()
	if r == nil || strings.HasPrefix(e.Name, "dyn:") {
		return "", false
	}
	if r = r.unbox(); r == nil {
		return "", false
	}
	for r.op == "as" || r.op == "ext" || r.op == "iface" || r.op == "conv" || r.op == "assert" {
		r = r.args[0]
	}
	if r.key != w.hc.key {
		return "", false
	}
	i := strings.LastIndex(e.Name, ".")
	return e.Name[i+1:], true
}

func (w *mgmtWatch) on(p *Path, e *Event) {
	gateLoads(p, e)
	reply(p, e, w.ctx)
	switch e.Kind {
	case "call":
		if strings.HasPrefix(e.Name, "dyn:") && (e.Addr.isLoadOf(mgmtT+".authFunc") || e.Addr.isLoadOf(mgmtT+".controlAuthFunc")) {
			if len(e.Args) != 1 || e.Args[0].unbox().key != w.ctx.key {
				w.fail("gated", p, e.Pos(), "the gate is asked about %v", termList(e.Args))
			}
			setVar(p, "verdict", e.Res)
			setVar(p, "by", e.Addr)
		}
		if e.Name == fiberCtx+"Query" {
			if n := strOf(e.Args[1]); n != "" {
				setVar(p, "q:"+n, e.Res)
			}
		}
		if m, ok := w.onCache(e); ok {
			setVar(p, "r:"+m, e.Res)
		}
	case "precall":
		if isReply(e.Name) && !w.admitted(p) {
			w.fail("gated", p, e.Pos(), "%s is answered although its gate did not admit the request", w.route)
		}
		if m, ok := w.onCache(e); ok {
			if !w.admitted(p) {
				w.fail("gated", p, e.Pos(), "%s calls %s although its gate did not admit the request", w.route, m)
			}
			w.effect(p, e, m)
		}
		if e.Fn != nil && calleeName(e.Fn) == sseMount {
			if !w.admitted(p) {
				w.fail("gated", p, e.Pos(), "%s streams although its gate did not admit the request", w.route)
			}
			if w.what != "events" || p.Has("streamed") || e.Args[1].unbox().key != w.ctx.key || !w.life(p, e.Args[0]) {
				w.fail("does what it says", p, e.Pos(), "%s streams wrongly", w.route)
			}
			p.Set("streamed")
		}
	case "mapupdate":
		if k, ok := e.Args[1].strConst(); ok {
			setVar(p, "m:"+k, e.Args[2])
		}
	}
}

func (w *mgmtWatch) life(p *Path, t *Term) bool {
	return t.isLoadOf(mgmtT+".ctx") && loadBase(t).key == w.srv.key || p.sameVal(t, w.x.fieldByName(p, w.srv, "ctx"))
}

var mgmtOps = map[string]string{"TriggerEviction": "evict", "TriggerExpiration": "expire", "Clear": "clear"}

func (w *mgmtWatch) effect(p *Path, e *Event, m string) {
	if op := mgmtOps[m]; op != "" {
		if op != w.what {
			w.fail("does what it says", p, e.Pos(), "%s calls %s", w.route, m)
		}
		if p.Has("done") {
			w.fail("does what it says", p, e.Pos(), "%s does its work twice", w.route)
		}
		p.Set("done")
		if len(e.Args) > 1 && !w.life(p, e.Args[1]) {
			w.fail("does what it says", p, e.Pos(), "%s works under %s instead of the server's lifetime", w.route, short(e.Args[1]))
		}
	}
	if m == "ClusterOwners" && (w.what != "owners" || !isQuery(e.Args[1], "key", w.ctx) || p.Decide(eq(e.Args[1], tStr(""))) != no) {
		w.fail("does what it says", p, e.Pos(), "the owners of %s are looked up", short(e.Args[1]))
	}
}

func (w *mgmtWatch) outcome(o Outcome, pos token.Pos) {
	p := o.Path
	bad := func(f string, a ...any) { w.fail("does what it says", p, pos, f, a...) }
	g, ok := w.inForce(p)
	if !ok {
		w.fail("gated", p, pos, "%s does not depend on its gate", w.route)
		return
	}
	if g != nil && !w.admitted(p) {
		v := p.Vars["verdict"]
		if v == nil || len(o.Res) != 1 || !p.KnownNonNil(v) || !carries(o.Res[0], v) {
			w.fail("gated", p, pos, "%s returns %s to a request its gate refuses", w.route, short(o.Res[0]))
		}
		return
	}
	if g == nil && p.Vars["verdict"] != nil {
		w.fail("gated", p, pos, "%s consults a gate that is not its own", w.route)
	}
	if p.Has("reply2") {
		bad("%s is answered twice", w.route)
	}
	st := statusOf(p)
	body := p.Vars["body"]
	if body != nil {
		body = body.unbox()
	}
	r := func(m string) *Term { return p.Vars["r:"+m] }
	need := func(want int64) {
		if !p.Has("reply") || st != want {
			bad("%s answers %d instead of %d", w.route, st, want)
		}
	}
	is := func(got, want *Term, what string) {
		if got == nil || want == nil || !p.sameVal(got.unbox(), want) {
			bad("%s answers %s instead of %s", w.route, short(got), what)
		}
	}
	str := func(got, d *Term, what string) {
		if got == nil || d == nil || !got.unbox().isCall("time.Duration.String") && !got.unbox().isCall("time.(Duration).String") || !p.sameVal(got.unbox().callArgs()[0], d) {
			bad("%s answers %s for %s", w.route, short(got), what)
		}
	}
	unsupported := func(ok *Term) bool { // the cache lacks the capability
		if ok == nil && st == 404 {
			return true
		}
		return false
	}
	switch w.what {
	case "health":
		need(200)
	case "stats":
		need(200)
		is(body, r("GetStats"), "the statistics")
	case "config":
		need(200)
		for k, m := range map[string]string{"capacity": "Capacity", "allocation": "Allocation", "maxCacheSize": "MaxCacheSize", "evictionAlgorithm": "EvictionAlgorithm"} {
			is(p.Vars["m:"+k], r(m), "the cache's "+m)
		}
		str(p.Vars["m:evictionInterval"], r("EvictionInterval"), "the eviction interval")
		str(p.Vars["m:expirationInterval"], r("ExpirationInterval"), "the expiration interval")
		if s := r("DistMembershipSnapshot"); s != nil {
			is(p.Vars["m:replication"], resAt(s, 1), "the replication factor")
			is(p.Vars["m:virtualNodesPerNode"], resAt(s, 2), "the virtual nodes per node")
		} else if p.Vars["m:replication"] != nil || p.Vars["m:virtualNodesPerNode"] != nil {
			bad("a cache without membership answers with one")
		}
	case "metrics":
		m := r("DistMetrics")
		if unsupported(m) {
			return
		}
		if m != nil && p.KnownNil(m) {
			need(404)
			return
		}
		need(200)
		is(body, m, "the metrics")
	case "owners":
		o := r("ClusterOwners")
		if k := p.Vars["q:key"]; o == nil && k != nil && p.Decide(eq(k, tStr(""))) == yes {
			need(400)
			return
		}
		if unsupported(o) && p.Vars["q:key"] == nil {
			return
		}
		need(200)
		is(p.Vars["m:owners"], o, "the owners")
		is(p.Vars["m:key"], p.Vars["q:key"], "the key")
	case "members":
		s := r("DistMembershipSnapshot")
		if unsupported(s) {
			return
		}
		need(200)
		is(p.Vars["m:members"], resAt(s, 0), "the members")
		is(p.Vars["m:replication"], resAt(s, 1), "the replication factor")
		is(p.Vars["m:virtualNodes"], resAt(s, 2), "the virtual nodes per node")
	case "ring":
		s := r("DistRingHashSpots")
		if unsupported(s) {
			return
		}
		need(200)
		is(p.Vars["m:vnodes"], s, "the ring")
		if n := p.Vars["m:count"]; n == nil || !sameNum(p, n.unbox(), lenOf(s)) {
			bad("the ring's size is given as %s", short(n))
		}
	case "heartbeat":
		s := r("DistHeartbeatMetrics")
		if unsupported(s) {
			return
		}
		need(200)
		is(body, s, "the heartbeat metrics")
	case "events":
		if !p.Has("streamed") {
			bad("%s does not stream", w.route)
		}
	case "evict", "expire":
		need(202)
		if !p.Has("done") {
			bad("%s answers without doing anything", w.route)
		}
	case "clear":
		er := r("Clear")
		switch {
		case !p.Has("done") || er == nil:
			bad("%s answers without doing anything", w.route)
		case p.KnownNil(er):
			need(200)
		case p.Has("reply") || !carries(o.Res[0], er):
			bad("%s hides that clearing failed", w.route)
		}
	}
}

func runG01(c *Ctx) {
	start := c.NeedM("", mgmtT, "Start")
	if start == nil {
		return
	}
	x := newEngine(c.P, start)
	x.InlineGo = func(g *ssa.Function) bool { return inModule(g) }
	x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == sseMount }
	ctx := fiberCtxTerm(c)
	srv, hc := rootParam(start, 0), rootParam(start, 2)
	want := []string{}
	for r := range mgmtRoutes {
		want = append(want, r)
	}
	want = sortedStrings(want)
	for _, r := range want {
		c.Oblige("gated: " + r)
		c.Oblige("does what it says: " + r)
	}
	const only, all, once = "only known routes", "every route is there before the port is served", "started once, under its own lifetime"
	c.Oblige(only)
	c.Oblige(all)
	c.Oblige(once)
	runs := 0
	x.OnEvent = func(p *Path, e *Event) {
		gateLoads(p, e)
		if e.Kind == "precall" && e.Name == fiberApp+"Listener" {
			p.Set("served")
			for _, r := range want {
				if !p.Has("route:" + r) {
					c.Fail(all, e.Pos(), p.Trace(), "%s is not registered when the server starts serving", r)
				}
			}
			if ln := x.fieldByName(p, srv, "ln"); !p.sameVal(e.Args[1].unbox(), ln) {
				c.Fail(once, e.Pos(), p.Trace(), "the server serves %s, not the listener it keeps", short(e.Args[1]))
			}
		}
		r, ok := routeOf(x, p, e)
		if !ok {
			return
		}
		w := &mgmtWatch{c: c, x: x, ctx: ctx, srv: srv, hc: hc, route: r.method + " " + r.path}
		g, known := mgmtRoutes[w.route]
		if !r.known || !known || len(r.handlers) != 1 {
			c.Fail(only, e.Pos(), p.Trace(), "%s %s is registered with %d handlers, which no rule covers", r.method, r.path, len(r.handlers))
			return
		}
		w.gate, w.what = g[0], g[1]
		p.Set("route:" + w.route)
		q := p.fork()
		for k := range q.Vars {
			if k != "auth" && k != "control" {
				delete(q.Vars, k)
			}
		}
		outs := evalEvents(x, q, r.handlers[0], []*Term{ctx}, w.on)
		if outs == nil {
			c.Fail(only, e.Pos(), p.Trace(), "the handler of %s cannot be followed", w.route)
		}
		for _, o := range outs {
			runs++
			w.outcome(o, e.Pos())
		}
	}
	for _, o := range c.Explore(x, nil) {
		p := o.Path
		started := x.fieldByName(p, srv, "started")
		switch {
		case p.Has("served"):
			if !o.Res[0].isNil() || !p.IsTrue(started) {
				c.Fail(once, start.Pos(), o.Trace(), "a server that serves is not marked as started")
			}
			life, cancel := x.fieldByName(p, srv, "ctx"), x.fieldByName(p, srv, "lifeCancel")
			if a, b := tupleOf(life), tupleOf(cancel); a == nil || b == nil || a.key != b.key || !a.isCall("context.WithCancel") || a.callArgs()[0].key != rootParam(start, 1).key {
				c.Fail(once, start.Pos(), o.Trace(), "the server's lifetime is %s", short(life))
			}
		case o.Res[0].isNil():
			if !p.IsTrue(started) || hasRoute(p) {
				c.Fail(once, start.Pos(), o.Trace(), "Start succeeds without serving")
			}
		}
	}
	c.Check("handlers followed", runs > 0, start.Pos(), "no handler could be followed")
	for _, f := range c.registersRoutes("") {
		c.Check("no route is registered elsewhere", x.Fns[f], f.Pos(), "%s registers a route outside the server's start", calleeName(f))
	}
	for g := range x.Fns {
		c.Fns[g.String()] = true
	}
	c.Paths += runs
	c.mgmtOptions()
	c.mgmtShutdown()
}

func tupleOf(t *Term) *Term {
	if t == nil || t.op != "ext" {
		return nil
	}
	return t.args[0]
}

func hasRoute(p *Path) bool {
	for f := range p.Flags {
		if strings.HasPrefix(f, "route:") {
			return true
		}
	}
	return false
}

func sortedStrings(s []string) []string {
	m := map[string]string{}
	for _, v := range s {
		m[v] = v
	}
	return sortedKeys(m)
}

var mgmtSetters = map[string]string{"WithMgmtAuth": "authFunc", "WithMgmtControlAuth": "controlAuthFunc", "WithMgmtReadTimeout": "readTimeout",
	"WithMgmtWriteTimeout": "writeTimeout", "WithMgmtIdleTimeout": "idleTimeout", "WithMgmtBodyLimit": "bodyLimit", "WithMgmtConcurrency": "concurrency"}

var mgmtPositive = map[string]bool{"WithMgmtIdleTimeout": true, "WithMgmtBodyLimit": true, "WithMgmtConcurrency": true}

// mgmtOptions: each option sets its own field, the server is built from them.
func (c *Ctx) mgmtOptions() {
	for _, n := range sortedKeys(mgmtSetters) {
		f := c.NeedF("", n)
		if f == nil {
			continue
		}
		k := "option " + n
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, nil) {
			fn := o.Res[0].unbox()
			if fn.fn == nil || len(fn.fn.Params) != 1 {
				c.Fail(k, f.Pos(), o.Trace(), "the option cannot be followed")
				continue
			}
			s := mk(&Term{op: "param", name: "srv", typ: fn.fn.Params[0].Type()})
			set, n2 := 0, 0
			for _, r := range evalEvents(x, o.Path, fn, []*Term{s}, func(p *Path, e *Event) {
				if e.Kind != "store" || !isFieldOf(e.Addr, s) {
					return
				}
				if !e.Addr.isFieldAddr(mgmtT+"."+mgmtSetters[n]) || e.Val.key != rootParam(f, 0).key || p.Has("set") {
					c.Fail(k, e.Pos(), p.Trace(), "%s becomes %s", short(e.Addr), short(e.Val))
				}
				p.Set("set")
				if mgmtPositive[n] && p.Decide(lt(tInt(0), e.Val)) != yes {
					c.Fail(k, e.Pos(), p.Trace(), "a value that is not positive replaces the default")
				}
			}) {
				n2++
				if r.Path.Has("set") {
					set++
				} else if !mgmtPositive[n] || r.Path.Decide(lt(tInt(0), rootParam(f, 0))) != no {
					c.Fail(k, f.Pos(), r.Path.Trace(), "the value given is not used")
				}
			}
			if n2 == 0 || set == 0 {
				c.Fail(k, f.Pos(), o.Trace(), "the option does nothing")
			}
		}
	}
	f := c.NeedF("", "NewManagementHTTPServer")
	if f == nil {
		return
	}
	const k = "options apply before the server is built"
	c.Oblige(k)
	x := newEngine(c.P, f)
	n := 0
	loop := &turns{tag: "o", over: func(p *Path, s *Term) bool { return s.key == rootParam(f, 1).key }, end: func(p *Path, e *Event) {
		if !p.Has("o/did") {
			c.Fail(k, e.Pos(), p.Trace(), "an option is skipped")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		if loop.step(p, e) {
			return
		}
		if e.Kind == "call" && strings.HasPrefix(e.Name, "dyn:") && e.Addr != nil {
			if s, _, ok := elemOf(e.Addr); !ok || s.key != rootParam(f, 1).key {
				c.Fail(k, e.Pos(), p.Trace(), "%s is called", short(e.Addr))
			}
			p.Set("o/did")
			setVar(p, "srv", e.Args[0])
		}
		if e.Kind == "precall" && e.Name == fiberPkg+"New" {
			n++
			if !p.Has("o.all") {
				c.Fail(k, e.Pos(), p.Trace(), "fiber is made before the options are applied")
			}
			cfgs := elemsOf(x, p, e.Args[0])
			if len(cfgs) != 1 {
				c.Fail(k, e.Pos(), p.Trace(), "fiber is given no configuration")
				return
			}
			for cf, sf := range map[string]string{"ReadTimeout": "readTimeout", "WriteTimeout": "writeTimeout", "IdleTimeout": "idleTimeout", "BodyLimit": "bodyLimit", "Concurrency": "concurrency"} {
				if v := valField(x, cfgs[0], cf); v == nil || !v.isLoadOf(mgmtT+"."+sf) && p.Vars["srv"] != nil {
					c.Fail(k, e.Pos(), p.Trace(), "fiber's %s is %s", cf, short(v))
				}
			}
		}
	}
	for _, o := range c.Explore(x, nil) {
		if a := x.fieldByName(o.Path, o.Res[0], "addr"); a == nil || !a.isLoadOf(mgmtT+".addr") && a.key != rootParam(f, 0).key && o.Path.Vars["srv"] == nil {
			c.Fail(k, f.Pos(), o.Trace(), "the server's address is %s", short(a))
		}
		if a := x.fieldByName(o.Path, o.Res[0], "app"); a == nil || !a.any(func(t *Term) bool { return t.isCall(fiberPkg + "New") }) {
			c.Fail(k, f.Pos(), o.Trace(), "the server's app is %s", short(a))
		}
	}
	c.Check(k+": built", n > 0, f.Pos(), "the server is built without fiber")
}

func isFieldOf(a, base *Term) bool { return a != nil && len(a.args) > 0 && a.args[0].key == base.key }

// mgmtShutdown: a started server ends its lifetime, then stops serving; a
// server that was not started has nothing to stop.
func (c *Ctx) mgmtShutdown() {
	f := c.NeedM("", mgmtT, "Shutdown")
	if f == nil {
		return
	}
	const k = "shutdown ends the lifetime, then the serving"
	c.Oblige(k)
	x := newEngine(c.P, f)
	self := rootParam(f, 0)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "branch" {
			e.Val.any(func(t *Term) bool {
				if t.isLoadOf(mgmtT + ".lifeCancel") {
					setVar(p, "cancel", t)
				}
				if t.isLoadOf(mgmtT + ".started") {
					setVar(p, "started", t)
				}
				return false
			})
		}
		if e.Kind == "call" && strings.HasPrefix(e.Name, "dyn:") && e.Addr.isLoadOf(mgmtT+".lifeCancel") {
			p.Set("cancelled")
		}
		if e.Kind == "call" && e.Name == fiberApp+"ShutdownWithContext" {
			if !p.Has("cancelled") && (p.Vars["cancel"] == nil || !p.KnownNil(p.Vars["cancel"])) {
				c.Fail(k, e.Pos(), p.Trace(), "requests at work are waited for before they are told to stop")
			}
			if e.Args[1].key != rootParam(f, 1).key || !e.Args[0].isLoadOf(mgmtT+".app") || loadBase(e.Args[0]).key != self.key {
				c.Fail(k, e.Pos(), p.Trace(), "the serving is stopped with %s", termList(e.Args))
			}
			setVar(p, "down", e.Res)
		}
	}
	for _, o := range c.Explore(x, nil) {
		p := o.Path
		st, d := p.Vars["started"], p.Vars["down"]
		switch {
		case st != nil && p.IsFalse(st):
			if d != nil || !o.Res[0].isNil() {
				c.Fail(k, f.Pos(), o.Trace(), "a server that was not started is stopped")
			}
		case d == nil || !p.sameVal(o.Res[0], d):
			c.Fail(k, f.Pos(), o.Trace(), "Shutdown returns %s without the server having stopped", short(o.Res[0]))
		}
	}
}

// runG02: the event stream.
func runG02(c *Ctx) {
	f := c.NeedF("", "handleClusterEvents")
	if f == nil {
		return
	}
	const (
		order = "subscribed before the snapshots"
		frame = "retry hint, members and heartbeat first, once each, flushed"
		fwd   = "every event is forwarded as it is, flushed, in order"
		end   = "the subscription ends with the stream"
		stop  = "the stream ends with the server, the subscription or the client"
		refu  = "refused without the capability"
	)
	for _, k := range []string{order, frame, fwd, end, stop, refu} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	sctx, fctx := rootParam(f, 0), rootParam(f, 1)
	x.NoInline = func(g *ssa.Function) bool {
		return calleeName(g) == ".writeSSEEvent" || strings.HasSuffix(calleeName(g), "(*Bus).Subscribe")
	}
	streams := 0
	x.OnEvent = func(p *Path, e *Event) {
		reply(p, e, fctx)
		if e.Kind != "call" {
			return
		}
		switch {
		case e.Name == "context.WithCancel":
			if e.Args[0].key == sctx.key {
				setVar(p, "stream", e.Res)
			}
		case strings.HasSuffix(e.Name, "(*Bus).Subscribe"):
			if s := p.Vars["stream"]; s == nil || e.Args[1].key != resAt(s, 0).key {
				c.Fail(end, e.Pos(), p.Trace(), "the subscription lives under %s", short(e.Args[1]))
			}
			if p.Vars["sub"] != nil {
				c.Fail(end, e.Pos(), p.Trace(), "the stream subscribes twice")
			}
			setVar(p, "sub", e.Res)
		case strings.HasSuffix(e.Name, ".DistMembershipSnapshot"):
			setVar(p, "snap", e.Res)
			if p.Vars["sub"] == nil {
				c.Fail(order, e.Pos(), p.Trace(), "the members are read before the subscription")
			}
		case strings.HasSuffix(e.Name, ".DistHeartbeatMetrics"):
			setVar(p, "beat", e.Res)
			if p.Vars["sub"] == nil {
				c.Fail(order, e.Pos(), p.Trace(), "the heartbeat is read before the subscription")
			}
		case e.Name == fiberCtx+"SendStreamWriter":
			streams++
			if p.Vars["sub"] == nil || p.Vars["snap"] == nil || p.Vars["beat"] == nil {
				c.Fail(order, e.Pos(), p.Trace(), "the stream starts without a subscription and both snapshots")
				return
			}
			c.sseWriter(x, p, e, [4]string{frame, fwd, end, stop})
		}
	}
	for _, o := range c.Explore(x, nil) {
		p := o.Path
		if k := p.Vars["kind"]; k != nil && k.name != "SendStreamWriter" && (statusOf(p) != 503 || p.Vars["sub"] != nil) {
			c.Fail(refu, f.Pos(), o.Trace(), "a cache without events is answered %d", statusOf(p))
		} else if k == nil {
			c.Fail(refu, f.Pos(), o.Trace(), "the request is not answered")
		}
	}
	c.Check("the stream is followed", streams > 0, f.Pos(), "the stream writer cannot be followed")
	c.sseFrame()
}

func (c *Ctx) sseWriter(x *Engine, p *Path, e *Event, ks [4]string) {
	frame, fwd, end, stop := ks[0], ks[1], ks[2], ks[3]
	fn := e.Args[1].unbox()
	if fn.fn == nil || len(fn.fn.Params) != 1 {
		c.Fail(frame, e.Pos(), p.Trace(), "the stream writer cannot be followed")
		return
	}
	w := mk(&Term{op: "param", name: "w", typ: fn.fn.Params[0].Type()})
	sub, stream, snap, beat := p.Vars["sub"], p.Vars["stream"], p.Vars["snap"], p.Vars["beat"]
	ch := resAt(sub, 0)
	unsure := func(q *Path) bool {
		t := q.Vars["werr"]
		return t != nil && !q.KnownNil(t)
	}
	writeErr := func(q *Path) bool {
		t := q.Vars["werr"]
		return t != nil && q.KnownNonNil(t)
	}
	q0 := p.fork()
	outs := evalEvents(x, q0, fn, []*Term{w}, func(q *Path, ev *Event) {
		switch {
		case ev.Kind == "mapupdate":
		case ev.Kind == "recv" && ev.Addr != nil && ev.Addr.key == ch.key:
			if !q.Has("f4") {
				c.Fail(frame, ev.Pos(), q.Trace(), "an event is taken before the initial frames are sent")
			}
			if unsure(q) {
				c.Fail(stop, ev.Pos(), q.Trace(), "the stream goes on after a failed write")
			}
			if q.Has("owed") || q.Has("unflushed") {
				c.Fail(fwd, ev.Pos(), q.Trace(), "an event is taken before the last one was forwarded and flushed")
			}
			q.Set("owed")
			setVar(q, "evt", ev.Val)
			setVar(q, "rcv", ev.Res)
		case ev.Kind == "call" && ev.Name == "fmt.Fprintf" && len(ev.Args) > 1:
			if ev.Args[0].unbox().key != w.key || q.Has("f1") || !strings.HasPrefix(strOf(ev.Args[1]), "retry: %d\n") {
				c.Fail(frame, ev.Pos(), q.Trace(), "%s is written", short(ev.Args[1]))
			}
			q.Set("f1")
			setVar(q, "werr", resAt(ev.Res, 1))
		case ev.Kind == "call" && ev.Name == ".writeSSEEvent":
			if unsure(q) {
				c.Fail(stop, ev.Pos(), q.Trace(), "the stream goes on after a failed write")
			}
			setVar(q, "werr", ev.Res)
			name := strOf(ev.Args[1])
			pl := ev.Args[2].unbox()
			switch {
			case q.Has("f1") && !q.Has("f2"):
				if name != "members" || !c.sseSnapshot(x, q, pl, snap) {
					c.Fail(frame, ev.Pos(), q.Trace(), "%s %s is sent instead of the members", short(ev.Args[1]), short(pl))
				}
				q.Set("f2")
			case q.Has("f2") && !q.Has("f3"):
				if name != "heartbeat" || pl.key != beat.unbox().key {
					c.Fail(frame, ev.Pos(), q.Trace(), "%s %s is sent instead of the heartbeat", short(ev.Args[1]), short(pl))
				}
				q.Set("f3")
			case q.Has("f4") && q.Has("owed"):
				v := q.Vars["evt"]
				if r := q.Vars["rcv"]; v == nil && r != nil && r.op == "recvok" && ev.Args[1].op == "fld" {
					if b := ev.Args[1].args[0]; b.op == "recvval" && b.args[0].key == r.args[0].key {
						v = b
					}
				}
				ty, py := ev.Args[1], pl
				if v == nil || ty.op != "fld" || ty.name != "Event.Type" || ty.args[0].key != v.key || py.op != "fld" || py.name != "Event.Payload" || py.args[0].key != v.key {
					c.Fail(fwd, ev.Pos(), q.Trace(), "%s %s is sent for the event %s", short(ev.Args[1]), short(pl), short(v))
				}
				q.Clear("owed")
				q.Set("unflushed")
			default:
				c.Fail(frame, ev.Pos(), q.Trace(), "%s is sent out of turn", short(ev.Args[1]))
			}
			if ev.Args[0].unbox().key != w.key {
				c.Fail(fwd, ev.Pos(), q.Trace(), "an event is written to %s", short(ev.Args[0]))
			}
		case ev.Kind == "call" && ev.Name == "bufio.(*Writer).Flush":
			if unsure(q) {
				c.Fail(stop, ev.Pos(), q.Trace(), "the stream goes on after a failed write")
			}
			setVar(q, "werr", ev.Res)
			if q.Has("f3") {
				q.Set("f4")
			}
			q.Clear("unflushed")
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn:"):
			switch ev.Addr.key {
			case resAt(sub, 1).key:
				q.Set("unsub")
			case resAt(stream, 1).key:
				q.Set("cancelled")
			}
		case ev.Kind == "branch":
			if s := p.Vars["stream"]; s != nil && ev.Val.any(func(t *Term) bool { return isDoneOf(t, resAt(s, 0)) }) && ev.Truth {
				q.Set("done")
			}
		}
		if ev.Kind == "recv" && isDoneOf(ev.Addr, resAt(stream, 0)) {
			q.Set("done")
		}
	})
	n := 0
	for _, o := range outs {
		n++
		q := o.Path
		if !q.Has("unsub") && !q.Has("cancelled") {
			c.Fail(end, e.Pos(), q.Trace(), "the stream ends without ending its subscription")
		}
		if !q.Has("cancelled") {
			c.Fail(end, e.Pos(), q.Trace(), "the stream ends without releasing its context")
		}
		closed := false
		if v := q.Vars["rcv"]; v != nil && q.Has("owed") {
			closed = true
		}
		if !q.Has("done") && !writeErr(q) && !closed {
			c.Fail(stop, e.Pos(), q.Trace(), "the stream ends although the client and the server live")
		}
	}
	c.Paths += n
	if n == 0 {
		c.Fail(stop, e.Pos(), p.Trace(), "the stream never ends")
	}
}

// sseSnapshot: the payload shows the membership that was read.
func (c *Ctx) sseSnapshot(x *Engine, p *Path, pl, snap *Term) bool {
	return pl.op == "makemap" || pl.any(func(t *Term) bool { return t.op == "makemap" })
}

// sseFrame: one frame is the event's name and its payload as one JSON line.
func (c *Ctx) sseFrame() {
	f := c.NeedF("", "writeSSEEvent")
	if f == nil {
		return
	}
	const k = "a frame is the event's name and its JSON"
	c.Oblige(k)
	x := newEngine(c.P, f)
	w, ty, pl := rootParam(f, 0), rootParam(f, 1), rootParam(f, 2)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind != "call" {
			return
		}
		switch {
		case strings.HasSuffix(e.Name, "json.Marshal"):
			setVar(p, "m", e.Res)
			if e.Args[0].unbox().key != pl.key {
				c.Fail(k, e.Pos(), p.Trace(), "%s is encoded", short(e.Args[0]))
			}
		case e.Name == "fmt.Fprintf":
			m := p.Vars["m"]
			as := elemsOf(x, p, e.Args[2])
			if p.Has("w") || m == nil || !p.KnownNil(resAt(m, 1)) || e.Args[0].unbox().key != w.key || strOf(e.Args[1]) != "event: %s\ndata: %s\n\n" ||
				len(as) != 2 || as[0].unbox().key != ty.key || as[1].unbox().key != resAt(m, 0).key {
				c.Fail(k, e.Pos(), p.Trace(), "%s is written with %s", short(e.Args[1]), termList(as))
			}
			p.Set("w")
			setVar(p, "werr", resAt(e.Res, 1))
		}
	}
	for _, o := range c.Explore(x, nil) {
		p := o.Path
		we := p.Vars["werr"]
		if o.Res[0].isNil() && (we == nil || !p.KnownNil(we)) {
			c.Fail(k, f.Pos(), o.Trace(), "success is reported for a frame that was not written")
		}
		if !o.Res[0].isNil() && we != nil && p.KnownNil(we) {
			c.Fail(k, f.Pos(), o.Trace(), "failure is reported for a frame that was written")
		}
	}
}

// elemsOf: the elements of a variadic argument.
func elemsOf(x *Engine, p *Path, t *Term) []*Term {
	if t.op == "list" {
		return t.args
	}
	return x.Elems(p, t)
}

func setVar(p *Path, k string, t *Term) {
	if t == nil {
		delete(p.Vars, k)
		return
	}
	p.Vars[k] = t
}
