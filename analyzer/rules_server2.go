package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&Property{ID: "Z04", Level: "proof", MinObl: 14, Run: runZ04,
		Explain: "The handlers of the key listing and of the two identity probes are taken from the registered routes and followed on every path. For the listing, the query parameters and their parsed values are tracked to the single cluster listing they bound, and the page answered is compared term by term with the definition: from the smaller of cursor and total to the smaller of that plus the limit and the total, a next cursor exactly when keys remain and equal to the page's end, the listing's own total, cut flag and missing nodes. For the probes, the identity must be the one the gate stored in the request, the scopes are followed element by element, the capabilities and the verdict must be that identity's own, and a capability outside the closed set is refused.",
		Assume:  []string{"strconv.Atoi and Itoa, fiber's Query, Locals and JSON behave as documented; what ClusterKeys returns and which capabilities an identity has are the business of other properties"}})
}

// isMinOf: on this path t is the smaller of a and b.
func isMinOf(p *Path, t, a, b *Term) bool {
	if t.op == "pcall" && t.name == "builtin.min" && len(t.args) == 2 {
		l, r := t.args[0], t.args[1]
		return sameNum(p, l, a) && sameNum(p, r, b) || sameNum(p, l, b) && sameNum(p, r, a)
	}
	le := func(x, y *Term) bool { return p.Decide(lt(y, x)) == no || p.Decide(lt(x, y)) == yes }
	return sameNum(p, t, a) && le(a, b) || sameNum(p, t, b) && le(b, a)
}

type probe struct {
	c     *Ctx
	x     *Engine
	ctx   *Term
	node  *Term
	route string
	list  *listMap
}

var probeRoutes = []string{"GET /v1/cache/keys", "GET /v1/me", "GET /v1/me/can"}

func runZ04(c *Ctx) {
	reg := c.NeedF(relServer, "registerClientRoutes")
	if reg == nil {
		return
	}
	for _, r := range probeRoutes {
		for _, k := range []string{"served: ", "refuses what it cannot read: ", "answers truly: "} {
			c.Oblige(k + r)
		}
	}
	c.Oblige("bounds: GET /v1/cache/keys")
	x := newEngine(c.P, reg)
	x.NoInline = serverOpaque
	ctx := fiberCtxTerm(c)
	runs := map[string]int{}
	x.OnEvent = func(p *Path, e *Event) {
		r, ok := routeOf(x, p, e)
		if !ok || len(r.handlers) == 0 {
			return
		}
		route := r.method + " " + r.path
		known := false
		for _, q := range probeRoutes {
			known = known || q == route
		}
		if !known {
			return
		}
		w := &probe{c: c, x: x, ctx: ctx, node: rootParam(reg, 2), route: route}
		w.list = &listMap{
			turns: turns{tag: "sc", over: func(p *Path, s *Term) bool {
				return p.Vars["id"] != nil && s.key == orNil(valField(x, p.Vars["id"], "Scopes")).key
			}},
			elem: "string",
			bad:  func(p *Path, e *Event, f string, a ...any) { w.fail("answers truly", p, e.Pos(), f, a...) },
			item: func(p *Path, e *Event, v, iv *Term) string {
				v = stripConv(v)
				if v.op == "load" && v.args[0].op == "idx" && v.args[0].args[1].key == iv.key && v.args[0].args[0].key == p.Vars["sc.src"].key {
					return ""
				}
				return "a scope shows as " + short(v)
			},
		}
		q := p.fork()
		for _, o := range evalEvents(x, q, r.handlers[len(r.handlers)-1], []*Term{ctx}, w.event) {
			runs[route]++
			w.outcome(o, e.Pos())
		}
	}
	c.Explore(x, nil)
	for g := range x.Fns {
		c.Fns[g.String()] = true
	}
	for _, r := range probeRoutes {
		c.Paths += runs[r]
		c.Check("followed: "+r, runs[r] > 1, reg.Pos(), "the handler of %s is not registered or cannot be followed", r)
	}
}

func (w *probe) fail(kind string, p *Path, pos token.Pos, f string, a ...any) {
	w.c.Fail(kind+": "+w.route, pos, p.Trace(), f, a...)
}

func (w *probe) event(p *Path, e *Event) {
	if w.route == "GET /v1/me" {
		w.list.on(p, e)
	}
	reply(p, e, w.ctx)
	switch {
	case e.Kind == "call" && e.Name == fiberCtx+"Query":
		if s, ok := e.Args[1].strConst(); ok {
			setVar(p, "q:"+s, e.Res)
		}
	case e.Kind == "call" && e.Name == hcM+"ClusterKeys":
		if p.Vars["did"] != nil {
			w.fail("answers truly", p, e.Pos(), "the keys are listed twice for one request")
		}
		setVar(p, "did", e.Res)
		setVar(p, "max", e.Args[3])
		if q := p.Vars["q:q"]; q == nil || e.Args[2].key != q.key {
			w.fail("answers truly", p, e.Pos(), "the keys listed are those matching %v", e.Args[2])
		}
		w.bounded(p, e.Pos(), "max", e.Args[3])
		for _, n := range []string{"cursor", "limit", "max"} {
			lo := tInt(1)
			if n == "cursor" {
				lo = tInt(0)
			}
			q := p.Vars["q:"+n]
			if q == nil || p.Decide(eq(q, tStr(""))) == yes {
				continue
			}
			if v, err := w.number(p, n); v == nil || !p.KnownNil(err) || p.Decide(lt(v, lo)) != no {
				w.fail("refuses what it cannot read", p, e.Pos(), "a listing reaches the cache without the %s being found a number of at least %v", n, lo)
			}
		}
		if w.refused(p) {
			w.fail("refuses what it cannot read", p, e.Pos(), "a malformed request reaches the cache")
		}
	case e.Kind == "call" && e.Name == fiberCtx+"Locals":
		if s := strOf(e.Args[1].unbox()); s == "httpauth.identity" {
			setVar(p, "local", e.Res)
		}
	case e.Kind == "branch":
		e.Val.any(func(t *Term) bool {
			if t.op == "pcall" && t.name == "strconv.Atoi" {
				for _, n := range []string{"cursor", "limit", "max"} {
					if q := p.Vars["q:"+n]; q != nil && t.args[0].key == q.key {
						setVar(p, "n:"+n, t)
					}
				}
			}
			return false
		})
		l := p.Vars["local"]
		if l == nil {
			break
		}
		e.Val.any(func(t *Term) bool {
			if t.op == "is" && t.args[0].key == l.key {
				setVar(p, "isid", t)
				if p.Decide(t) == yes {
					it := w.c.P.pkg("pkg/httpauth").Type("Identity")
					setVar(p, "id", mk(&Term{op: "as", name: t.name, args: t.args, typ: it.Type()}))
				}
			}
			return false
		})
	}
}

// refused: some parameter of the listing cannot be read.
func (w *probe) refused(p *Path) bool {
	for _, n := range []string{"cursor", "limit", "max"} {
		if w.malformed(p, n) {
			return true
		}
	}
	return false
}

func (w *probe) number(p *Path, n string) (v, err *Term) {
	q := p.Vars["q:"+n]
	if q == nil {
		return nil, nil
	}
	t := p.Vars["n:"+n]
	if t == nil {
		return nil, nil
	}
	return mk(&Term{op: "ext", idx: 0, args: []*Term{t}, typ: types.Typ[types.Int]}), mk(&Term{op: "ext", idx: 1, args: []*Term{t}, typ: types.Universe.Lookup("error").Type()})
}

func (w *probe) malformed(p *Path, n string) bool {
	v, err := w.number(p, n)
	if v == nil || p.Decide(eq(p.Vars["q:"+n], tStr(""))) == yes {
		return false
	}
	if p.KnownNonNil(err) {
		return true
	}
	lo := tInt(1)
	if n == "cursor" {
		lo = tInt(0)
	}
	return p.KnownNil(err) && p.Decide(lt(v, lo)) == yes
}

// bounded: t is what the parameter n asks for, or its default; never above the cap.
func (w *probe) bounded(p *Path, pos token.Pos, n string, t *Term) {
	def, top := map[string]int64{"limit": 100, "max": 10000}[n], map[string]int64{"limit": 500, "max": 50000}[n]
	q := p.Vars["q:"+n]
	if q == nil {
		w.c.Fail("bounds: "+w.route, pos, p.Trace(), "the parameter %s is not looked at", n)
		return
	}
	v, err := w.number(p, n)
	switch absent := p.Decide(eq(q, tStr(""))); {
	case absent == yes && isConstInt(t, def):
	case absent == no && v != nil && p.KnownNil(err) && isMinOf(p, t, v, tInt(top)):
	default:
		w.c.Fail("bounds: "+w.route, pos, p.Trace(), "for the parameter %s the bound is %v", n, t)
	}
}

func (w *probe) outcome(o Outcome, pos token.Pos) {
	p := o.Path
	bad := func(f string, a ...any) { w.fail("answers truly", p, pos, f, a...) }
	if !p.Has("reply") || p.Has("reply2") {
		bad("a request gets not exactly one answer")
		return
	}
	if r := p.Vars["result"]; r != nil && len(o.Res) == 1 && o.Res[0].key != r.key {
		bad("the handler returns %v, not what answering returned", o.Res[0])
	}
	st := statusOf(p)
	body := orNil(p.Vars["body"]).unbox()
	if w.route == "GET /v1/cache/keys" {
		w.page(p, pos, st, body)
		return
	}
	if w.route == "GET /v1/me/can" {
		q := p.Vars["q:capability"]
		if q == nil {
			w.fail("served", p, pos, "the capability is not read from the request")
			return
		}
		known, all := false, true
		for _, s := range []string{"read", "write", "admin"} {
			d := p.Decide(eq(q, tStr("cache."+s)))
			known = known || d == yes
			all = all && (d == no || p.Decide(eq(q, tStr(""))) == yes)
		}
		if !known {
			if st != 400 || !all {
				w.fail("refuses what it cannot read", p, pos, "a capability outside the closed set is answered with %d", st)
			}
			return
		}
		if st == 400 {
			w.fail("refuses what it cannot read", p, pos, "a known capability is refused")
			return
		}
	}
	id := p.Vars["id"]
	if id == nil {
		if l := p.Vars["isid"]; l == nil || p.Decide(l) != no || st != 500 {
			bad("without a look at the identity the gate left, %s answers %d", w.route, st)
		}
		return
	}
	if st != 200 {
		bad("a resolved identity is answered with %d", st)
		return
	}
	of := func(t *Term, name string) bool {
		return t.isCall("pkg/httpauth.(Identity)."+name) && t.callArgs()[0].key == id.key
	}
	if w.route == "GET /v1/me" {
		if v := orNil(valField(w.x, body, "ID")); v.key != orNil(valField(w.x, id, "ID")).key {
			bad("the caller is named %v", v)
		}
		if v := orNil(valField(w.x, body, "Scopes")); !w.list.result(p, v) {
			bad("the scopes shown are %v, not all of the identity's in order", v)
		}
		if v := orNil(valField(w.x, body, "Capabilities")); !of(v, "Capabilities") {
			bad("the capabilities shown are %v", v)
		}
		return
	}
	q := p.Vars["q:capability"]
	if v := orNil(valField(w.x, body, "Capability")); v.key != q.key && !(p.Decide(eq(q, v)) == yes) {
		bad("the answer is about %v", v)
	}
	v := orNil(valField(w.x, body, "Allowed"))
	if of(v, "HasCapability") && v.callArgs()[1].key == q.key {
		return
	}
	if strings.HasSuffix(v.name, "slices.Contains") && len(v.callArgs()) == 2 && of(v.callArgs()[0], "Capabilities") && v.callArgs()[1].key == q.key {
		return
	}
	bad("whether it is allowed is %v", v)
}

// page: the answer to a listing.
func (w *probe) page(p *Path, pos token.Pos, st int64, body *Term) {
	bad := func(f string, a ...any) { w.fail("answers truly", p, pos, f, a...) }
	did := p.Vars["did"]
	if did == nil {
		if !w.refused(p) {
			w.fail("refuses what it cannot read", p, pos, "a well-formed listing is answered without listing")
		} else if st != 400 {
			w.fail("refuses what it cannot read", p, pos, "a malformed listing is answered with %d", st)
		}
		return
	}
	res, err := resAt(did, 0), resAt(did, 1)
	if p.KnownNonNil(err) {
		if st != 400 {
			bad("a failed listing is answered with %d", st)
		}
		return
	}
	if !p.KnownNil(err) {
		bad("the listing is answered without a look at its error")
		return
	}
	if p.KnownNil(res) {
		if st != 501 {
			bad("a node that cannot list is answered with %d", st)
		}
		return
	}
	if st != 200 {
		bad("a listing is answered with %d", st)
		return
	}
	keys := orNil(w.x.fieldByName(p, res, "Keys"))
	total := lenOf(keys)
	if v := orNil(valField(w.x, body, "TotalMatched")); !sameNum(p, v, total) {
		bad("the total is %v", v)
	}
	for _, f := range []string{"Truncated", "PartialNodes"} {
		if v := orNil(valField(w.x, body, f)); v.key != orNil(w.x.fieldByName(p, res, f)).key {
			bad("%s is %v, not the listing's", f, v)
		}
	}
	if v := orNil(valField(w.x, body, "Node")); !v.isLoadOf("nodeContext.nodeID") {
		bad("the answering node is %v", v)
	}
	pg := orNil(valField(w.x, body, "Keys"))
	if pg.op != "slice" || len(pg.args) < 3 || pg.args[0].key != keys.key {
		bad("the page is %v, not a stretch of the listing", pg)
		return
	}
	cursor := tInt(0)
	q := p.Vars["q:cursor"]
	switch {
	case q == nil:
		bad("the cursor is not looked at")
		return
	case p.Decide(eq(q, tStr(""))) != yes:
		if cursor, _ = w.number(p, "cursor"); cursor == nil {
			bad("the cursor is not read as a number")
			return
		}
	}
	start, end := pg.args[1], pg.args[2]
	if start.op == "none" {
		start = tInt(0)
	}
	if end.op == "none" {
		end = total
	}
	if !isMinOf(p, start, cursor, total) && !(isConstInt(start, 0) && isConstInt(cursor, 0)) {
		bad("the page starts at %v", start)
	}
	// the limit is what was added to the start
	limit := w.limit(p)
	if limit == nil {
		bad("the limit is not looked at")
		return
	}
	ok := false
	for _, l := range limit {
		for _, sum := range []*Term{w.x.arith(token.ADD, start, l, total.typ, false), w.x.arith(token.ADD, l, start, total.typ, false)} {
			ok = ok || isMinOf(p, end, sum, total)
		}
	}
	if !ok {
		bad("the page ends at %v", end)
	}
	next := orNil(valField(w.x, body, "NextCursor"))
	switch more := p.Decide(lt(end, total)); {
	case more == yes:
		if next.op != "pcall" && next.op != "call" || !strings.HasPrefix(next.name, "strconv.") || !sameNum(p, next.callArgs()[0], end) {
			bad("keys remain, but the next cursor is %v", next)
		}
	case more == no:
		if s, ok := next.strConst(); !ok || s != "" {
			bad("no key remains, but the next cursor is %v", next)
		}
	default:
		bad("the next cursor is set without a look at whether keys remain")
	}
}

// limit: what the limit parameter may stand for on this path.
func (w *probe) limit(p *Path) []*Term {
	q := p.Vars["q:limit"]
	if q == nil {
		return nil
	}
	if p.Decide(eq(q, tStr(""))) == yes {
		return []*Term{tInt(100)}
	}
	v, _ := w.number(p, "limit")
	if v == nil {
		return nil
	}
	out := []*Term{mk(&Term{op: "pcall", name: "builtin.min", args: []*Term{v, tInt(500)}, typ: tInt(0).typ}), mk(&Term{op: "pcall", name: "builtin.min", args: []*Term{tInt(500), v}, typ: tInt(0).typ})}
	if p.Decide(lt(tInt(500), v)) == no {
		out = append(out, v)
	}
	if p.Decide(lt(v, tInt(500))) == no {
		out = append(out, tInt(500))
	}
	return out
}
