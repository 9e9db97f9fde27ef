package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for the HTTP servers: which routes exist, what stands in front of
// their handlers, and what the handlers do.

func init() {
	register(&Property{ID: "H01", Level: "proof", Run: func(c *Ctx) { runHTTP(c, "H01") }, MinObl: 20,
		Explain: "All paths of the dist HTTP server's start with every handler it registers run on an arbitrary request, and of the policy's own methods.",
		Assume:  []string{"fiber calls the handler registered for a method and path", "the custom verify function, when given, decides as its operator means it to"}})
	register(&Property{ID: "H02", Level: "proof", Run: func(c *Ctx) { runHTTP(c, "H02") }, MinObl: 20,
		Explain: "All paths of every handler of the dist HTTP server, run on an arbitrary request under a policy that lets it through.",
		Assume:  []string{"fiber calls the handler registered for a method and path", "json.Unmarshal fills the request as documented"}})
}

const (
	fiberPkg  = "github.com/gofiber/fiber/v3."
	fiberApp  = fiberPkg + "(*App)."
	fiberRtr  = fiberPkg + "Router."
	fiberCtx  = fiberPkg + "Ctx."
	distSrv   = "distHTTPServer"
	jsonUnm   = "github.com/goccy/go-json.Unmarshal"
	collectFn = relBackend + ".collectShardKeys"
	ctCompare = "crypto/subtle.ConstantTimeCompare"
)

var routeVerbs = map[string]string{"Get": "GET", "Post": "POST", "Put": "PUT", "Delete": "DELETE", "Head": "HEAD", "Patch": "PATCH", "Options": "OPTIONS",
	"Connect": "CONNECT", "Trace": "TRACE", "All": "*", "Add": "?", "Use": "*"}

type routeReg struct {
	method, path string
	handlers     []*Term
	known        bool
}

// routeOf: this call registers a route.
func routeOf(x *Engine, p *Path, e *Event) (routeReg, bool) {
	if e.Kind != "precall" {
		return routeReg{}, false
	}
	name, ok := strings.CutPrefix(e.Name, fiberApp)
	if !ok {
		name, ok = strings.CutPrefix(e.Name, fiberRtr)
	}
	if !ok || routeVerbs[name] == "" {
		return routeReg{}, false
	}
	r := routeReg{method: routeVerbs[name], known: true}
	rest := e.Args[1:]
	if name == "Add" || name == "Use" {
		r.known = false
	} else if s, ok := rest[0].strConst(); ok {
		pre, ok := groupPrefix(e.Args[0])
		r.path, r.known = pre+s, ok
		rest = rest[1:]
	} else {
		r.known = false
	}
	for i, a := range rest {
		if i == len(rest)-1 && name != "Use" && i > 0 {
			for _, h := range elemsOf(x, p, a) {
				r.handlers = append(r.handlers, h.unbox())
			}
			break
		}
		r.handlers = append(r.handlers, a.unbox())
	}
	return r, true
}

func groupPrefix(t *Term) (string, bool) {
	t = t.unbox()
	for _, n := range []string{fiberApp + "Group", fiberRtr + "Group"} {
		if t.isCall(n) {
			s, ok := t.callArgs()[1].strConst()
			pre, ok2 := groupPrefix(t.callArgs()[0])
			return pre + s, ok && ok2
		}
	}
	return "", true
}

// registersRoutes: the functions of a package that register a route.
func (c *Ctx) registersRoutes(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != strings.TrimSuffix(modPath+"/"+rel, "/") {
			continue
		}
	next:
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if g := ci.Common().StaticCallee(); g != nil {
					n = calleeName(g)
				} else if ci.Common().IsInvoke() {
					n = typeStr(ci.Common().Value.Type()) + "." + ci.Common().Method.Name()
				}
				for v := range routeVerbs {
					if n == fiberApp+v || n == fiberRtr+v || n == fiberApp+"Route" {
						out = append(out, f)
						break next
					}
				}
			}
		}
	}
	return out
}

// reply follows what a handler answers.
func reply(p *Path, e *Event, ctx *Term) {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, fiberCtx) || len(e.Args) == 0 {
		return
	}
	switch n := strings.TrimPrefix(e.Name, fiberCtx); n {
	case "Status":
		setVar(p, "status", e.Args[1])
	case "JSON", "SendString", "SendStatus", "Send", "SendStream", "SendStreamWriter", "JSONP", "XML", "Render", "SendFile", "CBOR":
		if p.Has("reply") {
			p.Set("reply2")
		}
		p.Set("reply")
		setVar(p, "kind", mkConstStr(n))
		if n == "SendStatus" {
			setVar(p, "status", e.Args[1])
		} else {
			setVar(p, "body", e.Args[1])
		}
		if e.Res != nil {
			setVar(p, "result", e.Res)
		}
	}
}

// isReply: this call answers the request.
func isReply(n string) bool {
	n, ok := strings.CutPrefix(n, fiberCtx)
	if !ok {
		return false
	}
	switch n {
	case "JSON", "SendString", "SendStatus", "Send", "SendStream", "SendStreamWriter", "JSONP", "XML", "Render", "SendFile", "CBOR", "Redirect", "Next":
		return true
	}
	return false
}

func statusOf(p *Path) int64 {
	if s := p.Vars["status"]; s != nil {
		if n, ok := s.intConst(); ok {
			return n
		}
		return -1
	}
	return 200
}

func mkConstStr(s string) *Term { return mk(&Term{op: "tag", name: s}) }

func fiberCtxTerm(c *Ctx) *Term {
	for _, f := range c.P.Funcs {
		for _, q := range f.Params {
			if typeStr(q.Type()) == fiberPkg+"Ctx" {
				return mk(&Term{op: "param", name: "fctx", typ: q.Type()})
			}
		}
	}
	return mk(&Term{op: "param", name: "fctx"})
}

// distRoutes: the routes peers and operators use, and the rule for each.
var distRoutes = map[string]string{
	"POST /internal/cache/set": "set", "POST /internal/set": "set",
	"GET /internal/cache/get": "get", "GET /internal/get": "get",
	"DELETE /internal/cache/remove": "remove", "DELETE /internal/del": "remove",
	"GET /health": "health", "POST /dist/drain": "drain", "GET /internal/probe": "probe",
	"POST /internal/gossip": "gossip", "GET /internal/merkle": "merkle", "GET /internal/keys": "keys",
}

type httpWatch struct {
	c     *Ctx
	x     *Engine
	prop  string
	ctx   *Term // the request
	srv   *Term
	dm    *Term
	route string
	what  string
}

func (w *httpWatch) fail(prop, key string, p *Path, pos token.Pos, f string, a ...any) {
	if prop == w.prop {
		w.c.Fail(key, pos, p.Trace(), f, a...)
	}
}

func isAuthField(t *Term, f string) bool { return t != nil && t.isLoadOf("DistHTTPAuth."+f) }

// gateState: what the path knows of the inbound policy.
func (w *httpWatch) gateState(p *Path) (configured, open bool) {
	tok, sv := p.Vars["tok"], p.Vars["sv"]
	if sv != nil && p.KnownNonNil(sv) || tok != nil && p.Decide(eq(tok, tStr(""))) == no {
		return true, false
	}
	return false, sv != nil && p.KnownNil(sv) && tok != nil && p.Decide(eq(tok, tStr(""))) == yes
}

func (w *httpWatch) authLoad(p *Path, e *Event) {
	if e.Kind != "branch" {
		return
	}
	v, truth := e.Val, e.Truth
	for v.op == "not" {
		v, truth = v.args[0], !truth
	}
	if noTransport(v, truth) {
		p.Set("no transport")
	}
	e.Val.any(func(t *Term) bool {
		if t.isCall("sync/atomic.(*Bool).Load") && t.callArgs()[0].isFieldAddr(dmT+".draining") {
			setVar(p, "draining", t)
		}
		if t.isCall("errors.Is") && p.Vars["did"] != nil && t.callArgs()[0].key == p.Vars["did"].key && t.callArgs()[1].any(isNotFoundErr) {
			setVar(p, "is", t)
		}
		if t.isLoadOf(dmT + ".shards") {
			setVar(p, "shards", t)
		}
		if isAuthField(t, "Token") {
			setVar(p, "tok", t)
		}
		if isAuthField(t, "ServerVerify") {
			setVar(p, "sv", t)
		}
		return false
	})
}

// passed: the request has been admitted by the policy in force.
func (w *httpWatch) passed(p *Path) bool {
	if v := p.Vars["verdict"]; v != nil {
		return p.KnownNil(v)
	}
	sv := p.Vars["sv"]
	if cmp := p.Vars["cmp"]; cmp != nil && p.Decide(eq(cmp, tInt(1))) == yes {
		return sv != nil && p.KnownNil(sv)
	}
	return false
}

func (w *httpWatch) refused(p *Path) bool {
	if v := p.Vars["verdict"]; v != nil {
		return p.KnownNonNil(v)
	}
	if cmp := p.Vars["cmp"]; cmp != nil {
		return p.Decide(eq(cmp, tInt(1))) == no
	}
	return false
}

// handlerEvent watches one handler at work.
func (w *httpWatch) handlerEvent(p *Path, e *Event) {
	w.authLoad(p, e)
	reply(p, e, w.ctx)
	switch e.Kind {
	case "call":
		switch {
		case strings.HasPrefix(e.Name, "dyn:") && isAuthField(e.Addr, "ServerVerify"):
			if len(e.Args) == 0 || e.Args[len(e.Args)-1].unbox().key != w.ctx.key {
				w.fail("H01", "the policy sees the request: "+w.route, p, e.Pos(), "the verifier is given %v", termList(e.Args))
			}
			setVar(p, "verdict", e.Res)
		case e.Name == ctCompare:
			if ok, why := bearerCompare(p, e.Args, w.ctx); ok {
				setVar(p, "cmp", e.Res)
			} else {
				w.fail("H01", "the token is compared whole: "+w.route, p, e.Pos(), "the comparison is between %s", why)
			}
		}
	case "precall":
		cfgd, _ := w.gateState(p)
		open := !cfgd
		if isReply(e.Name) {
			st := statusOf(p)
			if e.Name == fiberCtx+"SendStatus" {
				st, _ = e.Args[1].intConst()
			}
			if !open && !w.passed(p) && st != 401 {
				w.fail("H01", "gated: "+w.route, p, e.Pos(), "%s is answered with %d although the policy did not admit the request", w.route, st)
			}
			if st == 401 && (open || w.passed(p) || !w.refused(p)) {
				w.fail("H01", "admitted requests are served: "+w.route, p, e.Pos(), "%s refuses a request the policy admits", w.route)
			}
			break
		}
		if e.Fn != nil && inModule(e.Fn) && touchesNode(e) || isTransport(e.Recv()) {
			if !open && !w.passed(p) {
				w.fail("H01", "gated: "+w.route, p, e.Pos(), "%s reaches %s before the policy admitted the request", w.route, e.Name)
			}
		}
		if w.prop == "H02" && (open || w.passed(p)) {
			w.effect(p, e)
		}
	case "mapupdate":
		if k, ok := e.Args[1].strConst(); ok {
			setVar(p, "m:"+k, e.Args[2])
		}
	}
	if w.prop == "H02" && e.Kind == "call" {
		w.result(p, e)
	}
}

func (e *Event) Recv() *Term {
	if len(e.Args) > 0 {
		return e.Args[0]
	}
	return nil
}

// touchesNode: the call is made on the node (or is one of its functions).
func touchesNode(e *Event) bool {
	n := calleeName(e.Fn)
	return strings.HasPrefix(n, relBackend+".(*"+dmT+").") || strings.HasPrefix(n, cmapT+".")
}

// bearerCompare: the whole header is compared with "Bearer " and the token.
func bearerCompare(p *Path, args []*Term, ctx *Term) (bool, string) {
	hdr, want := args[0].strip(), args[1].strip()
	if isBearer(hdr) {
		hdr, want = want, hdr
	}
	h := hdr.isCall(fiberGet) && hdr.callArgs()[0].unbox().key == ctx.key && len(hdr.callArgs()) > 1 && strings.EqualFold(strOf(hdr.callArgs()[1]), "Authorization")
	return h && isBearer(want), short(args[0]) + " and " + short(args[1])
}

func strOf(t *Term) string { s, _ := t.strConst(); return s }

func isBearer(t *Term) bool {
	ps := concat(t)
	return len(ps) == 2 && strOf(ps[0]) == "Bearer " && isAuthField(ps[1], "Token")
}

func httpOpaque() func(f *ssa.Function) bool {
	names := map[string]bool{}
	for _, n := range []string{"applyForwardedSet", "applyRemove", "Drain", "acceptGossip", "BuildMerkleTree", "lookupOwners", "hashKey"} {
		names[relBackend+".(*"+dmT+")."+n] = true
	}
	names[relBackend+".gossipMembersToNodes"] = true
	names[relBackend+".buildKeyMatcher"] = true
	names[collectFn] = true
	names[relBackend+".(*"+distSrv+").listen"] = true
	return func(f *ssa.Function) bool {
		n := calleeName(f)
		return names[n] || strings.HasPrefix(n, cmapT+".")
	}
}

func runHTTP(c *Ctx, prop string) {
	start := c.NeedM(relBackend, distSrv, "start")
	if start == nil {
		return
	}
	x := newEngine(c.P, start)
	x.NoInline = httpOpaque()
	ctx := fiberCtxTerm(c)
	want := sortedKeys(distRoutes)
	for _, r := range want {
		if prop == "H01" {
			for _, k := range []string{"gated: ", "the policy sees the request: ", "the token is compared whole: ", "admitted requests are served: "} {
				c.Oblige(k + r)
			}
		} else {
			for _, k := range []string{"served: ", "does what it says: ", "answers truly: "} {
				c.Oblige(k + r)
			}
		}
	}
	c.Oblige("only known routes")
	c.Oblige("every route is there before the port opens")
	srv, dm := rootParam(start, 0), rootParam(start, 2)
	runs := 0
	var on func(p *Path, e *Event)
	on = func(p *Path, e *Event) {
		w := &httpWatch{c: c, x: x, prop: prop, ctx: ctx, srv: srv, dm: dm}
		w.authLoad(p, e)
		if e.Kind == "precall" && e.Name == relBackend+".(*"+distSrv+").listen" {
			for _, r := range want {
				if !p.Has("route:" + r) {
					c.Fail("every route is there before the port opens", e.Pos(), p.Trace(), "%s is not registered when the server starts listening", r)
				}
			}
		}
		r, ok := routeOf(x, p, e)
		if !ok {
			return
		}
		w.route = r.method + " " + r.path
		w.what = distRoutes[w.route]
		if !r.known || w.what == "" {
			c.Fail("only known routes", e.Pos(), p.Trace(), "%s %s is registered, which no rule covers", r.method, r.path)
			return
		}
		p.Set("route:" + w.route)
		if len(r.handlers) != 1 {
			c.Fail("only known routes", e.Pos(), p.Trace(), "%s has %d handlers", w.route, len(r.handlers))
			return
		}
		q := p.fork()
		w.init(q)
		outs := evalEvents(x, q, r.handlers[0], []*Term{ctx}, w.handlerEvent)
		if outs == nil {
			c.Fail("only known routes", e.Pos(), p.Trace(), "the handler of %s cannot be followed", w.route)
		}
		for _, o := range outs {
			runs++
			w.outcome(o, e.Pos())
		}
	}
	x.OnEvent = on
	c.Explore(x, func(p *Path, _ []*Term) {
		// The lifetime is set before the server starts: see the wiring.
		p.Assume(eq(x.fieldByName(p, srv, "ctx"), tNil), false)
	})
	c.Check("handlers followed", runs > 0, start.Pos(), "no handler could be followed")
	for _, f := range c.registersRoutes(relBackend) {
		c.Check("no route is registered elsewhere", x.Fns[f], f.Pos(), "%s registers a route outside the server's start", calleeName(f))
	}
	for g := range x.Fns {
		c.Fns[g.String()] = true
	}
	c.Paths += runs
	if prop == "H01" {
		c.distPolicy()
		c.distServerWiring()
	} else {
		c.distServerLimits()
	}
}

func (w *httpWatch) init(p *Path) {
	for k := range p.Vars {
		if k != "tok" && k != "sv" {
			delete(p.Vars, k)
		}
	}
}

func (w *httpWatch) outcome(o Outcome, pos token.Pos) {
	p := o.Path
	cfgd, _ := w.gateState(p)
	if cfgd && !w.passed(p) {
		if !p.Has("reply") || statusOf(p) != 401 {
			w.fail("H01", "gated: "+w.route, p, pos, "a request the policy did not admit gets no 401 from %s", w.route)
		}
		return
	}
	if p.Has("reply") && statusOf(p) == 401 {
		return
	}
	if w.prop == "H02" {
		w.served(p, pos, o.Res)
	}
}

// effect watches what the handler does to the node.
func (w *httpWatch) effect(p *Path, e *Event) {
	bad := func(f string, a ...any) { w.fail("H02", "does what it says: "+w.route, p, e.Pos(), f, a...) }
	method := ""
	if e.Fn != nil {
		method = strings.TrimPrefix(calleeName(e.Fn), relBackend+".(*"+dmT+").")
	}
	once := func(what string) bool {
		if w.what != what {
			bad("%s calls %s", w.route, method)
			return false
		}
		if p.Has("done") {
			bad("%s does its work twice", w.route)
		}
		p.Set("done")
		return true
	}
	life := func(t *Term) {
		if !t.isLoadOf(distSrv+".ctx") || loadBase(t).key != w.srv.key {
			bad("%s works under %s instead of the server's lifetime", w.route, short(t))
		}
	}
	switch {
	case method == "applyForwardedSet":
		if !once("set") {
			return
		}
		life(e.Args[1])
		req := p.Vars["req"]
		if err := p.Vars["unmarshal"]; req == nil || !p.KnownNil(err) {
			bad("a body that was not decoded is stored")
			return
		}
		it := e.Args[2]
		for _, f := range []string{"Key", "Value", "Version", "Origin"} {
			if a, b := itemField(p, it, f), w.x.fieldByName(p, req, f); !p.sameVal(a, b) {
				bad("the stored item's %s is %s, not the request's", f, short(a))
			}
		}
		if ex := itemField(p, it, "Expiration"); !isMillis(ex, w.x.fieldByName(p, req, "Expiration")) {
			bad("the stored item's Expiration is %s, not the request's milliseconds", short(ex))
		}
		if !p.sameVal(e.Args[3], w.x.fieldByName(p, req, "Replicate")) {
			bad("the request's replicate flag becomes %s", short(e.Args[3]))
		}
	case method == "applyRemove":
		if !once("remove") {
			return
		}
		life(e.Args[1])
		if !w.isKeyParam(p, e.Args[2]) {
			bad("the removed key is %s", short(e.Args[2]))
		}
		if t := e.Args[3]; !t.any(func(u *Term) bool {
			return u.isCall("strconv.ParseBool") && isQuery(u.callArgs()[0], "replicate", w.ctx)
		}) || t.op == "not" {
			bad("the request's replicate flag becomes %s", short(t))
		}
		if er := p.Vars["parsebool"]; er == nil || !p.KnownNil(er) {
			bad("a removal whose flags did not parse is done")
		}
	case method == "Drain":
		if once("drain") {
			life(e.Args[1])
		}
	case method == "acceptGossip":
		if !once("gossip") {
			return
		}
		if err := p.Vars["unmarshal"]; err == nil || !p.KnownNil(err) {
			bad("a body that was not decoded is merged")
		}
		if t := e.Args[1]; !t.isCall(relBackend+".gossipMembersToNodes") || p.Vars["req"] == nil || p.Vars["members"] == nil || p.Vars["members"].key != t.key {
			bad("%s is merged instead of the request's members", short(t))
		}
	case e.Fn != nil && calleeName(e.Fn) == relBackend+".gossipMembersToNodes":
		if req := p.Vars["req"]; req == nil || !p.sameVal(e.Args[0], w.x.Load(p, req, derefT(req.typ))) {
			bad("%s is decoded instead of the request's members", short(e.Args[0]))
		} else {
			p.Set("members")
		}
	case method == "BuildMerkleTree":
		once("merkle")
	case isTransport(e.Recv()) && strings.HasSuffix(e.Name, ".Health"):
		if !once("probe") {
			return
		}
		life(e.Args[1])
		if !isQuery(e.Args[2], "target", w.ctx) || p.Decide(eq(e.Args[2], tStr(""))) != no {
			bad("%s is probed instead of the target", short(e.Args[2]))
		}
	case e.Name == collectFn:
		if !once("keys") {
			return
		}
		sh := e.Args[0]
		i, ok := shardIndex(sh)
		if !ok || w.dm.key != loadBase(shardsOf(sh)).key || !sameNum(p, i, w.cursor(p)) {
			bad("%s lists %s instead of the shard the cursor names", w.route, short(sh))
		} else if p.Decide(lt(i, lenOf(shardsOf(sh)))) != yes {
			bad("%s takes a shard the cursor may lie beyond: it panics", w.route)
		}
		if !sameNum(p, e.Args[1], w.number(p, "limit")) {
			bad("the limit becomes %s", short(e.Args[1]))
		}
		if m := p.Vars["matcher"]; m == nil || !p.sameVal(e.Args[2], resAt(m, 0)) {
			bad("the keys are filtered with %s", short(e.Args[2]))
		}
	case e.Fn != nil && calleeName(e.Fn) == relBackend+".buildKeyMatcher":
		if !isQuery(e.Args[0], "q", w.ctx) {
			bad("the filter is built from %s", short(e.Args[0]))
		}
	case isTransport(e.Recv()):
		bad("%s calls %s", w.route, e.Name)
	case e.Fn != nil && strings.HasPrefix(calleeName(e.Fn), cmapT+"."):
		m := strings.TrimPrefix(calleeName(e.Fn), cmapT+".")
		switch {
		case w.what == "get" && m == "Get":
			if !w.isKeyParam(p, e.Args[1]) || !keyedShard(e.Args[0], nil) {
				bad("%s looks up %s", w.route, short(e.Args[1]))
			}
			if p.Vars["owners"] == nil || p.Decide(eq(lenOf(p.Vars["owners"]), tInt(0))) != no {
				bad("a key with no owners is read")
			}
		default:
			bad("%s calls %s on a shard", w.route, m)
		}
	}
}

func isMillis(t, ms *Term) bool {
	if t == nil || ms == nil || t.op != "bin" || t.name != "*" {
		return false
	}
	a, b := stripConv(t.args[0]), stripConv(t.args[1])
	if _, ok := a.intConst(); ok {
		a, b = b, a
	}
	n, ok := b.intConst()
	return ok && n == 1000000 && a.key == stripConv(ms).key
}

// isQuery: the named query parameter of the request.
func isQuery(t *Term, name string, ctx *Term) bool {
	t = t.unbox()
	return t != nil && t.isCall(fiberCtx+"Query") && t.callArgs()[0].unbox().key == ctx.key && strOf(t.callArgs()[1]) == name
}

func (w *httpWatch) isKeyParam(p *Path, t *Term) bool {
	return isQuery(t, "key", w.ctx) && p.Decide(eq(t, tStr(""))) == no
}

// result remembers what the calls returned.
func (w *httpWatch) result(p *Path, e *Event) {
	switch {
	case e.Name == jsonUnm || e.Name == "encoding/json.Unmarshal":
		if !e.Args[0].strip().isCall(fiberCtx+"Body") || e.Args[0].strip().callArgs()[0].unbox().key != w.ctx.key {
			w.fail("H02", "does what it says: "+w.route, p, e.Pos(), "%s is decoded instead of the request's body", short(e.Args[0]))
		}
		setVar(p, "req", e.Args[1].unbox())
		setVar(p, "unmarshal", e.Res)
	case e.Name == "strconv.ParseBool":
		setVar(p, "parsebool", resAt(e.Res, 1))
	case e.Name == lookupFn || strings.HasSuffix(e.Name, "(*"+dmT+").lookupOwners"):
		setVar(p, "owners", e.Res)
	case strings.HasSuffix(e.Name, "(*"+dmT+").Drain") || strings.HasSuffix(e.Name, "(*"+dmT+").BuildMerkleTree"):
		setVar(p, "did", e.Res)
	case e.Name == relBackend+".gossipMembersToNodes":
		setVar(p, "members", e.Res)
	case isTransport(e.Recv()) && strings.HasSuffix(e.Name, ".Health"):
		setVar(p, "did", e.Res)
	case e.Name == cmapT+".Get":
		setVar(p, "found", e.Res)
	case e.Name == fiberCtx+"Query":
		if n := strOf(e.Args[1]); n != "" {
			setVar(p, "q:"+n, e.Res)
		}
	case e.Name == "strconv.Atoi":
		for _, n := range []string{"cursor", "limit"} {
			if isQuery(e.Args[0], n, w.ctx) {
				setVar(p, "atoi:"+n, e.Res)
			}
		}
	case e.Name == collectFn:
		setVar(p, "collected", e.Res)
	case e.Name == relBackend+".buildKeyMatcher":
		setVar(p, "matcher", e.Res)
	}
}

func isEmptyStr(p *Path, t *Term, want int) bool {
	return t != nil && p.Decide(eq(t, tStr(""))) == want
}

// served judges the answer to an admitted request.
func (w *httpWatch) served(p *Path, pos token.Pos, res []*Term) {
	bad := func(f string, a ...any) { w.fail("H02", "answers truly: "+w.route, p, pos, f, a...) }
	if !p.Has("reply") {
		w.fail("H02", "served: "+w.route, p, pos, "%s is not answered", w.route)
		return
	}
	if p.Has("reply2") {
		w.fail("H02", "served: "+w.route, p, pos, "%s is answered twice", w.route)
	}
	st := statusOf(p)
	done := p.Has("done")
	body := p.Vars["body"]
	need := func(cond bool, want int64, why string) bool {
		if cond && st != want {
			bad("%s answers %d when %s", w.route, st, why)
		}
		return cond
	}
	undone := func() {
		if done {
			w.fail("H02", "does what it says: "+w.route, p, pos, "%s is answered %d but was done", w.route, st)
		}
	}
	switch w.what {
	case "set", "gossip":
		if er := p.Vars["unmarshal"]; er == nil || !p.KnownNil(er) {
			need(true, 400, "its body does not decode")
			undone()
			return
		}
		need(true, 200, "it is well-formed")
		if !done {
			w.fail("H02", "does what it says: "+w.route, p, pos, "%s answers without doing anything", w.route)
		}
	case "remove":
		if st == 200 && !done {
			w.fail("H02", "does what it says: "+w.route, p, pos, "%s answers 200 without removing", w.route)
		}
		if done {
			need(true, 200, "the key was removed")
		} else if st != 400 {
			bad("%s answers %d to a malformed request", w.route, st)
		} else if er := p.Vars["parsebool"]; !w.keyEmpty(p) && (er == nil || !p.KnownNonNil(er)) {
			bad("%s refuses a well-formed request", w.route)
		}
	case "get":
		switch {
		case w.keyEmpty(p):
			need(true, 400, "there is no key")
		case p.Vars["owners"] != nil && p.Decide(eq(lenOf(p.Vars["owners"]), tInt(0))) == yes:
			need(true, 404, "the key has no owners")
		default:
			need(true, 200, "the key was looked up")
			f := p.Vars["found"]
			if f == nil {
				bad("%s answers 200 without a lookup", w.route)
				return
			}
			ok := boolKnown(p, resAt(f, 1))
			fd := boolKnown(p, valField(w.x, body.unbox(), "Found"))
			if ok == unknown || fd != ok {
				bad("%s answers found=%v for a lookup that said %v", w.route, fd, ok)
			}
			it := valField(w.x, body.unbox(), "Item")
			if ok == yes && !p.sameVal(it, resAt(f, 0)) {
				bad("%s answers with %s instead of the item found", w.route, short(it))
			}
			if ok == no && it != nil && !it.isNil() {
				bad("%s answers with an item although there is none", w.route)
			}
		}
	case "health":
		dr := p.Vars["draining"]
		switch {
		case dr == nil:
			bad("%s does not look at whether the node is draining", w.route)
		case p.IsTrue(dr):
			need(true, 503, "the node is draining")
		default:
			need(true, 200, "the node is not draining")
		}
	case "drain":
		if d := p.Vars["did"]; !done || d == nil {
			w.fail("H02", "does what it says: "+w.route, p, pos, "%s answers without draining", w.route)
		} else if p.KnownNil(d) {
			need(true, 200, "the node drains")
		} else {
			need(true, 500, "draining failed")
		}
	case "probe":
		d := p.Vars["did"]
		switch {
		case !done && st == 400:
			if t := p.Vars["q:target"]; t == nil || !isEmptyStr(p, t, yes) {
				bad("%s refuses a request that names a target", w.route)
			}
		case !done:
			need(true, 503, "there is no transport")
			if !p.Has("no transport") {
				bad("%s probes nobody although there is a transport", w.route)
			}
		case d != nil && p.KnownNil(d):
			need(true, 200, "the target answers")
		case p.Vars["is"] != nil && p.IsTrue(p.Vars["is"]):
			need(true, 404, "the target is unknown")
		default:
			need(true, 502, "the probe failed")
		}
	case "merkle":
		need(true, 200, "asked")
		tree := p.Vars["did"]
		for k, f := range map[string]string{"root": "Root", "leaf_hashes": "LeafHashes", "chunk_size": "ChunkSize"} {
			v := p.Vars["m:"+k]
			if tree == nil || v == nil || !p.sameVal(v.unbox(), w.x.fieldByName(p, tree, f)) {
				bad("%q is not the tree's %s", k, f)
			}
		}
	case "keys":
		w.servedKeys(p, pos, st)
	}
}

func (w *httpWatch) keyEmpty(p *Path) bool {
	k := p.Vars["q:key"]
	return k != nil && isEmptyStr(p, k, yes)
}

func boolKnown(p *Path, t *Term) int {
	if t == nil {
		return no
	}
	b, ok := boolOf(p, t)
	if !ok {
		return unknown
	}
	if b {
		return yes
	}
	return no
}

func shardsOf(t *Term) *Term {
	if t.op == "load" && t.args[0].op == "idx" {
		return t.args[0].args[0]
	}
	return nil
}

// shardIndex: t is the shard at some index of the node's shards.
func shardIndex(t *Term) (*Term, bool) {
	l := shardsOf(t)
	if l == nil || !l.isLoadOf(dmT+".shards") {
		return nil, false
	}
	return t.args[0].args[1], true
}

// number: the value of a numeric parameter (zero when it is not given).
func (w *httpWatch) number(p *Path, n string) *Term {
	if a := p.Vars["atoi:"+n]; a != nil {
		return resAt(a, 0)
	}
	return tInt(0)
}

func (w *httpWatch) cursor(p *Path) *Term { return w.number(p, "cursor") }

// wellFormed: what the path knows of a numeric parameter.
func (w *httpWatch) wellFormed(p *Path, n string) int {
	a := p.Vars["atoi:"+n]
	if a == nil {
		if q := p.Vars["q:"+n]; q != nil && isEmptyStr(p, q, yes) {
			return yes
		}
		return unknown
	}
	switch {
	case p.KnownNonNil(resAt(a, 1)) || p.Decide(lt(resAt(a, 0), tInt(0))) == yes:
		return no
	case p.KnownNil(resAt(a, 1)) && p.Decide(lt(resAt(a, 0), tInt(0))) == no:
		return yes
	}
	return unknown
}

func (w *httpWatch) servedKeys(p *Path, pos token.Pos, st int64) {
	bad := func(f string, a ...any) { w.fail("H02", "answers truly: "+w.route, p, pos, f, a...) }
	cur, lim := w.wellFormed(p, "cursor"), w.wellFormed(p, "limit")
	m := p.Vars["matcher"]
	if st == 400 {
		if cur != no && lim != no && !(m != nil && p.KnownNonNil(resAt(m, 1))) {
			bad("%s refuses a well-formed request", w.route)
		}
		return
	}
	if st != 200 {
		bad("%s answers %d", w.route, st)
	}
	if cur != yes || lim != yes || m == nil || !p.KnownNil(resAt(m, 1)) {
		bad("%s serves a malformed request", w.route)
	}
	keys, next := p.Vars["m:keys"], p.Vars["m:next_cursor"]
	if keys == nil || next == nil {
		bad("the answer lacks keys or next_cursor")
		return
	}
	keys, next = keys.unbox(), next.unbox()
	shards := w.x.fieldByName(p, w.dm, "shards")
	cv := w.cursor(p)
	last := p.Decide(lt(addOne(cv), lenOf(shards)))
	col := p.Vars["collected"]
	nextIs := func(n *Term) bool {
		return next.isCall("strconv.Itoa") && sameNum(p, next.callArgs()[0], n)
	}
	if col == nil {
		if p.Decide(lt(cv, lenOf(shards))) == no {
			if strOf(next) != "" || next.op != "const" {
				bad("a cursor past the last shard is followed by %s", short(next))
			}
		} else if !nextIs(addOne(cv)) {
			bad("a shard is skipped and followed by %s", short(next))
		}
		return
	}
	if !p.sameVal(keys, resAt(col, 0)) {
		bad("the answer's keys are %s, not the shard's", short(keys))
	}
	tr := p.Vars["m:truncated"]
	if tr == nil || !p.sameVal(tr.unbox(), resAt(col, 1)) {
		bad("the answer's truncated flag is not the shard's")
	}
	switch t := p.Decide(resAt(col, 1)); {
	case t == yes:
		if !nextIs(cv) {
			bad("a shard cut short is followed by %s", short(next))
		}
	case t == no && last == yes:
		if !nextIs(addOne(cv)) {
			bad("shard n is followed by %s", short(next))
		}
	case t == no && last == no:
		if next.op != "const" || strOf(next) != "" {
			bad("the last shard is followed by %s", short(next))
		}
	default:
		bad("the next cursor does not depend on whether the shard was cut short and is the last")
	}
}

func addOne(t *Term) *Term {
	if n, ok := t.intConst(); ok {
		return tInt(n + 1)
	}
	return mk(&Term{op: "bin", name: "+", args: []*Term{t, tInt(1)}, typ: t.typ})
}

// collectRule: the keys of a shard are those the filter lets through, up to
// the limit, and a cut is reported.
func (c *Ctx) collectRule() {
	f := c.NeedF(relBackend, "collectShardKeys")
	if f == nil {
		return
	}
	const k = "keys of a shard"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return strings.HasPrefix(calleeName(g), cmapT+".") }
	limit, match := rootParam(f, 1), rootParam(f, 2)
	turns := 0
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "store" && e.Val != nil && isBoolT(e.Val.typ) && e.Val.key == tTrue.key {
			c.Fail(k, e.Pos(), p.Trace(), "the listing says it was cut although no key was left out")
		}
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "dyn:") || !e.Addr.isCall(cmapT+".All") || len(e.Args) != 1 {
			return
		}
		fn := e.Args[0].unbox()
		if b := e.Addr.callArgs()[0]; !b.isFieldAddr("distShard.items") {
			c.Fail(k, e.Pos(), p.Trace(), "the keys come from %s", short(b))
		}
		key := mk(&Term{op: "param", name: "k", typ: match.typ})
		if sg := fn.fn; sg != nil && len(sg.Params) > 0 {
			key = mk(&Term{op: "param", name: "k", typ: sg.Params[0].Type()})
		}
		args := []*Term{key}
		for i := 1; fn.fn != nil && i < len(fn.fn.Params); i++ {
			args = append(args, mk(&Term{op: "param", name: "v", typ: fn.fn.Params[i].Type()}))
		}
		for _, o := range evalEvents(x, p, fn, args, func(q *Path, ev *Event) {
			switch {
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn:") && ev.Addr.key == match.key:
				setVar(q, "m", ev.Res)
				if ev.Args[0].key != key.key {
					c.Fail(k, ev.Pos(), q.Trace(), "the filter is asked about %s", short(ev.Args[0]))
				}
			case ev.Kind == "append":
				if q.Has("added") {
					c.Fail(k, ev.Pos(), q.Trace(), "a key is added twice")
				}
				q.Set("added")
				setVar(q, "list", ev.Args[0])
				if m := q.Vars["m"]; m == nil || !q.IsTrue(m) {
					c.Fail(k, ev.Pos(), q.Trace(), "a key the filter did not let through is listed")
				}
				if q.Decide(lt(tInt(0), limit)) != no && q.Decide(lt(lenOf(ev.Args[0]), limit)) != yes {
					c.Fail(k, ev.Pos(), q.Trace(), "more keys than the limit are listed")
				}
				if es := ev.Args[1:]; len(es) != 1 || !anyElem(x, q, es[0], key) {
					c.Fail(k, ev.Pos(), q.Trace(), "something else than the key is listed")
				}
			case ev.Kind == "branch":
				ev.Val.any(func(t *Term) bool {
					if t.op == "len" && ev.Val.any(func(u *Term) bool { return u.key == limit.key }) {
						setVar(q, "len", t)
					}
					return false
				})
			case ev.Kind == "store" && isBoolT(ev.Val.typ) && ev.Val.key == tTrue.key:
				q.Set("cut")
				if n := q.Vars["len"]; n == nil || q.Decide(lt(n, limit)) != no {
					c.Fail(k, ev.Pos(), q.Trace(), "the listing says it was cut although there may be room for the key")
				}
			}
		}) {
			turns++
			q := o.Path
			m := q.Vars["m"]
			switch {
			case q.Has("added"):
				if len(o.Res) != 1 || !q.IsTrue(o.Res[0]) {
					c.Fail(k, e.Pos(), q.Trace(), "the listing stops after a key")
				}
			case m != nil && q.IsFalse(m):
				if !q.IsTrue(o.Res[0]) {
					c.Fail(k, e.Pos(), q.Trace(), "the listing stops at a key that does not match")
				}
			default:
				if !q.IsFalse(o.Res[0]) || !q.Has("cut") || q.Decide(lt(tInt(0), limit)) != yes {
					c.Fail(k, e.Pos(), q.Trace(), "a key that matches is left out, and the answer does not say that it was cut")
				}
			}
		}
	}
	c.Explore(x, nil)
	c.Check(k+": followed", turns > 0, f.Pos(), "the loop over the shard cannot be followed")
}

func anyElem(x *Engine, p *Path, l, want *Term) bool {
	if l.key == want.key {
		return true
	}
	for _, t := range elemsOf(x, p, l) {
		if t.key == want.key {
			return true
		}
	}
	return false
}

// distPolicy: what configurations are refused, and how requests are signed.
func (c *Ctx) distPolicy() {
	val := c.NeedM(relBackend, "DistHTTPAuth", "validate")
	if val != nil {
		const k = "insecure configuration refused"
		c.Oblige(k)
		self := rootParam(val, 0)
		x := newEngine(c.P, val)
		for _, o := range c.Explore(x, nil) {
			p := o.Path
			tok, sv := valField(x, self, "Token"), valField(x, self, "ServerVerify")
			cs, anon := valField(x, self, "ClientSign"), valField(x, self, "AllowAnonymousInbound")
			ok := p.KnownNil(cs) || p.Decide(eq(tok, tStr(""))) == no || p.KnownNonNil(sv) || p.Decide(anon) == yes
			refuse := p.KnownNonNil(cs) && p.Decide(eq(tok, tStr(""))) == yes && p.KnownNil(sv) && p.Decide(anon) == no
			switch r := o.Res[0]; {
			case r.isNil() && !ok:
				c.Fail(k, val.Pos(), o.Trace(), "a node that signs but lets anyone in is accepted without the opt-in")
			case !r.isNil() && !refuse:
				c.Fail(k, val.Pos(), o.Trace(), "a sound configuration is refused")
			case !r.isNil() && !wrapsSentinel(r, "internal/sentinel.ErrInsecureAuthConfig"):
				c.Fail(k, val.Pos(), o.Trace(), "the refusal is %s", short(r))
			}
		}
	}
	if f := c.NeedM(relBackend, "DistHTTPAuth", "sign"); f != nil {
		const k = "requests are signed as configured"
		c.Oblige(k)
		self, req := rootParam(f, 0), rootParam(f, 1)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind != "call" {
				return
			}
			switch {
			case strings.HasPrefix(e.Name, "dyn:"):
				setVar(p, "signed", e.Res)
				if e.Addr.key != valField(x, self, "ClientSign").key || e.Args[len(e.Args)-1].key != req.key {
					c.Fail(k, e.Pos(), p.Trace(), "%s is called", short(e.Addr))
				}
			case e.Name == "net/http.(Header).Set" || e.Name == "net/http.(Header).Add":
				ps := concat(e.Args[2])
				if p.Has("set") || !strings.EqualFold(strOf(e.Args[1]), "Authorization") || len(ps) != 2 || strOf(ps[0]) != "Bearer " || ps[1].key != valField(x, self, "Token").key {
					c.Fail(k, e.Pos(), p.Trace(), "header %s becomes %s", short(e.Args[1]), short(e.Args[2]))
				}
				p.Set("set")
			}
		}
		for _, o := range c.Explore(x, nil) {
			p := o.Path
			cs, tok := valField(x, self, "ClientSign"), valField(x, self, "Token")
			sg := p.Vars["signed"]
			switch {
			case p.KnownNonNil(cs):
				if sg == nil || !p.sameVal(o.Res[0], sg) || p.Has("set") {
					c.Fail(k, f.Pos(), o.Trace(), "a custom signer does not replace the token")
				}
			case !p.KnownNil(cs):
				c.Fail(k, f.Pos(), o.Trace(), "the custom signer is not considered")
			case p.Decide(eq(tok, tStr(""))) == yes:
				if p.Has("set") || !o.Res[0].isNil() {
					c.Fail(k, f.Pos(), o.Trace(), "a request is signed without a token")
				}
			case !p.Has("set") || !o.Res[0].isNil():
				c.Fail(k, f.Pos(), o.Trace(), "a request leaves without the token")
			}
		}
	}
	if f := c.NeedF(relBackend, "NewDistMemory"); f != nil {
		const k = "policy checked before anything starts"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.NoInline = func(g *ssa.Function) bool { return inModule(g) }
		n := 0
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "call" && e.Fn != nil && calleeName(e.Fn) == relBackend+".(DistHTTPAuth).validate" {
				setVar(p, "verdict", e.Res)
			}
			if e.Kind == "precall" && e.Fn != nil {
				m := strings.TrimPrefix(calleeName(e.Fn), relBackend+".(*"+dmT+").")
				if m == "tryStartHTTP" {
					n++
				}
				if m == "tryStartHTTP" || strings.HasPrefix(m, "start") {
					if v := p.Vars["verdict"]; v == nil || !p.KnownNil(v) {
						c.Fail(k, e.Pos(), p.Trace(), "%s runs although the policy was not accepted", m)
					}
				}
			}
		}
		for _, o := range c.Explore(x, nil) {
			if v := o.Path.Vars["verdict"]; v != nil && o.Path.KnownNonNil(v) && (!o.Res[0].isNil() || !carries(o.Res[1], v)) {
				c.Fail(k, f.Pos(), o.Trace(), "a refused policy does not fail the construction")
			}
		}
		c.Check(k+": the listener starts", n > 0, f.Pos(), "NewDistMemory does not start the HTTP server")
	}
}

// distServerWiring: the server works with the node's policy, certificate and lifetime.
func (c *Ctx) distServerWiring() {
	const k = "the server has the node's policy"
	ctor := c.NeedF(relBackend, "newDistHTTPServer")
	if ctor == nil {
		return
	}
	c.Oblige(k)
	x := newEngine(c.P, ctor)
	for _, o := range c.Explore(x, nil) {
		r := o.Res[0].unbox()
		for f, want := range map[string]*Term{"auth": rootParam(ctor, 2), "addr": rootParam(ctor, 0), "tlsConfig": valField(x, rootParam(ctor, 1), "TLSConfig")} {
			if v := x.fieldByName(o.Path, r, f); v == nil || !o.Path.sameVal(v, want) {
				c.Fail(k, ctor.Pos(), o.Trace(), "the server's %s is %s", f, short(v))
			}
		}
	}
	n := 0
	for _, f := range c.P.Funcs {
		if !c.calls(f, relBackend+".newDistHTTPServer") {
			continue
		}
		n++
		y := newEngine(c.P, f)
		y.NoInline = func(g *ssa.Function) bool {
			return inModule(g) && calleeName(g) != relBackend+".(*"+dmT+").loadTransport"
		}
		isPolicy := func(t *Term) bool { return t.isLoadOf(dmT + ".httpAuth") }
		y.OnEvent = func(p *Path, e *Event) {
			if e.Kind != "precall" || e.Fn == nil {
				return
			}
			switch calleeName(e.Fn) {
			case relBackend + ".newDistHTTPServer":
				if !isPolicy(e.Args[2]) {
					c.Fail(k, e.Pos(), p.Trace(), "the server is made with %s instead of the node's policy", short(e.Args[2]))
				}
				if !e.Args[0].isLoadOf(dmT + ".nodeAddr") {
					c.Fail(k, e.Pos(), p.Trace(), "the server listens on %s", short(e.Args[0]))
				}
			case relBackend + ".NewDistHTTPTransportWithAuth":
				if !isPolicy(e.Args[1]) {
					c.Fail(k, e.Pos(), p.Trace(), "the client signs with %s instead of the node's policy", short(e.Args[1]))
				}
			case relBackend + ".(*" + distSrv + ").start":
				if v := y.fieldByName(p, e.Args[0], "ctx"); v == nil || !v.isLoadOf(dmT+".lifeCtx") {
					c.Fail(k, e.Pos(), p.Trace(), "the server's handlers work under %s", short(v))
				}
			case relBackend + ".NewDistHTTPTransport":
				c.Fail(k, e.Pos(), p.Trace(), "the client is made without the node's policy")
			}
		}
		c.Explore(y, nil)
	}
	c.Check(k+": used", n > 0, ctor.Pos(), "nothing makes the server")
	if f := c.NeedM(relBackend, distSrv, "listen"); f != nil {
		const k = "TLS when configured"
		const ks = "what start opens, stop closes"
		const ke = "why serving ended is kept"
		c.Oblige(k)
		c.Oblige(ks)
		c.Oblige(ke)
		y := newEngine(c.P, f)
		y.InlineGo = func(g *ssa.Function) bool { return inModule(g) }
		self := rootParam(f, 0)
		y.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "call" && e.Name == fiberApp+"Listener" {
				setVar(p, "served", e.Res)
			}
			if e.Kind == "precall" && strings.HasPrefix(e.Name, "sync/atomic.(*Pointer") && strings.HasSuffix(e.Name, ".Store") && e.Args[0].isFieldAddr(distSrv+".serveErr") {
				p.Set("kept")
			}
			if e.Kind != "precall" || e.Name != fiberApp+"Listener" {
				return
			}
			p.Set("serves")
			if ln := y.fieldByName(p, self, "ln"); !p.KnownNonNil(ln) && !p.sameVal(ln, e.Args[1].unbox()) {
				c.Fail(ks, e.Pos(), p.Trace(), "the server serves a listener it does not remember: stop will not close it")
			}
			cfg := y.fieldByName(p, self, "tlsConfig")
			switch ln := e.Args[1].unbox(); {
			case p.KnownNil(cfg):
				if ln.isCall("crypto/tls.NewListener") {
					c.Fail(k, e.Pos(), p.Trace(), "TLS without a configuration")
				}
			case !ln.isCall("crypto/tls.NewListener") || !p.sameVal(ln.callArgs()[1], cfg):
				c.Fail(k, e.Pos(), p.Trace(), "the server serves %s although TLS is configured", short(ln))
			}
		}
		for _, o := range c.Explore(y, nil) {
			if o.Res[0].isNil() != o.Path.Has("serves") {
				c.Fail(k, f.Pos(), o.Trace(), "listen succeeds exactly when the server does not serve")
			}
			if r := o.Path.Vars["served"]; r != nil && !o.Path.KnownNil(r) && !o.Path.Has("kept") {
				c.Fail(ke, f.Pos(), o.Trace(), "serving may have failed and LastServeError will not tell")
			}
		}
		if g := c.NeedM(relBackend, distSrv, "stop"); g != nil {
			z := newEngine(c.P, g)
			srv := rootParam(g, 0)
			z.OnEvent = func(p *Path, e *Event) {
				if e.Kind == "call" && hasPrefixAny(e.Name, fiberApp+"Shutdown") && e.Args[0].isLoadOf(distSrv+".app") {
					setVar(p, "shut", e.Res)
				}
			}
			for _, o := range c.Explore(z, nil) {
				p := o.Path
				none := p.KnownNil(srv) || p.KnownNil(z.fieldByName(p, srv, "ln"))
				sh := p.Vars["shut"]
				switch {
				case sh == nil && !none:
					c.Fail(ks, g.Pos(), o.Trace(), "stop leaves the server running")
				case sh != nil && !p.sameVal(o.Res[0], sh) && !p.KnownNil(sh) && o.Res[0].isNil():
					c.Fail(ks, g.Pos(), o.Trace(), "stop swallows the shutdown's failure")
				}
			}
		}
		if g := c.NeedM(relBackend, distSrv, "start"); g != nil {
			z := newEngine(c.P, g)
			opq := httpOpaque()
			z.NoInline = func(h *ssa.Function) bool { return opq(h) || strings.HasPrefix(h.Name(), "register") }
			z.OnEvent = func(p *Path, e *Event) {
				if e.Kind == "call" && e.Fn == f {
					setVar(p, "listen", e.Res)
				}
			}
			for _, o := range c.Explore(z, nil) {
				if l := o.Path.Vars["listen"]; l == nil || !o.Path.KnownNil(l) && o.Res[0].key != l.key && !o.Path.KnownNonNil(o.Res[0]) {
					c.Fail(ks, g.Pos(), o.Trace(), "start succeeds although the port may not be open")
				}
			}
		}
	}
}

var limitDefaults = map[string]string{"BodyLimit": "defaultDistHTTPBodyLimit", "ResponseLimit": "defaultDistHTTPResponseLimit", "ReadTimeout": "httpReadTimeout",
	"WriteTimeout": "httpWriteTimeout", "IdleTimeout": "defaultDistHTTPIdleTimeout", "Concurrency": "defaultDistHTTPConcurrency", "ClientTimeout": "defaultDistHTTPClientTimeout"}

// distServerLimits: the limits asked for are the limits in force.
func (c *Ctx) distServerLimits() {
	f := c.NeedM(relBackend, "DistHTTPLimits", "withDefaults")
	ctor := c.NeedF(relBackend, "newDistHTTPServer")
	if f == nil || ctor == nil {
		return
	}
	self := rootParam(f, 0)
	st := structOf(self.typ)
	for i := 0; i < st.NumFields(); i++ {
		c.Oblige("limit: " + st.Field(i).Name())
	}
	x := newEngine(c.P, f)
	for _, o := range c.Explore(x, nil) {
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			got, in := valField(x, o.Res[0], n), valField(x, self, n)
			same := o.Path.sameVal(got, in)
			d, dflt := limitDefaults[n], 0
			if d != "" {
				dflt = o.Path.Decide(lt(tInt(0), in))
			}
			switch {
			case d == "" && !same, dflt == yes && !same:
				c.Fail("limit: "+n, f.Pos(), o.Trace(), "%s given as a limit becomes %s", n, short(got))
			case d != "" && dflt != yes:
				if v, ok := c.constNamed(relBackend, d); dflt == unknown || !ok || !isConstInt(got, v) {
					c.Fail("limit: "+n, f.Pos(), o.Trace(), "%s not given becomes %s", n, short(got))
				}
			}
		}
	}
	const k = "limits reach the server"
	c.Oblige(k)
	y := newEngine(c.P, ctor)
	y.NoInline = func(g *ssa.Function) bool { return g == f }
	n := 0
	y.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "precall" && e.Name == fiberPkg+"New" {
			n++
			cfgs := elemsOf(y, p, e.Args[0])
			if len(cfgs) != 1 {
				c.Fail(k, e.Pos(), p.Trace(), "fiber is not given a configuration %s", termList(e.Args))
				return
			}
			for _, fl := range []string{"ReadTimeout", "WriteTimeout", "IdleTimeout", "BodyLimit", "Concurrency"} {
				v := valField(y, cfgs[0], fl)
				want := valField(y, p.Vars["limits"], fl)
				if v == nil || want == nil || !p.sameVal(v, want) {
					c.Fail(k, e.Pos(), p.Trace(), "fiber's %s is %s", fl, short(v))
				}
			}
		}
		if e.Kind == "call" && e.Fn == f {
			setVar(p, "limits", e.Res)
		}
	}
	c.Explore(y, nil)
	c.Check(k+": made", n > 0, ctor.Pos(), "the server is made without fiber")
	c.collectRule()
}

func (c *Ctx) constNamed(rel, name string) (int64, bool) {
	k, ok := c.P.pkg(rel).Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return k.Value.Int64(), true
}

func isConstInt(t *Term, v int64) bool {
	n, ok := t.intConst()
	return ok && n == v
}

func isNotFoundErr(t *Term) bool { return strings.Contains(t.name, "sentinel.ErrBackendNotFound") }

func sameNum(p *Path, a, b *Term) bool { return a.key == b.key || linSame(a, b) || p.isSame(a, b) }
