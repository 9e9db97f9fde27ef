package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for the hypercache-server binary: the client API's gates, what its
// handlers do to the cache, and what they answer.

func init() {
	register(&Property{ID: "Z01", Level: "proof", Run: runZ01, MinObl: 20,
		Explain: "All paths of the client API's route registration, of its start, of its TLS configuration and of the cache's construction in the server binary.",
		Assume:  []string{"fiber runs a route's handlers in the order they are given, each only when the one before went on", "crypto/tls enforces the configuration it is given"}})
	register(&Property{ID: "Z02", Level: "proof", Run: runZ02, MinObl: 20,
		Explain: "All paths of every client API handler that touches the cache, run on an arbitrary request.",
		Assume:  []string{"json.Unmarshal fills the request as documented", "fiber's Params is the still percent-encoded path segment (UnescapePath off, the default)"}})
	register(&Property{ID: "Z03", Level: "proof", Run: runZ03, MinObl: 8,
		Explain: "All paths of every function of the module that takes a fiber request, with the helpers that take it inlined.",
		Assume:  []string{"goccy/go-json.Unmarshal copies its input before it decodes (the strings it yields do not point into the body)", "the library calls taken to return fresh memory do so"}})
}

const (
	relServer = "cmd/hypercache-server"
	hcM       = ".(*HyperCache)."
	policyMW  = "pkg/httpauth.(Policy).Middleware"
	policyVf  = "pkg/httpauth.(Policy).Verify"
)

// clientRoutes: every route of the client API, with the scope it asks for.
var clientRoutes = map[string]string{
	"GET /healthz": "", "GET /v1/openapi.yaml": "",
	"GET /v1/cache/keys": "read", "GET /v1/cache/:key": "read", "HEAD /v1/cache/:key": "read", "GET /v1/owners/:key": "read",
	"GET /v1/me": "read", "GET /v1/me/can": "read", "POST /v1/cache/batch/get": "read",
	"PUT /v1/cache/:key": "write", "DELETE /v1/cache/:key": "write",
	"POST /v1/cache/batch/put": "write", "POST /v1/cache/batch/delete": "write",
}

func serverOpaque(f *ssa.Function) bool {
	n := calleeName(f)
	return strings.HasPrefix(n, "pkg/httpauth.") || strings.HasPrefix(n, hcM)
}

func runZ01(c *Ctx) {
	if reg := c.NeedF(relServer, "registerClientRoutes"); reg != nil {
		const (
			kp = "the policy that gates is the one given"
			ko = "only known routes"
			ks = "the literal keys route comes before the one with a parameter"
		)
		want := sortedKeys(clientRoutes)
		for _, r := range want {
			c.Oblige("scope: " + r)
			c.Oblige("registered: " + r)
		}
		for _, k := range []string{kp, ko, ks} {
			c.Oblige(k)
		}
		x := newEngine(c.P, reg)
		x.NoInline = serverOpaque
		pol := rootParam(reg, 1)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "return" {
				for _, r := range want {
					if !p.Has("route:" + r) {
						c.Fail("registered: "+r, e.Pos(), p.Trace(), "%s is not registered when the registration ends", r)
					}
				}
				return
			}
			r, ok := routeOf(x, p, e)
			if !ok {
				return
			}
			route := r.method + " " + r.path
			scope, known := clientRoutes[route]
			if !r.known || !known {
				c.Fail(ko, e.Pos(), p.Trace(), "%s is registered, which no rule covers", route)
				return
			}
			if route == "GET /v1/cache/keys" && p.Has("route:GET /v1/cache/:key") {
				c.Fail(ks, e.Pos(), p.Trace(), "the key listing is shadowed by the read of a key named keys")
			}
			if p.Has("route:" + route) {
				c.Fail(ko, e.Pos(), p.Trace(), "%s is registered twice", route)
			}
			p.Set("route:" + route)
			n := 1
			if scope != "" {
				n = 2
			}
			if len(r.handlers) != n {
				c.Fail("scope: "+route, e.Pos(), p.Trace(), "%s has %d handlers, not %d (its gate and the handler)", route, len(r.handlers), n)
				return
			}
			for i, h := range r.handlers {
				gate := h.isCall(policyMW)
				if gate != (i == 0 && scope != "") {
					c.Fail("scope: "+route, e.Pos(), p.Trace(), "%s: handler %d is %s", route, i, short(h))
					continue
				}
				if !gate {
					continue
				}
				a := h.callArgs()
				if s, ok := a[1].strConst(); !ok || s != scope {
					c.Fail("scope: "+route, e.Pos(), p.Trace(), "%s asks for %v, not %q", route, a[1], scope)
				}
				if a[0].key != pol.key {
					c.Fail(kp, e.Pos(), p.Trace(), "%s is gated by another policy: %v", route, a[0])
				}
			}
		}
		c.Explore(x, nil)
		for g := range x.Fns {
			c.Fns[g.String()] = true
		}
		for _, f := range c.registersRoutes(relServer) {
			c.Check("no route is registered elsewhere", x.Fns[f], f.Pos(), "%s registers a route outside registerClientRoutes", calleeName(f))
		}
	}
	c.serverTLS()
	c.serverStart()
	c.serverGates()
}

// cfgField: the configuration's field, by name, of the struct value w.
func cfgField(x *Engine, w *Term, f string) *Term { return valField(x, w, f) }

func (c *Ctx) serverTLS() {
	f := c.NeedF(relServer, "buildAPITLSConfig")
	if f == nil {
		return
	}
	const (
		kOff  = "TLS: off only when neither certificate nor key is configured"
		kPart = "TLS: one of certificate and key without the other is refused"
		kCert = "TLS: the configured certificate and key are served, from TLS 1.2 on"
		kCA   = "TLS: with a client CA, clients must present a certificate it signed"
		kErr  = "TLS: what cannot be read is refused"
	)
	for _, k := range []string{kOff, kPart, kCert, kCA, kErr} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	cfg := rootParam(f, 0)
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			switch e.Name {
			case "crypto/tls.LoadX509KeyPair":
				setVar(p, "pair", e.Res)
				if e.Args[0].key != cfgField(x, cfg, "APITLSCert").key || e.Args[1].key != cfgField(x, cfg, "APITLSKey").key {
					c.Fail(kCert, e.Pos(), p.Trace(), "the key pair loaded is %v", termList(e.Args))
				}
			case "os.ReadFile":
				if e.Args[0].key == cfgField(x, cfg, "APITLSCA").key {
					setVar(p, "pem", e.Res)
				}
			case "crypto/x509.NewCertPool":
				setVar(p, "pool", e.Res)
			case "crypto/x509.(*CertPool).AppendCertsFromPEM":
				pem := p.Vars["pem"]
				if p.Vars["pool"] != nil && e.Args[0].key == p.Vars["pool"].key && pem != nil && e.Args[1].key == resAt(pem, 0).key {
					setVar(p, "added", e.Res)
				}
			}
		case "return":
			res, err := e.Args[0], e.Args[1]
			cert := p.Decide(eq(cfgField(x, cfg, "APITLSCert"), tStr("")))
			key := p.Decide(eq(cfgField(x, cfg, "APITLSKey"), tStr("")))
			ca := p.Decide(eq(cfgField(x, cfg, "APITLSCA"), tStr("")))
			if p.KnownNonNil(err) {
				if cert == yes && key == yes {
					c.Fail(kOff, e.Pos(), p.Trace(), "without TLS configured there is an error: %v", err)
				}
				pair, pem, added := p.Vars["pair"], p.Vars["pem"], p.Vars["added"]
				reason := cert == yes || key == yes || pair != nil && p.KnownNonNil(resAt(pair, 1)) || pem != nil && p.KnownNonNil(resAt(pem, 1)) || added != nil && p.Decide(added) == no
				if !reason {
					c.Fail(kErr, e.Pos(), p.Trace(), "an error without a reason: %v", err)
				}
				return
			}
			if !p.KnownNil(err) {
				c.Fail(kErr, e.Pos(), p.Trace(), "the error is neither nil nor not: %v", err)
				return
			}
			if p.KnownNil(res) {
				if cert != yes || key != yes {
					c.Fail(kOff, e.Pos(), p.Trace(), "plaintext although a certificate or key may be configured")
				}
				return
			}
			if cert != no || key != no {
				c.Fail(kPart, e.Pos(), p.Trace(), "a TLS configuration although certificate or key may be missing")
			}
			pair := p.Vars["pair"]
			if pair == nil || !p.KnownNil(resAt(pair, 1)) {
				c.Fail(kErr, e.Pos(), p.Trace(), "a TLS configuration although the key pair may not have loaded")
				return
			}
			fld := func(n string) *Term { return x.fieldByName(p, res, n) }
			els := x.Elems(p, fld("Certificates"))
			if len(els) != 1 || !p.sameVal(els[0], resAt(pair, 0)) {
				c.Fail(kCert, e.Pos(), p.Trace(), "the certificates are %v", termList(els))
			}
			if v, ok := fld("MinVersion").intConst(); !ok || v < 0x303 {
				c.Fail(kCert, e.Pos(), p.Trace(), "the least version is %v", fld("MinVersion"))
			}
			if b := fld("InsecureSkipVerify"); b != nil && p.Decide(b) == yes {
				c.Fail(kCert, e.Pos(), p.Trace(), "verification is switched off")
			}
			if ca != yes {
				auth, ok := fld("ClientAuth").intConst()
				pool, pem, added := p.Vars["pool"], p.Vars["pem"], p.Vars["added"]
				if !ok || auth != 4 {
					c.Fail(kCA, e.Pos(), p.Trace(), "a client CA may be configured and ClientAuth is %v", fld("ClientAuth"))
				} else if pool == nil || fld("ClientCAs").key != pool.key {
					c.Fail(kCA, e.Pos(), p.Trace(), "clients are verified against %v", fld("ClientCAs"))
				} else if pem == nil || !p.KnownNil(resAt(pem, 1)) || added == nil || p.Decide(added) != yes {
					c.Fail(kErr, e.Pos(), p.Trace(), "the client CA may not have been read")
				}
			}
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) serverStart() {
	f := c.NeedF(relServer, "runClientAPI")
	if f == nil {
		return
	}
	const (
		kr = "start: the routes are there, behind the configured policy, before the port opens"
		kt = "start: with a TLS configuration the port speaks only TLS"
		ke = "start: no port opens when the TLS configuration fails"
	)
	for _, k := range []string{kr, kt, ke} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool {
		n := calleeName(g)
		return n == relServer+".registerClientRoutes" || n == relServer+".buildAPITLSConfig" || strings.HasPrefix(n, hcM)
	}
	cfg := rootParam(f, 0)
	serve := func(p *Path, e *Event, ln *Term) {
		app, reg, t := p.Vars["app"], p.Vars["reg"], p.Vars["tls"]
		p.Set("served")
		if app == nil || reg == nil || len(e.Args) == 0 || e.Args[0].key != app.key {
			c.Fail(kr, e.Pos(), p.Trace(), "the port opens before the routes are registered")
		}
		if t == nil || !p.KnownNil(resAt(t, 1)) {
			c.Fail(ke, e.Pos(), p.Trace(), "the port opens although the TLS configuration may have failed")
			return
		}
		if ln == nil {
			if !p.KnownNil(resAt(t, 0)) {
				c.Fail(kt, e.Pos(), p.Trace(), "a plaintext port opens although TLS may be configured")
			}
			return
		}
		l := p.Vars["ln"]
		if l == nil || resAt(l, 0).key != ln.key || !p.KnownNil(resAt(l, 1)) {
			c.Fail(kt, e.Pos(), p.Trace(), "the server serves on %v", ln)
		}
	}
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind != "call" && e.Kind != "precall" && e.Kind != "go" {
			return
		}
		switch {
		case e.Kind == "call" && e.Name == relServer+".registerClientRoutes":
			if e.Args[1].key != cfgField(x, cfg, "AuthPolicy").key {
				c.Fail(kr, e.Pos(), p.Trace(), "the routes stand behind %v", e.Args[1])
			}
			setVar(p, "app", e.Args[0])
			setVar(p, "reg", tTrue)
		case e.Kind == "call" && e.Name == relServer+".buildAPITLSConfig":
			setVar(p, "tls", e.Res)
			if e.Args[0].key != cfg.key {
				c.Fail(kt, e.Pos(), p.Trace(), "the TLS configuration is built from %v", e.Args[0])
			}
		case e.Kind == "call" && (e.Name == "crypto/tls.Listen" || e.Name == "crypto/tls.NewListener"):
			t := p.Vars["tls"]
			if t == nil || e.Args[len(e.Args)-1].key != resAt(t, 0).key || p.KnownNil(resAt(t, 0)) {
				c.Fail(kt, e.Pos(), p.Trace(), "the TLS port listens with %v", e.Args[len(e.Args)-1])
			}
			if e.Name == "crypto/tls.Listen" && e.Args[1].key != cfgField(x, cfg, "APIAddr").key {
				c.Fail(kt, e.Pos(), p.Trace(), "the TLS port listens on %v", e.Args[1])
			}
			setVar(p, "ln", e.Res)
		case e.Kind == "precall" && e.Name == fiberApp+"Listen":
			serve(p, e, nil)
		case e.Kind == "precall" && e.Name == fiberApp+"Listener":
			serve(p, e, e.Args[1])
		}
	}
	x.InlineGo = func(g *ssa.Function) bool { return inModule(g) }
	served := 0
	on := x.OnEvent
	x.OnEvent = func(p *Path, e *Event) {
		on(p, e)
		if e.Kind == "precall" && (e.Name == fiberApp+"Listen" || e.Name == fiberApp+"Listener") {
			served++
		}
	}
	c.Explore(x, nil)
	c.Check("start: the API is served with and without TLS", served > 1, f.Pos(), "%d ways to serve were seen", served)
}

func (c *Ctx) serverGates() {
	f := c.NeedF(relServer, "buildHyperCache")
	if f == nil {
		return
	}
	const (
		kr = "management port: its routes ask the configured policy for the read scope"
		ka = "management port: its control routes ask the configured policy for the admin scope"
		kp = "peers: with a token configured, the dist server demands it"
	)
	for _, k := range []string{kr, ka, kp} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return fnPkgPath(g) != modPath+"/"+relServer }
	cfg := rootParam(f, 1)
	ctx := fiberCtxTerm(c)
	tokens := 0
	gate := func(p *Path, e *Event, key, scope string, fn *Term) {
		q := p.fork()
		outs := evalEvents(x, q, fn, []*Term{ctx}, func(*Path, *Event) {})
		if len(outs) == 0 {
			c.Fail(key, e.Pos(), p.Trace(), "the gate cannot be followed: %v", fn)
		}
		for _, o := range outs {
			var r *Term
			if len(o.Res) == 1 {
				r = o.Res[0]
			}
			ok := r != nil && r.isCall(policyVf)
			if ok {
				a := r.callArgs()
				s, isC := a[2].strConst()
				ok = a[0].key == cfgField(x, cfg, "AuthPolicy").key && a[1].unbox().key == ctx.key && isC && s == scope
			}
			if !ok {
				c.Fail(key, e.Pos(), p.Trace(), "the gate answers %v", r)
			}
		}
	}
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind != "call" {
			return
		}
		n := e.Name
		if i := strings.Index(n, "["); i > 0 {
			n = n[:i]
		}
		switch n {
		case ".WithMgmtAuth":
			p.Set("r")
			gate(p, e, kr, "read", e.Args[0])
		case ".WithMgmtControlAuth":
			p.Set("a")
			gate(p, e, ka, "admin", e.Args[0])
		case "os.Getenv":
			if s, ok := e.Args[0].strConst(); ok && s == "HYPERCACHE_AUTH_TOKEN" {
				setVar(p, "tok", e.Res)
			}
		case relBackend + ".WithDistHTTPAuth":
			tok := p.Vars["tok"]
			w := e.Args[0]
			if tok == nil || valField(x, w, "Token") == nil || valField(x, w, "Token").key != tok.key {
				c.Fail(kp, e.Pos(), p.Trace(), "the dist server's policy is %v", w)
			} else {
				p.Set("peer")
				tokens++
			}
		case ".New":
			if !p.Has("r") {
				c.Fail(kr, e.Pos(), p.Trace(), "the cache is built without a gate on its management port")
			}
			if !p.Has("a") {
				c.Fail(ka, e.Pos(), p.Trace(), "the cache is built without a gate on its control routes")
			}
			if tok := p.Vars["tok"]; !p.Has("peer") && (tok == nil || p.Decide(eq(tok, tStr(""))) != yes) {
				c.Fail(kp, e.Pos(), p.Trace(), "the cache is built without the peers' token")
			}
		}
	}
	c.Explore(x, nil)
	c.Check(kp, tokens > 0, f.Pos(), "no path gives the dist server a token")
}

// --- what a request leaves behind -----------------------------------------

// aliasing library calls: what they return may point into their first argument.
func mayAlias(n string) bool {
	for _, p := range []string{"strings.Trim", "strings.Cut", "strings.Split", "strings.Fields", "strings.To", "strings.Replace", "strings.Title", "strings.Map", "bytes.Trim", "bytes.Cut", "bytes.Split",
		"bytes.Fields", "net/url.PathUnescape", "net/url.QueryUnescape", "unsafe.", "path.", "html.", "strings.Join", "strings.ToValidUTF8", "github.com/gofiber/utils"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// inRequest: the term may point into the request's memory.
func inRequest(t *Term, depth int) *Term {
	if t == nil || depth > 12 {
		return nil
	}
	t = t.unbox()
	switch t.op {
	case "ext":
		return inRequest(t.args[0], depth+1)
	case "slice", "idx", "elem", "conv", "load", "field":
		if t.op == "conv" && len(t.args) == 1 && t.args[0].typ != nil && t.typ != nil {
			_, fromS := t.args[0].typ.Underlying().(*types.Slice)
			_, toS := t.typ.Underlying().(*types.Slice)
			if fromS != toS { // a string made of bytes, or the other way round: a copy
				return nil
			}
		}
		if len(t.args) > 0 {
			return inRequest(t.args[0], depth+1)
		}
	case "append":
		if len(t.args) > 0 {
			return inRequest(t.args[0], depth+1)
		}
	case "list", "struct", "tuple", "iface":
		for _, a := range t.args {
			if r := inRequest(a, depth+1); r != nil {
				return r
			}
		}
	case "call", "pcall":
		if n, ok := strings.CutPrefix(t.name, fiberCtx); ok {
			switch n {
			case "Params", "Query", "Queries", "Get", "Body", "BodyRaw", "Path", "OriginalURL", "Cookies", "FormValue", "Hostname", "Host", "IP", "Method", "Protocol", "GetReqHeaders", "BaseURL", "Subdomains", "IPs", "FullURL":
				return t
			}
			return nil
		}
		if mayAlias(t.name) {
			for _, a := range t.callArgs() {
				if r := inRequest(a, depth+1); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

// keeps: the method may keep its arguments once it has returned.
func keeps(f *ssa.Function, name string) bool {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	typ := name[:i]
	if !strings.HasSuffix(typ, "(*HyperCache)") && !strings.HasSuffix(typ, "(*"+dmT+")") && !strings.Contains(typ, "IBackend") && !strings.HasSuffix(typ, "Service") && !strings.HasSuffix(typ, "IAlgorithm") && !strings.HasSuffix(typ, "(*ConcurrentMap)") {
		return false
	}
	return hasPrefixAny(m, "Set", "GetOrSet", "Remove", "Delete", "apply", "queue", "record", "Add", "Upsert", "replicate")
}

func runZ03(c *Ctx) {
	n, sinks := 0, 0
	takes := func(f *ssa.Function) bool {
		for _, q := range f.Params {
			if typeStr(q.Type()) == fiberPkg+"Ctx" {
				return true
			}
		}
		return false
	}
	imm := c.immutableApps()
	for _, f := range c.P.Funcs {
		if !takes(f) || len(f.Blocks) == 0 || f.Pos() == token.NoPos || !inModule(f) {
			continue
		}
		n++
		key := "keeps nothing of the request: " + calleeName(f)
		c.Oblige(key)
		x := newEngine(c.P, f)
		x.KeepClone = true
		x.NoInline = func(g *ssa.Function) bool { return !takes(g) && g.Parent() == nil && !serverHelper(g) }
		bad := func(p *Path, e *Event, t *Term, what string) {
			if imm[fnPkgPath(f)] {
				return
			}
			if s := inRequest(t, 0); s != nil {
				c.Fail(key, e.Pos(), p.Trace(), "%s gets %s, which points into the request's buffer: the next request overwrites it", what, s.name)
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "precall":
				if strings.Contains(e.Name, ".") && keeps(e.Fn, e.Name) {
					sinks++
					for _, a := range e.Args[1:] {
						bad(p, e, a, e.Name)
						for _, el := range x.Elems(p, a.unbox()) {
							bad(p, e, el, e.Name)
						}
						if a.unbox().op == "alloc" {
							for _, fl := range []string{"Key", "Value"} {
								if st := structOf(derefT(a.unbox().typ)); st != nil && hasField(st, fl) {
									bad(p, e, x.fieldByName(p, a.unbox(), fl), e.Name)
								}
							}
						}
					}
				}
			case "mapupdate":
				if e.Args[0].op != "makemap" {
					bad(p, e, e.Args[1], "a map")
				}
			case "send":
				bad(p, e, e.Val, "a channel")
			case "store":
				if e.Addr != nil && e.Addr.any(func(t *Term) bool { return t.op == "param" || t.op == "global" || t.op == "free" }) && !e.Addr.any(func(t *Term) bool { return t.op == "alloc" }) {
					bad(p, e, e.Val, "memory that outlives the request")
				}
			}
		}
		c.Explore(x, nil)
	}
	c.Check("handlers found", n > 20, token.NoPos, "only %d functions take a request", n)
	c.Check("sinks found", sinks >= 4, token.NoPos, "only %d calls that keep their arguments", sinks)
}

// serverHelper: a plain helper worth following.
func serverHelper(g *ssa.Function) bool {
	return fnPkgPath(g) == modPath+"/"+relServer
}

func hasField(st *types.Struct, n string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return true
		}
	}
	return false
}

// immutableApps: packages whose every fiber app is made with Immutable set.
func (c *Ctx) immutableApps() map[string]bool {
	out := map[string]bool{}
	made := map[string]bool{}
	for _, f := range c.P.Funcs {
		if !inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || calleeName(ci.Common().StaticCallee()) != fiberPkg+"New" {
					continue
				}
				pk := fnPkgPath(f)
				on := false
				for _, bb := range f.Blocks {
					for _, j := range bb.Instrs {
						st, ok := j.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						if sf := structOf(derefT(fa.X.Type())); sf != nil && sf.Field(fa.Field).Name() == "Immutable" {
							if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
								on = true
							}
						}
					}
				}
				if made[pk] {
					on = on && out[pk]
				}
				made[pk], out[pk] = true, on
			}
		}
	}
	return out
}

// --- what the handlers do and answer ---------------------------------------

type srvWatch struct {
	c     *Ctx
	x     *Engine
	ctx   *Term
	node  *Term // the handler's *nodeContext
	route string
	op    string // the cache operation behind the route
	loop  *turns
	list  string // the request's list, for a batch
}

// serverOps: the routes that reach the cache by key, and the operation each stands for.
var serverOps = map[string]string{
	"GET /v1/cache/:key": "GetWithInfo", "HEAD /v1/cache/:key": "GetWithInfo", "PUT /v1/cache/:key": "Set", "DELETE /v1/cache/:key": "Remove", "GET /v1/owners/:key": "",
	"POST /v1/cache/batch/get": "GetWithInfo", "POST /v1/cache/batch/put": "Set", "POST /v1/cache/batch/delete": "Remove",
}

func runZ02(c *Ctx) {
	reg := c.NeedF(relServer, "registerClientRoutes")
	if reg == nil {
		return
	}
	want := sortedKeys(serverOps)
	for _, r := range want {
		for _, k := range []string{"served: ", "does what it says: ", "answers truly: "} {
			c.Oblige(k + r)
		}
	}
	x := newEngine(c.P, reg)
	x.NoInline = serverOpaque
	ctx := fiberCtxTerm(c)
	runs := 0
	x.OnEvent = func(p *Path, e *Event) {
		r, ok := routeOf(x, p, e)
		if !ok || len(r.handlers) == 0 {
			return
		}
		route := r.method + " " + r.path
		op, ok := serverOps[route]
		if !ok {
			return
		}
		p.Set("seen:" + route)
		w := &srvWatch{c: c, x: x, ctx: ctx, node: rootParam(reg, 2), route: route, op: op}
		if strings.Contains(route, "/batch/") {
			w.list = "Keys"
			if op == "Set" {
				w.list = "Items"
			}
			w.loop = &turns{tag: "t", over: func(p *Path, s *Term) bool { return w.isList(p, s) }, end: w.turnEnd}
		}
		q := p.fork()
		outs := evalEvents(x, q, r.handlers[len(r.handlers)-1], []*Term{ctx}, w.event)
		if len(outs) == 0 {
			c.Fail("served: "+route, e.Pos(), p.Trace(), "the handler of %s cannot be followed", route)
		}
		for _, o := range outs {
			runs++
			w.outcome(o, e.Pos())
		}
	}
	c.Explore(x, nil)
	for g := range x.Fns {
		c.Fns[g.String()] = true
	}
	c.Paths += runs
	c.Check("handlers followed", runs > 20, reg.Pos(), "only %d outcomes of handlers were seen", runs)
}

func (w *srvWatch) fail(kind string, p *Path, pos token.Pos, f string, a ...any) {
	w.c.Fail(kind+": "+w.route, pos, p.Trace(), f, a...)
}

// isList: the list of the decoded request.
func (w *srvWatch) isList(p *Path, s *Term) bool {
	n := s.name
	if s.op == "load" {
		n = s.args[0].name
	}
	return p.Vars["req"] != nil && (s.op == "fld" || s.op == "load") && strings.HasSuffix(n, "."+w.list) && s.any(func(t *Term) bool { return t.op == "out" })
}

// keyOf: the key the request names (in a batch: the current entry's).
func (w *srvWatch) keyOK(p *Path, t *Term) bool {
	if w.loop != nil {
		want := w.entry(p, "Key")
		return want != nil && (t.key == want.key)
	}
	raw, un := p.Vars["raw"], p.Vars["unesc"]
	if raw == nil || un == nil {
		return false
	}
	return t.key == resAt(un, 0).key && p.KnownNil(resAt(un, 1)) || t.key == raw.key && p.KnownNonNil(resAt(un, 1))
}

// entry: a field of the batch entry this turn is about.
func (w *srvWatch) entry(p *Path, f string) *Term {
	i, l := p.Vars["t"], p.Vars["list"]
	if i == nil || l == nil {
		return nil
	}
	addr := mk(&Term{op: "idx", args: []*Term{l, i}, typ: nil})
	if w.list == "Keys" {
		return mk(&Term{op: "load", args: []*Term{addr}, typ: types.Typ[types.String]})
	}
	st, ok := l.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	addr.typ = types.NewPointer(st.Elem())
	return w.x.fieldByName(p, addr, f)
}

func (w *srvWatch) event(p *Path, e *Event) {
	if w.loop != nil {
		if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[1].op == "len" && w.isList(p, e.Val.args[1].args[0]) {
			setVar(p, "list", e.Val.args[1].args[0])
		}
		if w.loop.step(p, e) {
			return
		}
	}
	if w.list != "" && e.Kind == "append" && p.Has("t") && len(e.Args) == 2 {
		w.entryResult(p, e)
	}
	if e.Kind == "branch" {
		e.Val.any(func(t *Term) bool {
			if t.isCall("errors.Is") && w.did(p) != nil && t.callArgs()[0].key == w.did(p).key {
				for _, n := range []string{"ErrDraining", "ErrNotOwner"} {
					if t.callArgs()[1].any(func(u *Term) bool { return u.op == "global" && u.name == "internal/sentinel."+n }) {
						setVar(p, w.tag()+n, t)
					}
				}
			}
			return false
		})
	}
	reply(p, e, w.ctx)
	switch e.Kind {
	case "call":
		switch {
		case e.Name == fiberCtx+"Params":
			if s, ok := e.Args[1].strConst(); ok && s == "key" {
				setVar(p, "raw", e.Res)
			}
		case e.Name == "net/url.PathUnescape":
			if raw := p.Vars["raw"]; raw != nil && e.Args[0].key == raw.key {
				setVar(p, "unesc", e.Res)
			}
		case e.Name == fiberCtx+"Body":
			setVar(p, "raw body", e.Res)
		case e.Name == fiberCtx+"Query":
			if s, ok := e.Args[1].strConst(); ok && s == "ttl" {
				setVar(p, "ttlq", e.Res)
			}
		case e.Name == "time.ParseDuration":
			if q := p.Vars["ttlq"]; q != nil && e.Args[0].key == q.key {
				setVar(p, "ttl", e.Res)
			}
		case e.Name == jsonUnm || e.Name == "encoding/json.Unmarshal":
			if w.loop == nil || p.Vars["req"] != nil {
				break
			}
			if b := p.Vars["raw body"]; b == nil || e.Args[0].key != b.key {
				w.fail("does what it says", p, e.Pos(), "the request is decoded from %v", e.Args[0])
			}
			setVar(p, "req", e.Res)
		case strings.HasPrefix(e.Name, "encoding/base64.(*Encoding).DecodeString"):
			if v := w.entryVal(p); v != nil && e.Args[1].key == v.key && strings.HasSuffix(e.Args[0].String(), "base64.StdEncoding)") {
				setVar(p, "t/dec", e.Res)
			}
		case strings.HasPrefix(e.Name, hcM):
			if n := strings.TrimPrefix(e.Name, hcM); n == w.op {
				setVar(p, w.tag()+"did", e.Res)
			}
		}
	case "copy":
		if b := p.Vars["raw body"]; b != nil && e.Args[1].key == b.key {
			setVar(p, "copied", e.Args[0])
		}
	case "precall":
		if !strings.HasPrefix(e.Name, hcM) {
			break
		}
		w.operation(p, e, strings.TrimPrefix(e.Name, hcM))
	}
}

func (w *srvWatch) tag() string {
	if w.loop != nil {
		return "t/"
	}
	return ""
}

func (w *srvWatch) did(p *Path) *Term { return p.Vars[w.tag()+"did"] }

func (w *srvWatch) entryVal(p *Path) *Term {
	if w.list != "Items" || !p.Has("t") {
		return nil
	}
	return w.entry(p, "Value")
}

// operation: a call on the cache.
func (w *srvWatch) operation(p *Path, e *Event, n string) {
	bad := func(f string, a ...any) { w.fail("does what it says", p, e.Pos(), f, a...) }
	if n == "ClusterOwners" {
		if !w.keyOK(p, e.Args[1]) {
			bad("the owners looked up are those of %v", e.Args[1])
		}
		return
	}
	if n != w.op {
		bad("%s calls %s", w.route, n)
		return
	}
	if p.Has(w.tag() + "op") {
		bad("%s is called twice for one key", n)
	}
	p.Set(w.tag() + "op")
	if h := e.Args[0]; !h.isLoadOf("nodeContext.hc") || loadBase(h) == nil || loadBase(h).key != w.node.key {
		bad("%s is called on %v", n, h)
	}
	if !e.Args[1].isCall(fiberCtx + "Context") {
		bad("%s is called with the context %v", n, e.Args[1])
	}
	key := e.Args[2]
	if n == "Remove" {
		ks := elemsOf(w.x, p, key)
		if len(ks) != 1 {
			bad("%d keys are removed", len(ks))
			return
		}
		key = ks[0]
	}
	if !w.keyOK(p, key) {
		bad("%s is called for %v", n, key)
	} else if p.Decide(eq(key, tStr(""))) != no {
		bad("%s is called although the key may be empty", n)
	}
	if n != "Set" {
		return
	}
	val, ttl := e.Args[3].unbox(), e.Args[4]
	if w.loop == nil {
		q, d := p.Vars["ttlq"], p.Vars["ttl"]
		switch {
		case q == nil:
			bad("the ttl is not read from the query")
		case p.Decide(eq(q, tStr(""))) == yes:
			if n, ok := ttl.intConst(); !ok || n != 0 {
				bad("without a ttl in the query, it is %v", ttl)
			}
		case d == nil || ttl.key != resAt(d, 0).key || !p.KnownNil(resAt(d, 1)):
			bad("the ttl is %v", ttl)
		}
		b := p.Vars["raw body"]
		whole := b != nil && (val.key == b.key || p.Vars["copied"] != nil && val.key == p.Vars["copied"].key && val.op == "makeslice" && len(val.attr) > 0 && val.attr[0].key == lenTerm(b).key)
		whole = whole || b != nil && (val.isCall("bytes.Clone") || val.isCall("slices.Clone")) && val.callArgs()[0].key == b.key
		whole = whole || b != nil && val.op == "append" && val.any(func(t *Term) bool { return t.key == b.key })
		if !whole {
			bad("the value is %v, not the body", val)
		}
		return
	}
	enc, v, ms := w.entry(p, "ValueEncoding"), w.entry(p, "Value"), w.entry(p, "TTLMs")
	d := p.Vars["t/dec"]
	switch p.Decide(eq(enc, tStr("base64"))) {
	case yes:
		if d == nil || val.key != resAt(d, 0).key || !p.KnownNil(resAt(d, 1)) {
			bad("a base64 value is stored as %v", val)
		}
	case no:
		if val.strip().key != v.key {
			bad("a text value is stored as %v", val)
		}
	default:
		bad("the value is stored without a look at its encoding")
	}
	if !isMillis(ttl, ms) {
		bad("the ttl is %v", ttl)
	}
}

// verdict: what the operation reported: +1 done, -1 failed, 0 unknown or not done.
func (w *srvWatch) verdict(p *Path) int {
	d := w.did(p)
	if d == nil {
		return 0
	}
	if w.op == "GetWithInfo" {
		switch p.Decide(resAt(d, 1)) {
		case yes:
			return 1
		case no:
			return -1
		}
		return 0
	}
	if p.KnownNil(d) {
		return 1
	}
	if p.KnownNonNil(d) {
		return -1
	}
	return 0
}

func (w *srvWatch) wantCode(p *Path) string {
	if t := p.Vars[w.tag()+"ErrDraining"]; t != nil {
		switch p.Decide(t) {
		case yes:
			return "DRAINING"
		case no:
			return "INTERNAL"
		}
	}
	return ""
}

// entryResult: a batch's answer for one entry.
func (w *srvWatch) entryResult(p *Path, e *Event) {
	v := e.Args[1]
	if v.op == "list" && len(v.args) == 1 {
		v = v.args[0]
	}
	if valField(w.x, v, "Key") == nil {
		return
	}
	bad := func(f string, a ...any) { w.fail("answers truly", p, e.Pos(), f, a...) }
	if p.Has("t/app") {
		bad("two answers for one entry")
	}
	p.Set("t/app")
	if !w.keyOK(p, valField(w.x, v, "Key")) {
		bad("the answer is about %v", valField(w.x, v, "Key"))
	}
	flag := map[string]string{"GetWithInfo": "Found", "Set": "Stored", "Remove": "Deleted"}[w.op]
	f := valField(w.x, v, flag)
	if f == nil {
		bad("the answer has no %s", flag)
		return
	}
	yesF := f.key == tTrue.key
	if !yesF && p.Decide(f) != no {
		bad("%s is %v", flag, f)
	}
	vd := w.verdict(p)
	if yesF != (vd == 1) {
		bad("%s is %v although the cache said otherwise, or nothing", flag, f)
	}
	if vd == 0 {
		if p.Has("t/op") {
			bad("an answer without a look at what the cache said")
		} else if d := p.Vars["t/dec"]; p.Decide(eq(w.entry(p, "Key"), tStr(""))) != yes && (d == nil || !p.KnownNonNil(resAt(d, 1))) {
			bad("an entry is refused without a reason")
		}
	}
	if code := valField(w.x, v, "Code"); code != nil {
		s, ok := code.strConst()
		want := ""
		switch {
		case vd == 0:
			want = "BAD_REQUEST"
		case vd == -1:
			want = w.wantCode(p)
		}
		if !ok || s != want || vd == -1 && want == "" {
			bad("the code is %v, not %q", code, want)
		}
	}
	if vd == 1 {
		w.itemAnswer(p, e.Pos(), v)
	}
}

// itemAnswer: a hit's answer carries the item found.
func (w *srvWatch) itemAnswer(p *Path, pos token.Pos, v *Term) {
	bad := func(f string, a ...any) { w.fail("answers truly", p, pos, f, a...) }
	if o := valField(w.x, v, "Owners"); o != nil && (!o.isCall(hcM+"ClusterOwners") || !w.keyOK(p, o.callArgs()[1])) {
		bad("the owners are %v", o)
	}
	if w.op != "GetWithInfo" {
		return
	}
	it := resAt(w.did(p), 0)
	from := func(t *Term, fl string) bool {
		return t != nil && t.any(func(u *Term) bool {
			return u.isLoadOf("Item."+fl) && loadBase(u) != nil && loadBase(u).key == it.key || fl == "Value" && u.op == "out"
		})
	}
	if ver := valField(w.x, v, "Version"); ver != nil && !from(ver, "Version") {
		bad("the version is %v", ver)
	}
	if o := valField(w.x, v, "Origin"); o != nil && !from(o, "Origin") {
		bad("the origin is %v", o)
	}
	if s := valField(w.x, v, "Value"); s != nil && !from(s, "Value") && !emptyEnc(s) {
		bad("the value is %v", s)
	}
	if s := valField(w.x, v, "ValueEncoding"); s != nil && strOf(s) != "base64" {
		bad("the value's encoding is %v", s)
	}
}

// emptyEnc: the encoding of nothing, for a value that has no bytes.
func emptyEnc(t *Term) bool {
	return t.isCall("encoding/base64.(*Encoding).EncodeToString") && t.callArgs()[1].isNil()
}

func (w *srvWatch) turnEnd(p *Path, e *Event) {
	if !p.Has("t/app") {
		w.fail("answers truly", p, e.Pos(), "an entry of the batch gets no answer")
	}
}

func (w *srvWatch) outcome(o Outcome, pos token.Pos) {
	p := o.Path
	bad := func(f string, a ...any) { w.fail("answers truly", p, pos, f, a...) }
	st := statusOf(p)
	if !p.Has("reply") || p.Has("reply2") {
		bad("a request gets not exactly one answer")
		return
	}
	if r := p.Vars["result"]; r != nil && len(o.Res) == 1 && o.Res[0].key != r.key {
		bad("the handler returns %v, not what answering returned", o.Res[0])
	}
	body := p.Vars["body"]
	if body != nil {
		body = body.unbox()
	}
	if w.loop != nil {
		req := p.Vars["req"]
		switch {
		case req != nil && p.KnownNonNil(req):
			if st != 400 {
				bad("a malformed request is answered with %d", st)
			}
		case req == nil || !p.KnownNil(req):
			bad("an answer without a look at the request")
		case st != 200:
			bad("a well-formed batch is answered with %d", st)
		case !p.Has("t.all"):
			bad("the batch is answered before its end")
		default:
			if l := valField(w.x, body, "Results"); l == nil || l.isNil() {
				bad("the batch's answer carries %v", l)
			}
		}
		return
	}
	raw, un := p.Vars["raw"], p.Vars["unesc"]
	if raw == nil {
		w.fail("served", p, pos, "the key is not read from the path")
		return
	}
	empty := p.Decide(eq(raw, tStr(""))) == yes || un != nil && (p.Decide(eq(resAt(un, 0), tStr(""))) == yes)
	if w.op == "" || !p.Has("op") {
		d := p.Vars["ttl"]
		reason := empty || d != nil && p.KnownNonNil(resAt(d, 1))
		if w.op == "" && !reason {
			if st != 200 || !w.keyOK(p, orNil(valField(w.x, body, "Key"))) || !orNil(valField(w.x, body, "Owners")).isCall(hcM+"ClusterOwners") {
				bad("the owners are answered with %d %v", st, body)
			}
			return
		}
		if !reason {
			bad("%s answers without asking the cache", w.route)
		} else if st != 400 {
			bad("a malformed request is answered with %d", st)
		}
		return
	}
	switch w.verdict(p) {
	case 0:
		bad("%s answers without a look at what the cache said", w.route)
	case -1:
		want, code := int64(404), ""
		if w.op != "GetWithInfo" {
			code = w.wantCode(p)
			want = 500
			if t := p.Vars["ErrNotOwner"]; code == "DRAINING" || t != nil && p.Decide(t) == yes {
				want = 503
			} else if t == nil || p.Decide(t) != no {
				bad("the failure is answered without asking whether the key has no owners")
			}
			if code == "" {
				bad("the failure is answered without asking whether the node drains")
			}
		} else if body != nil {
			code = "NOT_FOUND"
		}
		if st != want {
			bad("a failed %s is answered with %d, not %d", w.op, st, want)
		}
		if c := valField(w.x, body, "Code"); code != "" && (c == nil || strOf(c) != code) {
			bad("a failed %s is answered with the code %v, not %s", w.op, c, code)
		}
	case 1:
		if st != 200 {
			bad("a successful %s is answered with %d", w.op, st)
			return
		}
		switch {
		case strings.HasPrefix(w.route, "HEAD"):
		case p.Vars["kind"].name == "JSON" && valField(w.x, body, "Key") != nil:
			if !w.keyOK(p, valField(w.x, body, "Key")) {
				bad("the answer is about %v", valField(w.x, body, "Key"))
			}
			for _, fl := range []string{"Stored", "Deleted"} {
				if f := valField(w.x, body, fl); f != nil && f.key != tTrue.key {
					bad("%s is %v after a success", fl, f)
				}
			}
			w.itemAnswer(p, pos, body)
		case w.op != "GetWithInfo":
			bad("the answer is %v", body)
		default:
			it := resAt(w.did(p), 0)
			if body == nil || !body.any(func(u *Term) bool { return u.isLoadOf("Item.Value") && loadBase(u) != nil && loadBase(u).key == it.key }) && !body.any(func(u *Term) bool { return u.op == "out" }) {
				bad("a hit is answered with %v", body)
			}
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}
