package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tBearer = "WithBearerAuth"
	tBasic  = "WithBasicAuth"
	tOIDC   = "WithOIDCClientCredentials"
	tHTTP   = "WithHTTPClient"
	tRefr   = "WithTopologyRefresh"
	tLogger = "WithLogger"
)

func runK07(c *Ctx) {
	pkg := c.P.pkg(relClient)
	for _, n := range []string{tBearer, tBasic, tOIDC, tHTTP, tRefr, tLogger} {
		c.NeedF(relClient, n)
	}
	for _, f := range c.exportedRoots(relClient) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || typeStr(f.Signature.Results().At(0).Type()) != "pkg/client.Option" {
			continue
		}
		c.checkOption(f)
	}
	if pkg == nil {
		return
	}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relClient || f.Synthetic != "" || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		switch {
		case f.Name() == "RoundTrip" && f.Signature.Params().Len() == 1:
			c.checkRoundTrip(f)
		case f.Name() == "Token" && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 2:
			c.checkTokenSource(f)
		}
	}
	c.checkSecrets()
}

// optionOutcomes runs an option on an arbitrary client.
func (c *Ctx) optionOutcomes(f *ssa.Function, on func(p *Path, e *Event)) (x *Engine, outs []Outcome, cl *Term) {
	x = newEngine(c.P, f)
	ct := types.NewPointer(c.P.pkg(relClient).Type("Client").Type())
	cl = mk(&Term{op: "param", name: "client", typ: ct})
	for _, o := range c.Explore(x, nil) {
		q := o.Path.fork()
		q.Assume(mkEq(cl, tNil), false)
		r := evalEvents(x, q, o.Res[0], []*Term{cl}, on)
		if len(r) == 0 {
			c.Fail("option "+f.Name()+": analysable", f.Pos(), o.Trace(), "%s does not return an option that can be followed: %s", f.Name(), short(o.Res[0]))
		}
		outs = append(outs, r...)
	}
	c.Paths += len(outs)
	for g := range x.Fns {
		c.Fns[g.String()] = true
	}
	return
}

func (c *Ctx) checkOption(f *ssa.Function) {
	n := f.Name()
	key := func(k string) string { return "option " + n + ": " + k }
	for _, k := range []string{"analysable", "a rejected option leaves the client unchanged", "rejects exactly the incomplete settings", "effect"} {
		c.Oblige(key(k))
	}
	prm := func(i int) *Term { return rootParam(f, i) }
	var clT *Term
	x, outs, cl := c.optionOutcomes(f, func(p *Path, e *Event) {
		switch e.Kind {
		case "store":
			a := e.Addr
			if a.op == "field" && a.args[0].op == "alloc" && a.fld != nil && typeStr(a.fld.Type()) == "golang.org/x/oauth2.TokenSource" {
				p.Vars["inner|"+a.args[0].key] = e.Val.unbox()
			}
			for a.op == "field" || a.op == "idx" {
				if a.op == "field" && strings.HasPrefix(a.name, "Client.") && a.args[0].key == "param:client" {
					p.Set("stored " + a.name)
				}
				if a.op == "field" && a.args[0].isLoadOf("Client.http") {
					c.Fail(key("effect"), e.Pos(), p.Trace(), "modifies the HTTP client it was given (%s)", a.name)
				}
				a = a.args[0]
			}
		case "precall":
			if strings.HasSuffix(e.Name, "clientcredentials.(*Config).TokenSource") && len(e.Args) == 2 {
				p.Vars["oidccfg"] = p.x.Load(p, e.Args[0], nil)
				p.Vars["oidcctx"] = e.Args[1]
			}
		case "call":
			if strings.HasSuffix(e.Name, "clientcredentials.(*Config).TokenSource") {
				p.Vars["oidcsrc"] = e.Res
			}
		}
	})
	_ = clT
	for _, o := range outs {
		p := o.Path
		fail := func(k, f2 string, a ...any) { c.Fail(key(k), f.Pos(), p.Trace(), f2, a...) }
		er := o.Res[0]
		ok := er.isNil() || p.KnownNil(er)
		stored := map[string]bool{}
		for k := range p.Flags {
			if strings.HasPrefix(k, "stored ") {
				stored[strings.TrimPrefix(k, "stored ")] = true
			}
		}
		if !ok {
			if len(stored) > 0 {
				fail("a rejected option leaves the client unchanged", "returns an error after changing %v", sortedKeys(stored))
			}
			if !p.KnownNonNil(er) && !nonNilTerm(er) && !nonNilTerm(er.unbox()) && !(er.unbox().op == "load" && er.unbox().args[0].op == "global") {
				fail("rejects exactly the incomplete settings", "the result %s may or may not be an error", short(er))
			}
		}
		empty := func(ts ...*Term) (any, none bool) {
			none = true
			for _, t := range ts {
				switch p.Decide(eq(t, tEmpty)) {
				case yes:
					any, none = true, false
				case unknown:
					none = false
				}
			}
			return
		}
		reject := func(bad, good bool, what string) {
			if ok && !good {
				fail("rejects exactly the incomplete settings", "accepts %s", what)
			}
			if !ok && !bad {
				fail("rejects exactly the incomplete settings", "rejects a complete setting")
			}
		}
		only := func(fields ...string) {
			want := map[string]bool{}
			for _, w := range fields {
				want["Client."+w] = true
			}
			for s := range stored {
				if !want[s] {
					fail("effect", "also changes %s", s)
				}
			}
		}
		switch n {
		case tBearer:
			bad, good := empty(prm(0))
			reject(bad, good, "an empty token")
			if ok {
				only("http")
				c.checkAuthClient(x, p, cl, fail, func(v *Term) bool {
					return samePieces(concat(v), []*Term{tStr("Bearer "), prm(0)})
				})
			}
		case tBasic:
			bad, good := empty(prm(0), prm(1))
			reject(bad, good, "an empty username or password")
			if ok {
				only("http")
				c.checkAuthClient(x, p, cl, fail, func(v *Term) bool {
					ps := normPieces(concat(v))
					if len(ps) != 2 || ps[0].key != tStr("Basic ").key || !ps[1].isCall("encoding/base64.(*Encoding).EncodeToString") {
						return false
					}
					ca := ps[1].callArgs()
					u := ca[0].unbox()
					return u.op == "load" && u.args[0].name == "encoding/base64.StdEncoding" && samePieces(concat(ca[1].strip()), []*Term{prm(0), tStr(":"), prm(1)})
				})
			}
		case tOIDC:
			bad, good := empty(structField(prm(0), "ClientID"), structField(prm(0), "ClientSecret"), structField(prm(0), "TokenURL"))
			reject(bad, good, "a configuration with a missing client id, secret or token URL")
			if ok {
				only("http")
				c.checkOIDCClient(x, p, cl, prm(0), fail)
			}
		case tHTTP:
			reject(p.KnownNil(prm(0)), p.KnownNonNil(prm(0)), "a nil HTTP client")
			if ok {
				only("http")
				if v := x.fieldByName(p, cl, "http"); v.key != prm(0).key {
					fail("effect", "the client uses %s", short(v))
				}
			}
		case tRefr:
			pos, sec := p.Decide(lt(tInt(0), prm(0))), p.Decide(lt(prm(0), tInt(1000000000)))
			reject(pos == yes && sec == yes, pos == no || sec == no, "an interval below one second")
			if ok {
				only("refreshInterval")
				if v := x.fieldByName(p, cl, "refreshInterval"); v.key != prm(0).key {
					if lo, hi := p.interval(v); !(pos == no && hi != nil && *hi <= 0) || lo == nil && hi == nil {
						fail("effect", "the interval becomes %s", short(v))
					}
				}
			}
		case tLogger:
			if !ok {
				fail("rejects exactly the incomplete settings", "a logger is rejected")
				break
			}
			only("logger")
			v := x.fieldByName(p, cl, "logger")
			switch {
			case p.KnownNil(prm(0)):
				if !v.isCall("log/slog.New") {
					fail("effect", "with a nil logger the client logs to %s", short(v))
				} else if h := v.callArgs()[0].unbox(); !(h.op == "load" && h.args[0].name == "log/slog.DiscardHandler") {
					fail("effect", "with a nil logger the client logs to %s", short(h))
				}
			case p.KnownNonNil(prm(0)):
				if v.key != prm(0).key {
					fail("effect", "the client logs to %s", short(v))
				}
			default:
				fail("effect", "a nil logger is stored")
			}
		}
	}
}

// strippedTransport: b is the previous transport without an authentication
// layer put there by an earlier option.
func (c *Ctx) strippedTransport(x *Engine, p *Path, prev, b *Term) string {
	if p.KnownNil(prev) {
		if b.isNil() || b.op == "zero" {
			return ""
		}
		return "is " + short(b)
	}
	tr := x.fieldByName(p, prev, "Transport")
	u := b.unbox()
	layers := []string{"headerAuthTransport.base", "Transport.Base"}
	for _, l := range layers {
		if base, ok := loadField(u, l); ok && strings.HasPrefix(base.op, "as") && base.contains(tr) {
			return ""
		}
		if base, ok := loadField(u, l); ok && base.contains(tr) {
			return ""
		}
	}
	if u.key != tr.unbox().key {
		return "is " + short(b) + ", not the previous transport"
	}
	for _, k := range p.isFacts(tr) {
		if k.v && (strings.HasSuffix(k.name, ".headerAuthTransport") || strings.HasSuffix(k.name, "oauth2.Transport")) {
			return "still carries the credentials of an earlier option"
		}
	}
	seen := map[string]bool{}
	for _, k := range p.isFacts(tr) {
		if !k.v {
			seen[k.name] = true
		}
	}
	if p.KnownNil(tr) {
		return ""
	}
	h, o := false, false
	for k := range seen {
		h = h || strings.HasSuffix(k, ".headerAuthTransport")
		o = o || strings.HasSuffix(k, "oauth2.Transport")
	}
	if !h || !o {
		return "may still carry the credentials of an earlier option"
	}
	return ""
}

type isFact struct {
	name string
	v    bool
}

// isFacts lists the dynamic type facts known of t.
func (p *Path) isFacts(t *Term) []isFact {
	var out []isFact
	for _, r := range p.rels {
		if r.t.op == "is" && r.t.args[0].unbox().key == t.unbox().key {
			out = append(out, isFact{r.t.name, r.v})
		}
	}
	return out
}

// checkClientCopy: v is a fresh HTTP client with the previous settings.
func (c *Ctx) checkClientCopy(x *Engine, p *Path, prev, v *Term, fail func(k, f string, a ...any)) bool {
	if v.op != "alloc" {
		fail("effect", "the HTTP client is %s: the one that was supplied is modified or dropped", short(v))
		return false
	}
	if !p.KnownNil(prev) {
		for _, fd := range []string{"Timeout", "Jar", "CheckRedirect"} {
			a, b := x.fieldByName(p, v, fd), x.fieldByName(p, prev, fd)
			if a == nil || b == nil || a.key != b.key {
				fail("effect", "the HTTP client loses its %s", fd)
			}
		}
	}
	return true
}

func (c *Ctx) prevHTTP(x *Engine, cl *Term) *Term {
	st := structOf(derefT(cl.typ))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "http" {
			return mk(&Term{op: "load", args: []*Term{fieldAddr(cl, derefT(cl.typ), st.Field(i))}, typ: st.Field(i).Type()})
		}
	}
	return tNil
}

func (c *Ctx) checkAuthClient(x *Engine, p *Path, cl *Term, fail func(k, f string, a ...any), header func(v *Term) bool) {
	prev := c.prevHTTP(x, cl)
	v := x.fieldByName(p, cl, "http")
	if !c.checkClientCopy(x, p, prev, v, fail) {
		return
	}
	tr := x.fieldByName(p, v, "Transport").unbox()
	if tr.op != "alloc" || !moduleType(tr.typ) {
		fail("effect", "requests go through %s, which adds no credentials", short(tr))
		return
	}
	st := structOf(derefT(tr.typ))
	var base, hv *Term
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch {
		case isStringT(ft):
			hv = x.fieldByName(p, tr, st.Field(i).Name())
		case typeStr(ft) == "net/http.RoundTripper":
			base = x.fieldByName(p, tr, st.Field(i).Name())
		}
	}
	if hv == nil || !header(hv) {
		fail("effect", "the Authorization header is %s", short(hv))
	}
	if base == nil {
		fail("effect", "the previous transport is dropped")
	} else if why := c.strippedTransport(x, p, prev, base); why != "" {
		fail("effect", "the transport under the credentials %s", why)
	}
}

func (c *Ctx) checkOIDCClient(x *Engine, p *Path, cl, cfg *Term, fail func(k, f string, a ...any)) {
	prev := c.prevHTTP(x, cl)
	v := x.fieldByName(p, cl, "http")
	if !c.checkClientCopy(x, p, prev, v, fail) {
		return
	}
	got := p.Vars["oidccfg"]
	if got == nil || got.key != cfg.key {
		fail("effect", "tokens are requested with %s, not the given configuration", short(got))
		return
	}
	// which HTTP client talks to the identity provider
	idp := func(ctx *Term) *Term {
		if ctx == nil || !ctx.isCall("context.WithValue") {
			return nil
		}
		a := ctx.callArgs()
		if u := a[1].unbox(); !(u.op == "load" && u.args[0].name == "golang.org/x/oauth2.HTTPClient") {
			return nil
		}
		return a[2].unbox()
	}
	checkBase := func(b *Term, what string) {
		if b == nil || b.op != "alloc" {
			fail("effect", "%s uses %s", what, short(b))
			return
		}
		if why := c.strippedTransport(x, p, prev, x.fieldByName(p, b, "Transport")); why != "" {
			fail("effect", "the transport of %s %s", what, why)
		}
	}
	checkBase(idp(p.Vars["oidcctx"]), "the token request")
	tr := x.fieldByName(p, v, "Transport").unbox()
	var src *Term
	if b, ok := loadField(tr, "Client.Transport"); ok && b.isCall("golang.org/x/oauth2.NewClient") {
		a := b.callArgs()
		src = a[1].unbox()
		checkBase(idp(a[0]), "the cache requests")
	} else if tr.op == "alloc" && typeStr(derefT(tr.typ)) == "golang.org/x/oauth2.Transport" {
		src = x.fieldByName(p, tr, "Source").unbox()
		if why := c.strippedTransport(x, p, prev, x.fieldByName(p, tr, "Base")); why != "" {
			fail("effect", "the transport of the cache requests %s", why)
		}
	} else {
		fail("effect", "requests go through %s, which adds no token", short(tr))
		return
	}
	want := p.Vars["oidcsrc"]
	for i := 0; i < 3 && src.op == "alloc"; i++ {
		in := p.Vars["inner|"+src.key]
		if in == nil {
			break
		}
		src = in
	}
	if src.isCall("golang.org/x/oauth2.ReuseTokenSource") {
		src = src.callArgs()[1].unbox()
	}
	if want == nil || src.key != want.key {
		fail("effect", "tokens come from %s", short(src))
	}
}

func (c *Ctx) checkRoundTrip(f *ssa.Function) {
	key := func(k string) string { return calleeName(f) + ": " + k }
	for _, k := range []string{"the caller's request is not modified", "credentials on the request sent", "one request", "answer passed through"} {
		c.Oblige(key(k))
	}
	x := newEngine(c.P, f)
	req := rootParam(f, 1)
	fail := func(k string, p *Path, e *Event, s string, a ...any) { c.Fail(key(k), e.Pos(), p.Trace(), s, a...) }
	isHdr := func(t *Term, of *Term) bool { b, ok := loadField(t, "Request.Header"); return ok && b.key == of.key }
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "store":
			if r := e.Addr.addrRoot(); r.key == req.key {
				fail("the caller's request is not modified", p, e, "writes %s", short(e.Addr))
			}
		case "mapupdate":
			if isHdr(e.Addr, req) {
				fail("the caller's request is not modified", p, e, "writes a header of the caller's request")
			}
		case "call":
			switch {
			case e.Name == "net/http.(*Request).Clone":
				p.Vars["clone"] = e.Res
				if e.Args[0].key != req.key {
					fail("answer passed through", p, e, "clones %s", short(e.Args[0]))
				}
				if u := e.Args[1]; !u.isCall("net/http.(*Request).Context") || u.callArgs()[0].key != req.key {
					fail("answer passed through", p, e, "the request's context is replaced by %s", short(u))
				}
			case strings.HasPrefix(e.Name, "net/http.(Header).") && !strings.HasSuffix(e.Name, ".Get") && !strings.HasSuffix(e.Name, ".Values"):
				if isHdr(e.Args[0], req) {
					fail("the caller's request is not modified", p, e, "writes a header of the caller's request")
				}
				k, _ := e.Args[1].strConst()
				cl := p.Vars["clone"]
				if canonHeader(k) == "authorization" {
					p.Clear("auth")
					if e.Name == "net/http.(Header).Set" && cl != nil && isHdr(e.Args[0], cl) {
						if b, ok := loadField(e.Args[2], "headerAuthTransport.headerValue"); ok && b.key == rootParam(f, 0).key || strField(e.Args[2], rootParam(f, 0)) {
							p.Set("auth")
						} else {
							fail("credentials on the request sent", p, e, "the header is %s", short(e.Args[2]))
						}
					}
				} else {
					fail("credentials on the request sent", p, e, "also changes the header %q", k)
				}
			case strings.HasSuffix(e.Name, "RoundTripper.RoundTrip") || isHTTPDo(e.Name):
				if p.Has("sent") {
					fail("one request", p, e, "sends the request again")
				}
				p.Set("sent")
				cl := p.Vars["clone"]
				if cl == nil || e.Args[len(e.Args)-1].key != cl.key || !p.Has("auth") {
					fail("credentials on the request sent", p, e, "sends %s without the credentials", short(e.Args[len(e.Args)-1]))
				}
				recv := e.Args[0].unbox()
				if b, ok := loadField(recv, "headerAuthTransport.base"); ok && b.key == rootParam(f, 0).key {
					if !p.KnownNonNil(recv) {
						fail("one request", p, e, "the base transport may be nil")
					}
				} else if recv.op == "load" && recv.args[0].name == "net/http.DefaultTransport" {
					if !p.Has("nobase") {
						fail("one request", p, e, "the configured transport is bypassed")
					}
				} else {
					fail("one request", p, e, "sends through %s", short(recv))
				}
				p.Vars["resp"], p.Vars["err"] = e.Res.args[0], e.Res.args[1]
			}
		case "branch":
			if isCmp(e.Val, "==") && e.Val.args[1].isNil() && e.Truth {
				if _, ok := loadField(e.Val.args[0], "headerAuthTransport.base"); ok {
					p.Set("nobase")
				}
			}
		case "return":
			r, er := e.Args[0], e.Args[1]
			if !p.Has("sent") {
				fail("one request", p, e, "returns without sending the request")
				return
			}
			resp, serr := p.Vars["resp"], p.Vars["err"]
			isErr := func(t *Term) bool { return t.key == serr.key }
			switch {
			case r.key == resp.key && er.key == serr.key:
			case p.KnownNil(serr):
				if r.key != resp.key || !er.isNil() && er.key != serr.key {
					fail("answer passed through", p, e, "a good answer becomes (%s, %s)", short(r), short(er))
				}
			case p.KnownNonNil(serr):
				if !wrapsPred(er, isErr) {
					fail("answer passed through", p, e, "the transport's error becomes %s", short(er))
				}
			default:
				fail("answer passed through", p, e, "returns (%s, %s)", short(r), short(er))
			}
		}
	}
	c.Explore(x, nil)
}

// strField: t is the only string field of the receiver.
func strField(t, recv *Term) bool {
	t = t.unbox()
	return t.op == "load" && t.args[0].op == "field" && t.args[0].args[0].key == recv.key && isStringT(t.typ)
}

func (c *Ctx) checkTokenSource(f *ssa.Function) {
	key := func(k string) string { return calleeName(f) + ": " + k }
	for _, k := range []string{"one request to the inner source", "token passed through", "error passed through"} {
		c.Oblige(key(k))
	}
	x := newEngine(c.P, f)
	fail := func(k string, p *Path, e *Event, s string, a ...any) { c.Fail(key(k), e.Pos(), p.Trace(), s, a...) }
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if strings.HasSuffix(e.Name, "TokenSource.Token") {
				if p.Has("asked") {
					fail("one request to the inner source", p, e, "asks the inner source again")
				}
				p.Set("asked")
				if b, ok := loadField(e.Args[0], "loggingTokenSource.inner"); !ok || b.key != rootParam(f, 0).key {
					fail("one request to the inner source", p, e, "asks %s", short(e.Args[0]))
				}
				p.Vars["tok"], p.Vars["err"] = e.Res.args[0], e.Res.args[1]
			}
		case "store":
			if p.Vars["tok"] != nil && e.Addr.contains(p.Vars["tok"]) {
				fail("token passed through", p, e, "changes the token (%s)", short(e.Addr))
			}
		case "return":
			tok, er := p.Vars["tok"], p.Vars["err"]
			if tok == nil {
				fail("one request to the inner source", p, e, "returns without asking the inner source")
				return
			}
			switch {
			case p.KnownNil(er):
				if e.Args[0].key != tok.key || !e.Args[1].isNil() && e.Args[1].key != er.key {
					fail("token passed through", p, e, "a good token becomes (%s, %s)", short(e.Args[0]), short(e.Args[1]))
				}
			case p.KnownNonNil(er):
				if !e.Args[0].isNil() || !wrapsPred(e.Args[1], func(t *Term) bool { return t.key == er.key }) {
					fail("error passed through", p, e, "a token error becomes (%s, %s)", short(e.Args[0]), short(e.Args[1]))
				}
			default:
				fail("error passed through", p, e, "the inner source's error is not examined")
			}
		}
	}
	c.Explore(x, nil)
}

// checkSecrets: nothing derived from a credential reaches a log or an error.
func (c *Ctx) checkSecrets() {
	type rootSpec struct {
		f   *ssa.Function
		sec []*Term
	}
	var roots []rootSpec
	for _, f := range c.exportedRoots(relClient) {
		rs := rootSpec{f: f}
		switch f.Name() {
		case tBearer:
			rs.sec = []*Term{rootParam(f, 0)}
		case tBasic:
			rs.sec = []*Term{rootParam(f, 1)}
		}
		roots = append(roots, rs)
	}
	for _, f := range c.goRoots(relClient) {
		roots = append(roots, rootSpec{f: f})
	}
	secretField := map[string]bool{"Config.ClientSecret": true, "headerAuthTransport.headerValue": true, "Token.AccessToken": true, "Token.RefreshToken": true}
	secretType := map[string]bool{"golang.org/x/oauth2.Token": true, "golang.org/x/oauth2/clientcredentials.Config": true, relClient + ".headerAuthTransport": true, "net/http.Request": true, "net/http.Header": true, "net/http.Client": true, relClient + ".Client": true}
	var taint func(t *Term, sec []*Term, d int) string
	taint = func(t *Term, sec []*Term, d int) string {
		if t == nil || d > 12 {
			return ""
		}
		for _, s := range sec {
			if t.key == s.key {
				return "the credential"
			}
		}
		if (t.op == "field" || t.op == "fld") && secretField[t.name] {
			return t.name
		}
		switch t.op {
		case "len", "is", "has":
			return ""
		case "bin":
			if t.typ != nil && isBoolT(t.typ) {
				return ""
			}
		case "ext", "call":
			if isErrorT(t.typ) || t.op == "ext" && t.args[0].op == "call" {
				return ""
			}
		}
		for _, a := range t.args {
			if s := taint(a, sec, d+1); s != "" {
				return s
			}
		}
		return ""
	}
	sink := func(n string) bool {
		if hasPrefixAny(n, "fmt.Sprint", "fmt.Append") {
			return false // builds a text: what it holds is followed from there
		}
		return hasPrefixAny(n, "log/slog.", "log.", "fmt.", "errors.", "github.com/hyp3rd/ewrap.") && n != "errors.Is" && n != "errors.As"
	}
	for _, r := range roots {
		k := "no credential in logs or errors: " + calleeName(r.f)
		c.Oblige(k)
		on := func(p *Path, e *Event) {
			if e.Kind != "call" || !sink(e.Name) {
				return
			}
			var args []*Term
			for _, a := range e.Args {
				if a.op == "list" {
					args = append(args, a.args...)
				} else {
					args = append(args, a)
				}
			}
			for _, a := range args {
				if w := taint(a, r.sec, 0); w != "" {
					c.Fail(k, e.Pos(), p.Trace(), "%s is passed to %s", w, e.Name)
				}
				if u := a.unbox(); u.typ != nil && secretType[typeStr(derefT(u.typ))] && !strings.HasPrefix(e.Name, "fmt.") || u.typ != nil && secretType[typeStr(derefT(u.typ))] && u.op != "const" && e.Name != "log/slog.New" {
					c.Fail(k, e.Pos(), p.Trace(), "a %s is passed to %s", typeStr(derefT(u.typ)), e.Name)
				}
			}
		}
		if r.f.Signature.Results().Len() == 1 && typeStr(r.f.Signature.Results().At(0).Type()) == relClient+".Option" {
			c.optionOutcomes(r.f, on)
			continue
		}
		x := newEngine(c.P, r.f)
		x.OnEvent = on
		c.Explore(x, nil)
	}
}

func runK08(c *Ctx) {
	c.checkEndpointsCopy()
	roots := []*ssa.Function{}
	for _, f := range c.exportedRoots(relClient) {
		if f.Name() == "New" || f.Signature.Results().Len() == 1 && typeStr(f.Signature.Results().At(0).Type()) == relClient+".Option" {
			continue
		}
		roots = append(roots, f)
	}
	roots = append(roots, c.goRoots(relClient)...)
	for _, f := range c.typeMethods(relClient, "loggingTokenSource", true) {
		roots = append(roots, f)
	}
	newF := c.NeedF(relClient, "New")
	all := append([]*ssa.Function(nil), roots...)
	if newF != nil {
		all = append(all, newF)
	}
	var setters []string
	shared := func(p *Path, t *Term) bool {
		for i := 0; i < 3 && t.op == "slice"; i++ {
			t = t.args[0]
		}
		return isSnap(t) || t.isLoadOf("Client.seeds")
	}
	rngUsed := 0
	lr := lockRules{
		Guards:     []guard{{Field: "loggingTokenSource.lastExp", Lock: "loggingTokenSource.mu"}},
		NoCallback: true, NoBlock: true,
		Exempt: func(f *ssa.Function) bool { return f.Parent() != nil && isClientOption(f) },
	}
	lr.Extra = func(p *Path, e *Event) {
		bad := func(k, f string, a ...any) { c.Fail(k+" in "+calleeName(e.In), e.Pos(), p.Trace(), f, a...) }
		switch e.Kind {
		case "store":
			a := e.Addr
			if a.op == "idx" && shared(p, a.args[0]) {
				bad("published endpoint list modified", "writes an element of a published endpoint list")
			}
			for a.op == "field" && a.args[0].op == "field" {
				a = a.args[0]
			}
			if a.op == "field" && strings.HasPrefix(a.name, "Client.") && typeStr(derefT(a.args[0].typ)) == relClient+".Client" && !freshBase(a) {
				bad("client field written after construction", "writes %s of a client in use", a.name)
			}
			if a.op == "field" && a.args[0].isLoadOf("Client.http") {
				bad("client field written after construction", "writes %s of the HTTP client in use", a.name)
			}
		case "append":
			if shared(p, e.Args[0]) && len(e.Args) > 1 {
				bad("published endpoint list modified", "appends to a published endpoint list")
			}
		case "copy":
			if shared(p, e.Args[0]) {
				bad("published endpoint list modified", "copies into a published endpoint list")
			}
		case "clear":
			if shared(p, e.Addr) {
				bad("published endpoint list modified", "clears a published endpoint list")
			}
		case "precall":
			if hasPrefixAny(e.Name, "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Compact", "slices.Insert", "slices.Replace", "sort.") {
				for _, a := range e.Args {
					if shared(p, a.unbox()) {
						bad("published endpoint list modified", "%s works on a published endpoint list in place", e.Name)
					}
				}
			}
			if hasPrefixAny(e.Name, "math/rand/v2.(*Rand).", "math/rand.(*Rand).") {
				for _, a := range e.Args {
					if a.unbox().op == "closure" {
						for _, b := range a.unbox().args {
							if b.typ != nil {
								if v := p.x.Load(p, b, nil); shared(p, v) {
									bad("published endpoint list modified", "%s shuffles a published endpoint list in place", e.Name)
								}
							}
						}
					}
				}
				if sb, ok := loadField(e.Args[0], "failoverShuffler.rng"); ok {
					rngUsed++
					held := p.HeldW(func(t *Term) bool {
						if t.isFieldAddr("failoverShuffler.mu") {
							return t.args[0].key == sb.key
						}
						if t.isFieldAddr("Client.failoverRandMu") {
							b, ok := loadField(sb, "Client.failoverRand")
							return ok && b.key == t.args[0].key
						}
						return false
					})
					if !held {
						bad("random source guarded", "uses the random source without holding its lock")
					}
				} else if u := e.Args[0].unbox(); u.op != "call" && u.op != "alloc" {
					bad("random source guarded", "uses the random source %s", short(u))
				}
			}
		}
	}
	_ = setters
	c.Oblige("published endpoint list never modified")
	c.Oblige("client fields written during construction only")
	c.Oblige("random source guarded")
	c.runLocks(relClient, all, lr)
	c.Check("random source is used", rngUsed > 0, token.NoPos, "no use of the failover random source was found")
	// the only functions that write client fields are New, what only New calls, and options
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relClient || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeStr(derefT(fa.X.Type())) != relClient+".Client" {
					continue
				}
				if isClientOption(f) || f == newF || c.onlyFrom(f, newF, map[*ssa.Function]bool{}) {
					continue
				}
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					continue
				}
				c.Fail("client field written after construction in "+calleeName(f), st.Pos(), "", "%s writes a client field and is reachable after construction", calleeName(f))
			}
		}
	}
}

// isClientOption: a function literal an option constructor returns, or a
// helper taking the client that only those call.
func isClientOption(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Parent() == nil {
			r := g.Signature.Results()
			return r.Len() == 1 && typeStr(r.At(0).Type()) == relClient+".Option"
		}
	}
	return false
}

// onlyFrom: every static call of f is in root, an option, or a function called
// only from those; f is never used as a value or started as a goroutine.
func (c *Ctx) onlyFrom(f, root *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Object() != nil && token.IsExported(f.Name()) {
		return false
	}
	n := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.Value != ssa.Value(f) {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							if g != root && !isClientOption(g) && !c.onlyFrom(g, root, seen) {
								return false
							}
							n++
							continue
						}
						return false
					}
					n++
					if g != root && !isClientOption(g) && !c.onlyFrom(g, root, seen) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (c *Ctx) checkEndpointsCopy() {
	f := c.clientRoot("Endpoints")
	if f == nil {
		return
	}
	k := "Endpoints returns a copy of the current view"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		noteCopies(p, e)
		if e.Kind != "return" {
			return
		}
		r := e.Args[0]
		src := p.Vars["copyof|"+r.key]
		if r.op == "pcall" && r.name == "slices.Clone" {
			src = r.args[0]
		}
		switch {
		case src == nil:
			c.Fail(k, e.Pos(), p.Trace(), "returns %s", short(r))
		case isSnap(src):
		case src.isLoadOf("Client.seeds"):
			if !p.Has("noview") {
				c.Fail(k, e.Pos(), p.Trace(), "returns the seeds although a view exists")
			}
		default:
			c.Fail(k, e.Pos(), p.Trace(), "returns a copy of %s", short(src))
		}
	}
	inner := x.OnEvent
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "branch" && e.Truth && isCmp(e.Val, "==") && e.Val.args[1].isNil() && e.Val.args[0].isCall("sync/atomic.(*Pointer).Load") {
			p.Set("noview")
		}
		if e.Kind == "branch" && e.Truth && isCmp(e.Val, "==") && e.Val.args[0].op == "len" && isSnap(e.Val.args[0].args[0]) {
			p.Set("noview")
		}
		inner(p, e)
	}
	c.Explore(x, nil)
}
