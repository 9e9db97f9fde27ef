package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relAuth  = "pkg/httpauth"
	fiberGet = "github.com/gofiber/fiber/v3.Ctx.Get"
	tlsState = "github.com/valyala/fasthttp.(*RequestCtx).TLSConnectionState"
	hasScope = relAuth + ".(Identity).HasScope"
)

func init() {
	register(&Property{ID: "A01", Level: "proof", MinObl: 16, Run: func(c *Ctx) { c.authGates() },
		Explain: "Every path of the gate (Verify and the middleware closure) is followed through the credential chain. At each grant the path must hold the evidence for exactly the identity it grants (the comparison with that very row succeeded), and every class of credentials tried earlier in the documented order must be shown exhausted; at each refusal all classes must be exhausted."})
	register(&Property{ID: "A02", Level: "proof", MinObl: 4, Run: func(c *Ctx) { c.authGates() },
		Explain: "On every path, a token and the Authorization header meet only inside the constant-time comparison; the comparison happens in every turn of the loop over all tokens, and the loop is left only when it is exhausted."})
	register(&Property{ID: "A03", Level: "proof", MinObl: 8, Run: func(c *Ctx) { c.authGates() },
		Explain: "Every outcome of the gate: success only with the required scope shown held by the granted identity, which is stored under the published key; refusal is always a non-nil error with status 401 or 403, never stores an identity and never runs the next handler, which otherwise runs exactly once."})
	register(&Property{ID: "A05", Level: "proof", MinObl: 6, Run: func(c *Ctx) { c.authGates() },
		Explain: "Every password comparison on every path happens with TLS shown present or the opt-in shown set, on the row whose user name was shown equal to the presented one, over the password of the same header; certificate identities are compared only with the non-empty common name of the first certificate of the first verified chain."})
}

type authWatch struct {
	c        *Ctx
	x        *Engine
	root     *ssa.Function
	name     string
	required *Term
	t, b, ct *turns
	mw       bool
}

func (c *Ctx) authGates() {
	ver := c.NeedM(relAuth, "Policy", "Verify")
	mid := c.NeedM(relAuth, "Policy", "Middleware")
	if ver == nil || mid == nil {
		return
	}
	w := c.newAuthWatch(ver, "Verify")
	w.required = rootParam(ver, 2)
	w.x.OnEvent = w.on
	for _, o := range c.Explore(w.x, nil) {
		w.outcome(o.Path, o.Res[0], ver.Pos())
	}
	m := c.newAuthWatch(mid, "Middleware")
	m.mw = true
	m.required = rootParam(mid, 1)
	n := 0
	for _, o := range c.Explore(m.x, nil) {
		ctxT := mk(&Term{op: "param", name: "ctx", typ: ver.Signature.Params().At(0).Type()})
		for _, r := range evalEvents(m.x, o.Path, o.Res[0], []*Term{ctxT}, m.on) {
			n++
			c.Paths++
			m.outcome(r.Path, r.Res[0], mid.Pos())
		}
	}
	c.Check("Middleware: followed", n > 0, mid.Pos(), "Middleware does not return a handler that can be followed")
	for g := range m.x.Fns {
		c.Fns[g.String()] = true
	}
}

var authRules = map[string][]string{
	"A01": {"granted identity is the proven one", "bearer before basic before certificate before hook before anonymous", "valid credentials are accepted", "bearer token is the whole header value", "custom hook grants only without error", "anonymous only when allowed", "identity and scopes from the same row"},
	"A02": {"constant-time comparison only", "every token compared"},
	"A03": {"scope held", "identity stored", "nothing stored on refusal", "refusal is a 401 or 403 error", "next handler exactly once and only when granted"},
	"A05": {"basic needs TLS or the opt-in", "user name exact", "password of the same header", "certificate is the verified leaf", "malformed header proves nothing", "an unverified connection never panics"},
}

func (c *Ctx) newAuthWatch(f *ssa.Function, name string) *authWatch {
	w := &authWatch{c: c, x: newEngine(c.P, f), root: f, name: name}
	w.x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == hasScope }
	for _, k := range authRules[c.Prop] {
		if k == "next handler exactly once and only when granted" && name == "Verify" {
			continue
		}
		c.Oblige(name + ": " + k)
	}
	over := func(fd string) func(p *Path, s *Term) bool {
		return func(p *Path, s *Term) bool { return policyField(s, fd) }
	}
	w.t = &turns{tag: "t", over: over("Tokens"), end: func(p *Path, e *Event) {
		if !p.Has("t/cmp") {
			w.fail("A02", "every token compared", p, e.Pos(), "a token is skipped without comparison")
		}
	}}
	w.b = &turns{tag: "b", over: over("BasicIdentities"), end: func(p *Path, e *Event) {
		if !p.Has("b/miss") && !p.Has("basic.fail") {
			w.fail("A01", "valid credentials are accepted", p, e.Pos(), "a basic identity is passed over although its user name may match")
		}
	}}
	w.ct = &turns{tag: "c", over: over("CertIdentities"), end: func(p *Path, e *Event) {
		if !p.Has("c/miss") {
			w.fail("A01", "valid credentials are accepted", p, e.Pos(), "a certificate identity is passed over although its name may match")
		}
	}}
	return w
}

func (w *authWatch) fail(prop, k string, p *Path, pos token.Pos, f string, a ...any) {
	if prop == w.c.Prop {
		w.c.Fail(w.name+": "+k, pos, p.Trace(), f, a...)
	}
}

func isHeader(t *Term) bool {
	return t != nil && t.unbox().op == "pcall" && t.isCall(fiberGet) && len(t.callArgs()) >= 2 && strConstIs(t.callArgs()[1], "Authorization")
}

func strConstIs(t *Term, s string) bool {
	v, ok := t.strConst()
	return ok && v == s
}

func fromHeader(t *Term) bool { return t.any(isHeader) }

// headerRest: t is what follows prefix in the Authorization header (the path
// must separately show the prefix).
func headerRest(t *Term, prefix string) bool {
	t = t.strip()
	for t.isCall("strings.TrimSpace") {
		t = t.callArgs()[0].strip()
	}
	switch {
	case t.op == "slice" && isHeader(t.args[0].strip()):
		n, ok := t.args[1].intConst()
		return ok && n == int64(len(prefix)) && (len(t.args) < 3 || t.args[2].isNil() || t.args[2].op == "none" || t.args[2].op == "len")
	case t.isCall("strings.TrimPrefix"):
		return isHeader(t.callArgs()[0].strip()) && strConstIs(t.callArgs()[1], prefix)
	case isExt(t, 0) && t.args[0].isCall("strings.CutPrefix"):
		a := t.args[0].callArgs()
		return isHeader(a[0].strip()) && strConstIs(a[1], prefix)
	}
	return false
}

// basicPart: t is part i (0 user, 1 password) of the decoded Basic header.
func basicPart(t *Term, i int) bool {
	t = t.strip()
	dec := func(d *Term) bool {
		d = d.strip()
		if !isExt(d, 0) || !d.args[0].isCall("encoding/base64.(*Encoding).DecodeString") {
			return false
		}
		a := d.args[0].callArgs()
		u := a[0].unbox()
		return u.op == "load" && u.args[0].name == "encoding/base64.StdEncoding" && headerRest(a[1], "Basic ")
	}
	colon := func(a *Term) bool { return strConstIs(a, ":") }
	switch {
	case isExt(t, i) && t.args[0].isCall("strings.Cut"):
		a := t.args[0].callArgs()
		return dec(a[0]) && colon(a[1])
	case isExt(t, i) && t.args[0].isCall("bytes.Cut"):
		a := t.args[0].callArgs()
		return dec(a[0]) && colon(a[1].strip())
	}
	if s, ix, ok := elemOf(t); ok && s.isCall("strings.SplitN") {
		a := s.callArgs()
		n, k := ix.intConst()
		m, k2 := a[2].intConst()
		return k && k2 && n == int64(i) && m == 2 && dec(a[0]) && colon(a[1])
	}
	if t.op == "slice" && dec(t.args[0]) {
		idx := func(u *Term) bool {
			return u != nil && (u.isCall("strings.Index") || u.isCall("strings.IndexByte") || u.isCall("bytes.IndexByte")) && dec(u.callArgs()[0]) && (colon(u.callArgs()[1]) || func() bool { n, ok := u.callArgs()[1].intConst(); return ok && n == ':' }())
		}
		if i == 0 {
			lo, ok := t.args[1].intConst()
			return len(t.args) > 2 && idx(t.args[2]) && (t.args[1].isNil() || ok && lo == 0 || t.args[1].op == "none")
		}
		l := t.args[1]
		if l.op == "bin" && l.name == "+" && idx(l.args[0]) {
			n, ok := l.args[1].intConst()
			return ok && n == 1
		}
	}
	return false
}

// leafCN: t is the common name of the first certificate of the first verified chain.
func leafCN(t *Term) bool {
	s := t.key
	if t.op != "load" || t.args[0].op != "field" || !strings.HasSuffix(t.args[0].name, ".CommonName") {
		return false
	}
	if strings.Contains(s, "PeerCertificates") || strings.Contains(s, "Issuer") || !strings.Contains(s, ".Subject") {
		return false
	}
	n := 0
	good := true
	chains := false
	t.any(func(u *Term) bool {
		if u.op == "idx" {
			n++
			if v, ok := u.args[1].intConst(); !ok || v != 0 {
				good = false
			}
		}
		if u.isLoadOf("ConnectionState.VerifiedChains") && u.args[0].args[0].isCall(tlsState) {
			chains = true
		}
		return false
	})
	return good && chains && n == 2
}

func rowOf(t *Term, field string) (*Term, bool) {
	b, ok := loadField(t, field)
	if !ok {
		return nil, false
	}
	return b, true
}

func sameRow(a, b *Term) bool { return a != nil && b != nil && a.key == b.key }

func (w *authWatch) on(p *Path, e *Event) {
	if w.t.step(p, e) || w.b.step(p, e) || w.ct.step(p, e) {
		return
	}
	switch e.Kind {
	case "call":
		switch {
		case e.Name == "crypto/subtle.ConstantTimeCompare":
			row, ok := w.tokenCompare(p, e.Args)
			if !ok {
				if e.Args[0].any(fromToken) || e.Args[1].any(fromToken) {
					w.fail("A01", "bearer token is the whole header value", p, e.Pos(), "the token comparison is between %s and %s", short(e.Args[0]), short(e.Args[1]))
				}
				break
			}
			if iv := p.Vars["t"]; iv != nil && row.op == "idx" && row.args[1].key == iv.key {
				p.Set("t/cmp")
			}
		case e.Name == "github.com/gofiber/fiber/v3.Ctx.Locals" && len(e.Args) >= 2:
			w.locals(p, e)
		case e.Name == "github.com/gofiber/fiber/v3.Ctx.Next":
			p.Vars["nextres"] = e.Res
		}
		if e.Name != "crypto/subtle.ConstantTimeCompare" {
			for _, a := range e.Args {
				if e.Name != hasScope && mixesToken(a) {
					w.fail("A02", "constant-time comparison only", p, e.Pos(), "%s sees the token and the header together", e.Name)
				}
			}
			hdr, tok := false, false
			for _, a := range e.Args {
				hdr = hdr || fromHeader(a) && !a.any(isCTC)
				tok = tok || a.any(fromToken) && !a.any(isCTC)
			}
			if hdr && tok && e.Name != "append" {
				w.fail("A02", "constant-time comparison only", p, e.Pos(), "token and header are compared with %s", e.Name)
			}
		}
	case "precall":
		if strings.HasPrefix(e.Name, "dyn:") && strings.Contains(e.Name, "Policy.ServerVerify") {
			if why := w.notExhausted(p, "bearer", "basic", "cert"); why != "" {
				w.fail("A01", "bearer before basic before certificate before hook before anonymous", p, e.Pos(), "the custom hook runs although %s credentials may still match", why)
			}
		}
		if e.Name == "golang.org/x/crypto/bcrypt.CompareHashAndPassword" {
			w.password(p, e)
		}
		if e.Name == "github.com/gofiber/fiber/v3.Ctx.Next" {
			if p.Has("next") {
				w.fail("A03", "next handler exactly once and only when granted", p, e.Pos(), "the next handler runs twice")
			}
			p.Set("next")
			w.granted(p, e.Pos())
		}
	case "branch":
		w.branch(p, e)
	case "load", "index":
		w.safe(p, e)
	}
}

func isCTC(t *Term) bool { return t.isCall("crypto/subtle.ConstantTimeCompare") }
func fromToken(t *Term) bool {
	_, ok := loadField(t, "TokenIdentity.Token")
	return ok
}

// mixesToken: a term computed from both the header and a token, outside the
// constant-time comparison (lengths may be compared).
func mixesToken(t *Term) bool {
	hdr, tok := false, false
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || d > 40 || isCTC(t) || t.op == "len" {
			return
		}
		if isHeader(t) {
			hdr = true
			return
		}
		if fromToken(t) {
			tok = true
			return
		}
		if t.op == "idx" || t.op == "load" {
			for _, a := range t.args {
				rec(a, d+1)
			}
			return
		}
		for _, a := range t.args {
			rec(a, d+1)
		}
	}
	rec(t, 0)
	return hdr && tok
}

// tokenCompare: "Bearer "+token of a row against the header.
func (w *authWatch) tokenCompare(p *Path, args []*Term) (row *Term, ok bool) {
	for i := 0; i < 2; i++ {
		a, b := args[i].strip(), args[1-i].strip()
		ps := normPieces(concat(b))
		if isHeader(a) && len(ps) == 2 && strConstIs(ps[0], "Bearer ") {
			if r, ok := rowOf(ps[1], "TokenIdentity.Token"); ok {
				return r, true
			}
		}
		if r, ok := rowOf(b, "TokenIdentity.Token"); ok && headerRest(a, "Bearer ") && !a.isCall("strings.TrimSpace") && p.Has("bearer") {
			return r, true
		}
	}
	return nil, false
}

func (w *authWatch) password(p *Path, e *Event) {
	if !p.Has("tls") && !p.Has("plainok") {
		w.fail("A05", "basic needs TLS or the opt-in", p, e.Pos(), "a password is checked although the connection may be plaintext and the opt-in is not known to be set")
	}
	row, ok := rowOf(e.Args[0], "BasicIdentity.PasswordBcrypt")
	if !ok || !sameRow(row, p.Vars["b/row"]) {
		w.fail("A05", "user name exact", p, e.Pos(), "the hash %s is checked for a row whose user name was not matched", short(e.Args[0]))
	}
	for _, k := range [][2]string{{"basicpfx", "the header is not known to be a Basic one"}, {"b64ok", "the payload may be malformed"}, {"colon", "the payload may have no colon"}} {
		if !p.Has(k[0]) {
			w.fail("A05", "malformed header proves nothing", p, e.Pos(), "a password is checked although %s", k[1])
		}
	}
	if !basicPart(e.Args[1], 1) {
		w.fail("A05", "password of the same header", p, e.Pos(), "the password checked is %s", short(e.Args[1]))
	}
}

// safe: the TLS state is read only when there is one, and its chains are
// indexed only when they are known not to be empty.
func (w *authWatch) safe(p *Path, e *Event) {
	const k = "an unverified connection never panics"
	switch {
	case e.Kind == "load" && e.Addr.op == "field" && e.Addr.args[0].isCall(tlsState):
		if !p.KnownNonNil(e.Addr.args[0]) && !p.Has("tls") {
			w.fail("A05", k, p, e.Pos(), "%s is read although the connection may be plaintext", short(e.Addr))
		}
	case e.Kind == "index" && len(e.Args) == 2 && e.Args[0].any(func(t *Term) bool { return t.isLoadOf("ConnectionState.VerifiedChains") }):
		n, ok := e.Args[1].intConst()
		if ok && n == 0 && !p.Has("full:"+e.Args[0].key) && p.Decide(eq(lenOf(e.Args[0]), tInt(0))) != no {
			w.fail("A05", k, p, e.Pos(), "%s is indexed although it may be empty", short(e.Args[0]))
		}
	}
}

func (w *authWatch) branch(p *Path, e *Event) {
	v, tr := e.Val, e.Truth
	if mixesToken(v) {
		w.fail("A02", "constant-time comparison only", p, e.Pos(), "branches on %s", short(v))
	}
	set := func(c bool, f string) {
		if c {
			p.Set(f)
		}
	}
	switch {
	case v.isCall("strings.HasPrefix") && isHeader(v.callArgs()[0]):
		switch s, _ := v.callArgs()[1].strConst(); s {
		case "Basic ":
			set(!tr, "basic!")
			set(tr, "basicpfx")
		case "Bearer ":
			set(!tr, "bearer!")
			set(tr, "bearer")
		}
		return
	case isExt(v, 1) && v.args[0].isCall("strings.CutPrefix") && isHeader(v.args[0].callArgs()[0]):
		switch s, _ := v.args[0].callArgs()[1].strConst(); s {
		case "Basic ":
			set(!tr, "basic!")
			set(tr, "basicpfx")
		case "Bearer ":
			set(!tr, "bearer!")
			set(tr, "bearer")
		}
		return
	case isExt(v, 2) && (v.args[0].isCall("strings.Cut") || v.args[0].isCall("bytes.Cut")) && basicPart(mk(&Term{op: "ext", idx: 0, args: v.args}), 0):
		set(!tr, "basic!")
		set(tr, "colon")
		return
	case policyField(v, "AllowBasicWithoutTLS"):
		set(tr, "plainok")
		set(!tr, "plainno")
		return
	case policyField(v, "AllowAnonymous"):
		set(tr, "anon")
		set(!tr, "anon!")
		return
	case v.isCall(hasScope), v.isCall("slices.Contains"):
		a := v.callArgs()
		sc := a[0]
		if v.isCall(hasScope) {
			sc = w.part(p, a[0], "Scopes")
		}
		if a[1].key == w.required.key && sc != nil {
			if tr {
				p.Vars["scope.yes"] = sc
			} else {
				p.Vars["scope.no"] = sc
			}
		}
		return
	}
	if !isCmp(v, "==") {
		if isCmp(v, "<") && (fromHeader(v) && v.any(func(t *Term) bool { return t.isCall("strings.IndexByte") || t.isCall("strings.Index") })) {
			if n, ok := v.args[1].intConst(); ok && n == 0 {
				set(tr, "basic!")
				set(!tr, "colon")
			}
		}
		if n, ok := cmpConst(v); ok && n == 2 && v.args[0].op == "len" && fromHeader(v.args[0]) {
			set(tr, "basic!")
			set(!tr, "colon")
		}
		return
	}
	if t, ok := isEmptyTest(v); ok {
		switch {
		case isHeader(t):
			set(tr, "nohdr")
		case headerRest(t, "Basic "):
			set(tr, "basic!")
		case t.key == w.required.key:
			set(tr, "noscope")
			set(!tr, "wantscope")
		case leafCN(t):
			set(tr, "cert!")
			set(!tr, "cnok")
		}
		return
	}
	for i := 0; i < 2; i++ {
		l, r := v.args[i], v.args[1-i]
		n, isN := r.intConst()
		switch {
		case isCTC(l) && isN:
			if (n == 1) == tr && (n == 0 || n == 1) {
				if row, ok := w.tokenCompare(p, l.callArgs()); ok {
					if p.Vars["tok.first"] == nil {
						p.Vars["tok.first"] = row
					}
					p.Vars["tok.last"] = row
					p.Set("tok.match")
				}
			}
		case l.op == "len" && isN && n == 0:
			s := l.args[0]
			switch {
			case policyField(s, "Tokens"):
				set(tr, "t.all")
			case policyField(s, "BasicIdentities"):
				set(tr, "b.all")
			case policyField(s, "CertIdentities"):
				set(tr, "c.all")
			case s.any(func(t *Term) bool { return t.isLoadOf("ConnectionState.VerifiedChains") }):
				set(tr, "cert!")
				set(!tr, "full:"+s.key)
			}
		case r.isNil() && l.isCall(tlsState):
			set(tr, "notls")
			set(!tr, "tls")
		case r.isNil() && l.isCall("github.com/gofiber/fiber/v3.Ctx.RequestCtx"):
			set(tr, "notls")
		case r.isNil() && l.op == "load" && l.args[0].op == "idx" && l.any(func(t *Term) bool { return t.isLoadOf("ConnectionState.VerifiedChains") }):
			set(tr, "cert!")
		case r.isNil() && policyField(l, "ServerVerify"):
			set(tr, "sv!")
		case r.isNil() && isExt(l, 1) && isHookCall(l.args[0]):
			set(tr, "sv.ok")
			set(!tr, "sv!")
		case r.isNil() && isExt(l, 1) && l.args[0].isCall("encoding/base64.(*Encoding).DecodeString") && fromHeader(l):
			set(!tr, "basic!")
			set(tr, "b64ok")
		case r.isNil() && l.isCall("golang.org/x/crypto/bcrypt.CompareHashAndPassword"):
			row, ok := rowOf(l.callArgs()[0], "BasicIdentity.PasswordBcrypt")
			if ok && sameRow(row, p.Vars["b/row"]) {
				if tr {
					p.Vars["basic.row"] = row
				} else {
					p.Set("basic.fail")
				}
			}
		case l.op == "len" && isN && fromHeader(l):
			set(tr != (n == 2) || tr && n == 1, "basic!")
			set(tr && n == 2, "colon")
		case isN && n == -1 && fromHeader(l) && (l.isCall("strings.IndexByte") || l.isCall("strings.Index") || l.isCall("bytes.IndexByte")):
			set(tr, "basic!")
			set(!tr, "colon")
		}
		if row, ok := rowOf(l, "BasicIdentity.Username"); ok {
			if !basicPart(r, 0) {
				w.fail("A05", "user name exact", p, e.Pos(), "the user name is compared with %s", short(r))
			}
			if tr {
				p.Vars["b/row"] = row
			} else {
				p.Set("b/miss")
			}
		}
		if row, ok := rowOf(l, "CertIdentity.SubjectCN"); ok {
			if !leafCN(r) {
				w.fail("A05", "certificate is the verified leaf", p, e.Pos(), "the subject is compared with %s", short(r))
			} else if tr {
				if !p.Has("cnok") {
					w.fail("A05", "certificate is the verified leaf", p, e.Pos(), "the common name may be empty")
				}
				p.Vars["cert.row"] = row
			} else {
				p.Set("c/miss")
			}
		}
	}
}

func isHookCall(t *Term) bool {
	return strings.HasPrefix(t.name, "dyn:") && strings.Contains(t.key, "Policy.ServerVerify")
}

func (w *authWatch) notExhausted(p *Path, classes ...string) string {
	for _, k := range classes {
		ok := false
		switch k {
		case "bearer":
			ok = p.Has("nohdr") || p.Has("bearer!") || p.Has("t.all") && !p.Has("tok.match")
		case "basic":
			ok = p.Has("basic!") || p.Has("b.all") || p.Has("basic.fail") || p.Has("notls") && p.Has("plainno")
		case "cert":
			ok = p.Has("cert!") || p.Has("c.all") || p.Has("notls")
		case "hook":
			ok = p.Has("sv!")
		case "anonymous":
			ok = p.Has("anon!")
		}
		if !ok {
			return k
		}
	}
	return ""
}

// part reads a field of an identity value.
func (w *authWatch) part(p *Path, id *Term, name string) *Term {
	id = id.unbox()
	if structOf(id.typ) == nil {
		return nil
	}
	return structField(id, name)
}

// class decides which credential class an identity's scopes (and id) come from.
func (w *authWatch) class(p *Path, id, sc *Term) (cls, why string) {
	hook := func(t *Term) bool {
		return t != nil && t.any(func(u *Term) bool { return isExt(u, 0) && isHookCall(u.args[0]) })
	}
	for sc.isCall("slices.Clone") {
		sc = sc.callArgs()[0]
	}
	if q := p.Vars["copyof|"+sc.key]; q != nil {
		sc = q
	}
	if row, ok := rowOf(sc, "TokenIdentity.Scopes"); ok {
		if id != nil {
			if r, ok := rowOf(id, "TokenIdentity.ID"); !ok || !sameRow(r, row) {
				return "bearer", "its name is " + short(id)
			}
		}
		if !sameRow(row, p.Vars["tok.first"]) && !sameRow(row, p.Vars["tok.last"]) {
			return "bearer", "that token was not shown equal to the presented one"
		}
		return "bearer", ""
	}
	if row, ok := rowOf(sc, "BasicIdentity.Scopes"); ok {
		if id != nil {
			if r, ok := rowOf(id, "BasicIdentity.ID"); !ok || !sameRow(r, row) {
				return "basic", "its name is " + short(id)
			}
		}
		if !sameRow(row, p.Vars["basic.row"]) {
			return "basic", "its password was not shown to match"
		}
		return "basic", ""
	}
	if row, ok := rowOf(sc, "CertIdentity.Scopes"); ok {
		if id != nil && !leafCN(id) {
			if r, ok := rowOf(id, "CertIdentity.SubjectCN"); !ok || !sameRow(r, row) {
				return "cert", "its name is " + short(id)
			}
		}
		if !sameRow(row, p.Vars["cert.row"]) {
			return "cert", "its subject was not shown to match"
		}
		return "cert", ""
	}
	if hook(sc) {
		if id != nil && !hook(id) {
			return "hook", "its name is " + short(id)
		}
		if !p.Has("sv.ok") {
			return "hook", "the hook may have failed"
		}
		return "hook", ""
	}
	if els := w.x.Elems(p, sc); len(els) > 0 {
		if id != nil && !strConstIs(id, "anonymous") {
			return "anonymous", "its name is " + short(id)
		}
		got := map[string]bool{}
		for _, t := range els {
			s, _ := t.strConst()
			got[s] = true
		}
		if len(got) != 3 || !got["read"] || !got["write"] || !got["admin"] {
			return "anonymous", fmt.Sprintf("its scopes are %v", sortedKeys(got))
		}
		if !p.Has("anon") {
			return "anonymous", "anonymous access is not known to be allowed"
		}
		return "anonymous", ""
	}
	return "", "it comes from no credential: " + short(id) + " with scopes " + short(sc)
}

var authOrder = []string{"bearer", "basic", "cert", "hook", "anonymous"}

func (w *authWatch) identity(p *Path, pos token.Pos, id, sc *Term, what string) {
	cls, why := w.class(p, id, sc)
	if why != "" {
		k := "granted identity is the proven one"
		switch {
		case strings.HasPrefix(why, "its name"):
			k = "identity and scopes from the same row"
		case cls == "hook":
			k = "custom hook grants only without error"
		case cls == "anonymous":
			k = "anonymous only when allowed"
		}
		w.fail("A01", k, p, pos, "%s a %s identity, but %s", what, cls, why)
	}
	for i, k := range authOrder {
		if k != cls {
			continue
		}
		if y := w.notExhausted(p, authOrder[:i]...); y != "" {
			w.fail("A01", "bearer before basic before certificate before hook before anonymous", p, pos, "%s a %s identity although %s credentials may match", what, cls, y)
		}
	}
	if p.Has("t") {
		w.fail("A02", "every token compared", p, pos, "the loop over the tokens is left before its end")
	}
}

func (w *authWatch) locals(p *Path, e *Event) {
	if k, ok := e.Args[1].unbox().strConst(); !ok || k != w.c.constOf(relAuth, "IdentityKey") {
		return
	}
	var v *Term
	if len(e.Args) > 2 {
		v = e.Args[2]
		if v.op == "list" && len(v.args) == 1 {
			v = v.args[0]
		} else if els := w.x.Elems(p, v); len(els) == 1 {
			v = els[0]
		}
	}
	if v == nil || v.isNil() {
		return // a read
	}
	v = v.unbox()
	id, sc := w.part(p, v, "ID"), w.part(p, v, "Scopes")
	if id == nil || sc == nil {
		w.fail("A03", "identity stored", p, e.Pos(), "stores %s", short(v))
		return
	}
	w.identity(p, e.Pos(), id, sc, "grants")
	if p.Has("stored") {
		w.fail("A03", "identity stored", p, e.Pos(), "stores an identity twice")
	}
	p.Set("stored")
	switch y := p.Vars["scope.yes"]; {
	case p.Has("noscope"):
	case y != nil && y.key == sc.key:
	default:
		w.fail("A03", "scope held", p, e.Pos(), "the identity is granted although the required scope is not known to be among its scopes")
	}
}

func (w *authWatch) granted(p *Path, pos token.Pos) {
	if !p.Has("stored") {
		w.fail("A03", "identity stored", p, pos, "the request passes without a stored identity")
	}
}

func (w *authWatch) outcome(p *Path, res *Term, pos token.Pos) {
	if p.Has("next") {
		if n := p.Vars["nextres"]; n == nil || res.key != n.key {
			if !(n != nil && p.KnownNil(n) && p.KnownNil(res)) {
				w.fail("A03", "next handler exactly once and only when granted", p, pos, "the handler's result is replaced by %s", short(res))
			}
		}
		return
	}
	if res.isNil() || p.KnownNil(res) {
		if w.mw {
			w.fail("A03", "next handler exactly once and only when granted", p, pos, "returns success without running the next handler")
			return
		}
		w.granted(p, pos)
		return
	}
	// refused
	if p.Has("stored") {
		w.fail("A03", "nothing stored on refusal", p, pos, "a refused request has an identity stored")
	}
	switch fiberStatus(res) {
	case 401:
		if p.Vars["scope.no"] != nil && p.Has("wantscope") {
			w.fail("A03", "refusal is a 401 or 403 error", p, pos, "refuses an identity that lacks the scope with 401")
		}
		if y := w.notExhausted(p, authOrder...); y != "" {
			w.fail("A01", "valid credentials are accepted", p, pos, "refuses with 401 although %s credentials may match", y)
		}
		if p.Has("t") {
			w.fail("A02", "every token compared", p, pos, "the loop over the tokens is left before its end")
		}
	case 403:
		sc := p.Vars["scope.no"]
		if sc == nil || !p.Has("wantscope") {
			w.fail("A03", "scope held", p, pos, "refuses with 403 although no required scope was shown missing")
			return
		}
		w.identity(p, pos, nil, sc, "refuses")
	default:
		w.fail("A03", "refusal is a 401 or 403 error", p, pos, "refuses with %s", short(res))
	}
}

// fiberStatus: the status a fiber error carries.
func fiberStatus(t *Term) int64 {
	t = t.unbox()
	if t.isCall("github.com/gofiber/fiber/v3.NewError") {
		n, _ := t.callArgs()[0].intConst()
		return n
	}
	if t.op == "load" && t.args[0].op == "global" {
		switch t.args[0].name {
		case "github.com/gofiber/fiber/v3.ErrUnauthorized":
			return 401
		case "github.com/gofiber/fiber/v3.ErrForbidden":
			return 403
		}
	}
	return 0
}

// constOf is the value of a string constant of the module.
func (c *Ctx) constOf(rel, name string) string {
	pkg := c.P.pkg(rel)
	if pkg == nil {
		return ""
	}
	if k, ok := pkg.Members[name].(*ssa.NamedConst); ok {
		if s, ok := mkConst(k.Value.Value, types.Typ[types.String]).strConst(); ok {
			return s
		}
	}
	return ""
}

func isExt(t *Term, i int) bool { return t.op == "ext" && t.idx == i }

// policyField: t is a field of the policy.
func policyField(t *Term, name string) bool {
	_, ok := loadField(t, "Policy."+name)
	return ok
}

// cmpConst: v is t < n with a constant n.
func cmpConst(v *Term) (int64, bool) {
	if !isCmp(v, "<") {
		return 0, false
	}
	return v.args[1].intConst()
}
