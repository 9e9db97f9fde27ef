package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "A04", Level: "proof", MinObl: 18, Run: runA04,
		Explain: "All paths of the loader and of policy validation: which environment value decides, that a file policy comes only from the strictly decoded file and is validated before it is returned, that every row is lifted once, in order, with its own fields and with scopes checked name by name, that every error wraps the documented sentinel and every invariant violation is an error."})
	register(&Property{ID: "A06", Level: "proof", MinObl: 8, Run: runA06,
		Explain: "Taint analysis over every path of every entry point: tokens, password hashes, presented credentials and parser messages that quote document text never reach an error constructor, a logger or a printer."})
	register(&Property{ID: "A07", Level: "proof", MinObl: 6, Run: runA07,
		Explain: "The predicates over identities and policies are evaluated on all paths and compared with their definitions: membership loops return true exactly on an equal element and false only when exhausted, capabilities map one to one, IsConfigured is the disjunction of the four credential classes."})
}

// listMap follows a loop that builds one list from another, one element for
// each element, in order.
type listMap struct {
	turns
	elem string                                      // type of the elements built
	skip func(p *Path) bool                          // turns that may add nothing
	item func(p *Path, e *Event, v, iv *Term) string // "" when v is right
	bad  func(p *Path, e *Event, f string, a ...any)
}

func (m *listMap) on(p *Path, e *Event) bool {
	started := p.Has(m.tag)
	if e.Kind == "branch" {
		if m.turns.end == nil {
			m.turns.end = func(p *Path, e *Event) {
				if !p.Has(m.tag+"/app") && !(m.skip != nil && m.skip(p)) {
					m.bad(p, e, "an element is left out")
				}
			}
		}
		if m.step(p, e) {
			if !started {
				p.Clear(m.tag + ".got")
				delete(p.Vars, m.tag+".dst")
			}
			p.Vars[m.tag+".src"] = e.Val.args[1].args[0]
			return true
		}
		return false
	}
	if !p.Has(m.tag) {
		return false
	}
	iv := p.Vars[m.tag]
	check := func(v *Term) {
		if p.Has(m.tag + "/app") {
			m.bad(p, e, "two elements for one")
		}
		p.Set(m.tag + "/app")
		if why := m.item(p, e, v, iv); why != "" {
			m.bad(p, e, "%s", why)
		}
	}
	switch e.Kind {
	case "append":
		if e.Res == nil || e.Res.typ == nil || sliceElem(e.Res.typ) != m.elem {
			return false
		}
		cur := p.Vars[m.tag+".dst"]
		if cur == nil && !isEmptyList(p, e.Args[0]) || cur != nil && cur.key != e.Args[0].key {
			return false
		}
		if len(e.Args) != 2 || e.Args[1].op == "spread" {
			m.bad(p, e, "appends %d elements for one", len(e.Args)-1)
			return true
		}
		check(e.Args[1])
		p.Vars[m.tag+".dst"] = e.Res
		return true
	case "store":
		a := e.Addr
		if a.op == "idx" && a.args[0].op == "makeslice" && sliceElem(a.args[0].typ) == m.elem {
			if a.args[1].key != iv.key {
				m.bad(p, e, "element %s is stored at %s", iv, a.args[1])
			}
			if n := a.args[0].attr[0]; !(n.op == "len" && m.over(p, n.args[0])) {
				m.bad(p, e, "the list has %s elements", short(n))
			}
			check(e.Val)
			p.Vars[m.tag+".dst"] = a.args[0]
			return true
		}
	}
	return false
}

// result: v is the list built by the finished loop.
func (m *listMap) result(p *Path, v *Term) bool {
	if p.Has(m.tag) || !p.Has(m.tag+".all") {
		return false
	}
	if d := p.Vars[m.tag+".dst"]; d != nil {
		return d.key == v.key
	}
	return isEmptyList(p, v) || v.op == "makeslice" && len(v.attr) > 0 && v.attr[0].op == "len" && m.over(p, v.attr[0].args[0])
}

func sliceElem(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return typeStr(s.Elem())
	}
	return ""
}

func isEmptyList(p *Path, t *Term) bool {
	if t.isNil() || t.op == "zero" || p.KnownNil(t) {
		return true
	}
	if t.op == "makeslice" && len(t.attr) > 0 {
		n, ok := t.attr[0].intConst()
		return ok && n == 0
	}
	if t.op == "slice" && len(t.args) >= 1 && t.args[0].op == "alloc" {
		if len(t.args) == 3 && t.args[2].op != "none" {
			n, ok := t.args[2].intConst()
			return ok && n == 0
		}
		if at, ok := derefT(t.args[0].typ).Underlying().(*types.Array); ok && at.Len() == 0 {
			return true
		}
	}
	return false
}

func runA04(c *Ctx) {
	c.authLoader()
	c.authValidate()
}

func isEnv(t *Term, name string) bool {
	return t != nil && t.isCall("os.Getenv") && strConstIs(t.callArgs()[0], name)
}

func (c *Ctx) authLoader() {
	f := c.NeedF(relAuth, "LoadFromEnv")
	if f == nil {
		return
	}
	for _, k := range []string{"precedence", "file decides alone", "strict decoding", "every row lifted with its own fields", "scopes checked", "flags copied", "validated before use", "errors wrap the sentinel", "legacy token policy", "no configuration is the zero policy", "errors return no policy"} {
		c.Oblige("loader: " + k)
	}
	fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
		c.Fail("loader: "+k, e.Pos(), p.Trace(), f2, a...)
	}
	x := newEngine(c.P, f)
	validate := relAuth + ".(Policy).Validate"
	x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == validate }
	envConf, envTok := "HYPERCACHE_AUTH_CONFIG", "HYPERCACHE_AUTH_TOKEN" // as documented
	bad := func(k string) func(p *Path, e *Event, f string, a ...any) {
		return func(p *Path, e *Event, f string, a ...any) { fail(k, p, e, f, a...) }
	}
	isOut := func(t *Term) bool {
		return t.op == "out" && strings.Contains(t.name, "yaml.v3.(*Decoder).Decode") || t.op == "alloc" && strings.Contains(typeStr(derefT(t.typ)), "fileSchema")
	}
	schema := func(t *Term, tag string) bool {
		b, fd, ok := fieldOfTerm(t)
		return ok && isOut(b) && yamlTag(b.typ, fd) == tag
	}
	scopes := &listMap{turns: turns{tag: "sc", over: func(p *Path, s *Term) bool {
		b, fd, ok := fieldOfTerm(s)
		return ok && yamlTag(b.typ, fd) == "scopes"
	}}, elem: relAuth + ".Scope", bad: bad("scopes checked")}
	scopes.item = func(p *Path, e *Event, v, iv *Term) string {
		s, ix, ok := elemOf(v.strip())
		if !ok || ix.key != iv.key || s.key != p.Vars["sc.src"].key {
			return "the scope kept is " + short(v)
		}
		if !p.Has("sc/known") {
			return "a scope is kept although its name is not known to be read, write or admin"
		}
		return ""
	}
	row := func(tag, src, elem string, fields map[string]string) *listMap {
		m := &listMap{turns: turns{tag: tag, over: func(p *Path, s *Term) bool { return schema(s, src) }}, elem: relAuth + "." + elem, bad: bad("every row lifted with its own fields")}
		m.item = func(p *Path, e *Event, v, iv *Term) string {
			for fd, want := range fields {
				got := structField(v.unbox(), fd)
				if got == nil {
					return elem + " has no " + fd
				}
				if want == "scopes" {
					if !p.Has("sc.all") || !scopes.result(p, got) {
						return "its scopes are " + short(got)
					}
					b, _, ok := fieldOfTerm(p.Vars["sc.src"])
					if !ok || !isRow(b, p.Vars[tag+".src"], iv) {
						return "its scopes are those of another row"
					}
					if n := p.Vars["sc.nonempty"]; n == nil || n.key != p.Vars["sc.src"].key {
						return "a row without scopes is accepted"
					}
					continue
				}
				g := got.strip()
				b, fv, ok := fieldOfTerm(g)
				if !ok || yamlTag(b.typ, fv) != want || !isRow(b, p.Vars[tag+".src"], iv) {
					return fd + " becomes " + short(got)
				}
			}
			return ""
		}
		return m
	}
	toks := row("T", "tokens", "TokenIdentity", map[string]string{"ID": "id", "Token": "token", "Scopes": "scopes"})
	users := row("U", "users", "BasicIdentity", map[string]string{"ID": "id", "Username": "username", "PasswordBcrypt": "password_bcrypt", "Scopes": "scopes"})
	certs := row("X", "cert_identities", "CertIdentity", map[string]string{"SubjectCN": "subject_cn", "Scopes": "scopes"})
	x.OnEvent = func(p *Path, e *Event) {
		for _, m := range []*listMap{scopes, toks, users, certs} {
			if m.on(p, e) {
				return
			}
		}
		switch e.Kind {
		case "branch":
			v := e.Val
			if t, s, ok := eqConst(v); ok {
				if el, ix, ok2 := elemOf(t.strip()); ok2 && p.Has("sc") && el.key == p.Vars["sc.src"].key && ix.key == p.Vars["sc"].key && e.Truth && (s == "read" || s == "write" || s == "admin") {
					p.Set("sc/known")
				}
			}
			if v.isCall("slices.Contains") && e.Truth && p.Has("sc") {
				a := v.callArgs()
				good := len(x.Elems(p, a[0])) > 0
				for _, t := range x.Elems(p, a[0]) {
					s, _ := t.strConst()
					good = good && (s == "read" || s == "write" || s == "admin")
				}
				if el, ix, ok2 := elemOf(a[1].strip()); good && ok2 && el.key == p.Vars["sc.src"].key && ix.key == p.Vars["sc"].key {
					p.Set("sc/known")
				}
			}
			if isCmp(v, "==") {
				for i := 0; i < 2; i++ {
					l, r := v.args[i], v.args[1-i]
					if n, ok := r.intConst(); ok && n == 0 && l.op == "len" && !e.Truth {
						if scopes.over(p, l.args[0]) {
							p.Vars["sc.nonempty"] = l.args[0]
						} else if d := p.Vars["sc.dst"]; d != nil && d.key == l.args[0].key {
							p.Vars["sc.nonempty"] = p.Vars["sc.src"]
						}
					}
					if r.isNil() && l.isCall(validate) && e.Truth {
						p.Set("valid")
					}
					if r.isNil() && l.isCall("gopkg.in/yaml.v3.(*Decoder).Decode") {
						p.Set(map[bool]string{true: "decoded", false: "undecoded"}[e.Truth])
					}
				}
			}
			if t, ok := isEmptyTest(v); ok {
				switch {
				case isEnv(t, envConf):
					p.Set(map[bool]string{true: "noconf", false: "conf"}[e.Truth])
				case isEnv(t, envTok):
					p.Set(map[bool]string{true: "notok", false: "tok"}[e.Truth])
				}
			}
		case "call":
			switch {
			case e.Name == "gopkg.in/yaml.v3.(*Decoder).KnownFields":
				if n, ok := e.Args[1].strConst(); ok && n != "" {
					break
				}
				if p.Decide(e.Args[1]) == yes {
					p.Set("strict")
				} else {
					p.Clear("strict")
				}
			case e.Name == "gopkg.in/yaml.v3.(*Decoder).Decode":
				if !p.Has("strict") {
					fail("strict decoding", p, e, "the file is decoded without rejecting unknown fields")
				}
				if p.Has("decoding") {
					fail("file decides alone", p, e, "decodes twice")
				}
				p.Set("decoding")
				src := e.Args[0]
				ok := src.isCall("gopkg.in/yaml.v3.NewDecoder")
				if ok {
					r := src.callArgs()[0]
					ok = r.any(func(t *Term) bool {
						return (t.isCall("os.Open") || t.isCall("os.ReadFile") || t.isCall("os.OpenFile")) && len(t.callArgs()) > 0 && isEnv(t.callArgs()[0], envConf)
					}) || r.unbox().op == "call" && anyArg(r.callArgs(), func(t *Term) bool {
						return t.isCall("os.ReadFile") && isEnv(t.callArgs()[0], envConf)
					})
				}
				if !ok {
					fail("file decides alone", p, e, "decodes %s, not the configured file", short(src))
				}
			case e.Name == validate:
				p.Vars["validated"] = e.Args[0]
			}
		case "return":
			pol, er := e.Args[0], e.Args[1]
			if !p.KnownNil(er) && !er.isNil() {
				if !(pol.op == "zero") {
					fail("errors return no policy", p, e, "returns %s with an error", short(pol))
				}
				if !wrapsSentinel(er, relAuth+".ErrInvalidPolicy") {
					fail("errors wrap the sentinel", p, e, "the error is %s", short(er))
				}
				return
			}
			switch {
			case p.Has("conf"):
				if !p.Has("decoded") || !p.Has("decoding") {
					fail("file decides alone", p, e, "a policy is returned although the configured file was not decoded")
					return
				}
				val := p.Vars["validated"]
				if !p.Has("valid") || val == nil || val.key != pol.key {
					fail("validated before use", p, e, "the policy returned was not validated")
				}
				for fd, m := range map[string]*listMap{"Tokens": toks, "BasicIdentities": users, "CertIdentities": certs} {
					if v := structField(pol.unbox(), fd); v == nil || !m.result(p, v) {
						fail("every row lifted with its own fields", p, e, "%s is %s", fd, short(v))
					}
				}
				for fd, tag := range map[string]string{"AllowAnonymous": "allow_anonymous", "AllowBasicWithoutTLS": "allow_basic_without_tls"} {
					v := structField(pol.unbox(), fd)
					if v == nil || !schema(v, tag) {
						fail("flags copied", p, e, "%s is %s", fd, short(v))
					}
				}
				if v := structField(pol.unbox(), "ServerVerify"); v == nil || !(v.isNil() || v.op == "zero") {
					fail("flags copied", p, e, "ServerVerify is %s", short(v))
				}
			case !p.Has("noconf"):
				fail("precedence", p, e, "a policy is returned without looking at %s", envConf)
			case p.Has("notok"):
				if pol.op != "zero" {
					fail("no configuration is the zero policy", p, e, "returns %s", short(pol))
				}
			case p.Has("tok"):
				c.legacyPolicy(x, p, pol.unbox(), envTok, func(f2 string, a ...any) { fail("legacy token policy", p, e, f2, a...) })
			default:
				fail("precedence", p, e, "a policy is returned without looking at %s", envTok)
			}
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) legacyPolicy(x *Engine, p *Path, pol *Term, env string, fail func(f string, a ...any)) {
	els := x.Elems(p, structField(pol, "Tokens"))
	if len(els) != 1 {
		fail("the policy has the tokens %s", short(structField(pol, "Tokens")))
		return
	}
	t := els[0].unbox()
	if id := structField(t, "ID"); !strConstIs(id, "default") {
		fail("the identity is %s", short(id))
	}
	if v := structField(t, "Token"); !isEnv(v, env) {
		fail("the token is %s", short(v))
	}
	got := map[string]bool{}
	for _, s := range x.Elems(p, structField(t, "Scopes")) {
		v, _ := s.strConst()
		got[v] = true
	}
	if len(got) != 3 || !got["read"] || !got["write"] || !got["admin"] {
		fail("the scopes are %v", sortedKeys(got))
	}
	for _, fd := range []string{"BasicIdentities", "CertIdentities", "ServerVerify", "AllowAnonymous", "AllowBasicWithoutTLS"} {
		v := structField(pol, fd)
		if v == nil || !(v.isNil() || v.op == "zero" || v.key == tFalse.key) {
			fail("%s is %s", fd, short(v))
		}
	}
}

func anyArg(l []*Term, f func(*Term) bool) bool {
	for _, t := range l {
		if t.any(f) {
			return true
		}
	}
	return false
}

// fieldOfTerm: t is the value of a struct field; returns the struct (value or
// address) and the field.
func fieldOfTerm(t *Term) (base *Term, fd *types.Var, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	t = t.unbox()
	if t.op == "fld" && t.fld != nil {
		return t.args[0], t.fld, true
	}
	if t.op == "load" && t.args[0].op == "field" && t.args[0].fld != nil {
		return t.args[0].args[0], t.args[0].fld, true
	}
	return nil, nil, false
}

// yamlTag is the yaml name of field fd of a struct type (or pointer to one).
func yamlTag(t types.Type, fd *types.Var) string {
	if t == nil {
		return ""
	}
	st := structOf(derefT(t))
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fd {
			return tagValue(st.Tag(i), "yaml")
		}
	}
	return ""
}

func tagValue(tag, key string) string {
	m := regexp.MustCompile(key + `:"([^",]*)`).FindStringSubmatch(tag)
	if m == nil {
		return ""
	}
	return m[1]
}

// isRow: b is (the address of) element iv of list src.
func isRow(b, src, iv *Term) bool {
	if src == nil {
		return false
	}
	if b.op == "idx" || b.op == "elem" {
		return b.args[0].key == src.key && b.args[1].key == iv.key
	}
	s, ix, ok := elemOf(b)
	return ok && s.key == src.key && ix.key == iv.key
}

func (c *Ctx) authValidate() {
	f := c.NeedM(relAuth, "Policy", "Validate")
	if f == nil {
		return
	}
	x := newEngine(c.P, f)
	type req struct{ list, field, tag string }
	reqs := []req{
		{"Tokens", "TokenIdentity.Token", "t"}, {"Tokens", "TokenIdentity.ID", "t"},
		{"BasicIdentities", "BasicIdentity.Username", "b"}, {"BasicIdentities", "BasicIdentity.ID", "b"}, {"BasicIdentities", "bcrypt", "b"},
		{"CertIdentities", "CertIdentity.SubjectCN", "c"},
	}
	k := "validate: "
	for _, r := range reqs {
		c.Oblige(k + "every " + r.list + " row has " + r.field)
	}
	for _, s := range []string{"errors wrap the sentinel", "errors only for a broken row", "all rows looked at"} {
		c.Oblige(k + s)
	}
	var tr []*turns
	for tag, list := range map[string]string{"t": "Tokens", "b": "BasicIdentities", "c": "CertIdentities"} {
		tag, list := tag, list
		tr = append(tr, &turns{tag: tag, over: func(p *Path, s *Term) bool { return policyField(s, list) }, end: func(p *Path, e *Event) {
			for _, r := range reqs {
				if r.tag == tag && !p.Has(tag+"/ok "+r.field) {
					c.Fail(k+"every "+r.list+" row has "+r.field, e.Pos(), p.Trace(), "a row passes although its %s may be missing or malformed", r.field)
				}
			}
		}})
	}
	rowIn := func(p *Path, t *Term, field string) (string, bool) {
		b, ok := loadField(t, field)
		if !ok {
			return "", false
		}
		for _, r := range reqs {
			if r.field == field || field == "BasicIdentity.PasswordBcrypt" && r.tag == "b" {
				iv := p.Vars[r.tag]
				if iv != nil && b.any(func(u *Term) bool { return u.op == "idx" && u.args[1].key == iv.key && policyField(u.args[0], r.list) }) {
					return r.tag, true
				}
			}
		}
		return "", false
	}
	x.OnEvent = func(p *Path, e *Event) {
		for _, t := range tr {
			if t.step(p, e) {
				return
			}
		}
		switch e.Kind {
		case "branch":
			if t, ok := isEmptyTest(e.Val); ok {
				for _, r := range reqs {
					if tag, ok := rowIn(p, t, r.field); ok {
						if e.Truth {
							p.Set("broken")
						} else {
							p.Set(tag + "/ok " + r.field)
						}
					}
				}
				return
			}
			if !isCmp(e.Val, "==") {
				return
			}
			for i := 0; i < 2; i++ {
				l, r := e.Val.args[i], e.Val.args[1-i]
				if r.isNil() && isExt(l.unbox(), 1) && l.isCall("golang.org/x/crypto/bcrypt.Cost") {
					if tag, ok := rowIn(p, l.callArgs()[0], "BasicIdentity.PasswordBcrypt"); ok {
						if e.Truth {
							p.Set(tag + "/ok bcrypt")
						} else {
							p.Set("broken")
						}
					}
				}
				if n, ok := r.intConst(); ok && n == 0 && l.op == "len" {
					if _, ok := rowIn(p, l.args[0], "BasicIdentity.PasswordBcrypt"); ok && e.Truth {
						p.Set("broken")
					}
					for tag, list := range map[string]string{"t": "Tokens", "b": "BasicIdentities", "c": "CertIdentities"} {
						if policyField(l.args[0], list) && e.Truth {
							p.Set(tag + ".all")
						}
					}
				}
			}
		case "return":
			er := e.Args[0]
			if er.isNil() || p.KnownNil(er) {
				for _, tag := range []string{"t", "b", "c"} {
					if !p.Has(tag+".all") || p.Has(tag) {
						c.Fail(k+"all rows looked at", e.Pos(), p.Trace(), "passes the policy without looking at all rows")
					}
				}
				if p.Has("broken") {
					c.Fail(k+"all rows looked at", e.Pos(), p.Trace(), "passes a policy with a broken row")
				}
				return
			}
			if !wrapsSentinel(er, "internal/sentinel.ErrInsecureAuthConfig") {
				c.Fail(k+"errors wrap the sentinel", e.Pos(), p.Trace(), "the error is %s", short(er))
			}
			if !p.Has("broken") {
				c.Fail(k+"errors only for a broken row", e.Pos(), p.Trace(), "rejects a policy although no row is known to be broken")
			}
		}
	}
	c.Explore(x, nil)
}

func runA06(c *Ctx) {
	noteRegexps(c.P)
	roots := c.exportedRoots(relAuth)
	envTok := "HYPERCACHE_AUTH_TOKEN"
	secretField := map[string]bool{"TokenIdentity.Token": true, "BasicIdentity.PasswordBcrypt": true, "tokenFile.Token": true, "userFile.PasswordBcrypt": true}
	safeField := map[string]bool{"TokenIdentity.ID": true, "TokenIdentity.Scopes": true, "BasicIdentity.Username": true, "BasicIdentity.ID": true, "BasicIdentity.Scopes": true}
	var taint func(t *Term, d int) string
	taint = func(t *Term, d int) string {
		if t == nil || d > 14 {
			return ""
		}
		if secretField[t.name] && (t.op == "field" || t.op == "fld") {
			return t.name
		}
		if b, fd, ok := fieldOfTerm(t); ok {
			if tag := yamlTag(b.typ, fd); tag == "token" || tag == "password_bcrypt" {
				return "the " + tag + " of the file"
			} else if tag != "" || safeField[t.name] {
				return ""
			}
		}
		if isEnv(t, envTok) {
			return "the token of the environment"
		}
		if isHeader(t) {
			return "the Authorization header"
		}
		if t.isCall("gopkg.in/yaml.v3.(*Decoder).Decode") || t.isCall("gopkg.in/yaml.v3.Unmarshal") {
			return "a parser message, which quotes document text,"
		}
		switch t.op {
		case "len", "is", "has":
			return ""
		case "bin":
			if t.typ != nil && isBoolT(t.typ) {
				return ""
			}
		case "pcall":
			if strings.HasPrefix(t.name, "golang.org/x/crypto/bcrypt.") || t.name == "crypto/subtle.ConstantTimeCompare" || t.name == "errors.Is" {
				return ""
			}
			if t.name == "error.Error" {
				return taint(t.args[0], d+1)
			}
		case "call":
			if redacts(t, taint) {
				return ""
			}
			for _, a := range t.attr {
				if hasPrefixAny(t.name, "regexp.", "strings.", "bytes.", "fmt.") {
					if s := taint(a, d+1); s != "" {
						return s
					}
				}
			}
			return ""
		}
		for _, a := range t.args {
			if s := taint(a, d+1); s != "" {
				return s
			}
		}
		return ""
	}
	secretType := map[string]bool{relAuth + ".TokenIdentity": true, relAuth + ".BasicIdentity": true, relAuth + ".Policy": true, relAuth + ".tokenFile": true, relAuth + ".userFile": true, relAuth + ".fileSchema": true, relAuth + ".basicCreds": true}
	sink := func(n string) bool {
		return hasPrefixAny(n, "log/slog.", "log.", "fmt.", "errors.", "github.com/hyp3rd/ewrap.", "github.com/gofiber/fiber/v3.NewError", "os.(*File).Write") && n != "errors.Is" && n != "errors.As"
	}
	for _, f := range roots {
		k := "no secret in errors or logs: " + calleeName(f)
		c.Oblige(k)
		on := func(p *Path, e *Event) {
			switch {
			case e.Kind == "return" && len(e.Args) > 0:
				if er := e.Args[len(e.Args)-1]; isErrorT(er.typ) || isErrorT(er.unbox().typ) {
					if w := taint(er, 0); w != "" {
						c.Fail(k, e.Pos(), p.Trace(), "%s is part of the error returned", w)
					}
				}
			case e.Kind == "call" && sink(e.Name):
				var args []*Term
				for _, a := range e.Args {
					if a.op == "list" {
						args = append(args, a.args...)
					} else {
						args = append(args, a)
					}
				}
				for _, a := range args {
					if w := taint(a, 0); w != "" {
						c.Fail(k, e.Pos(), p.Trace(), "%s is passed to %s", w, e.Name)
					}
					if u := a.unbox(); u.typ != nil && (secretType[typeStr(derefT(u.typ))] || secretType[sliceElem(u.typ)]) {
						c.Fail(k, e.Pos(), p.Trace(), "a %s is passed to %s", typeStr(u.typ), e.Name)
					}
				}
			}
		}
		x := newEngine(c.P, f)
		x.OnEvent = on
		outs := c.Explore(x, nil)
		if f.Signature.Results().Len() == 1 && strings.HasSuffix(typeStr(f.Signature.Results().At(0).Type()), "fiber/v3.Handler") {
			for _, o := range outs {
				ctxT := mk(&Term{op: "param", name: "ctx", typ: c.P.fn(relAuth, "tlsConnectionState").Signature.Params().At(0).Type()})
				c.Paths += len(evalEvents(x, o.Path, o.Res[0], []*Term{ctxT}, on))
			}
		}
	}
}

// redacts: the call replaces every quoted part of its input by a constant.
func redacts(t *Term, taint func(*Term, int) string) bool {
	if !hasPrefixAny(t.name, "regexp.(*Regexp).ReplaceAllString", "regexp.(*Regexp).ReplaceAllLiteralString") {
		return false
	}
	a := t.attr
	if t.op == "pcall" {
		a = t.args
	}
	if len(a) != 3 || taint(a[2], 0) != "" {
		return false
	}
	pat := regexpOf(a[0])
	if pat == "" {
		return false
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return false
	}
	for _, msg := range []string{
		"yaml: unmarshal errors:\n  line 1: cannot unmarshal !!str `SECRET` into httpauth.tokenFile",
		"yaml: unmarshal errors:\n  line 1: cannot unmarshal !!str `SEC\nRET` into httpauth.tokenFile",
		"yaml: unmarshal errors:\n  line 1: cannot unmarshal !!str `a`SECRET` into httpauth.tokenFile\n  line 2: cannot unmarshal !!str `SECRET` into httpauth.userFile",
		"yaml: unknown anchor 'SECRET' referenced", "yaml: anchor 'SECRET' value contains itself",
		"yaml: cannot decode !!str `SECRET` as a !!int",
	} {
		if out := re.ReplaceAllLiteralString(msg, "x"); strings.Contains(out, "SEC") || strings.Contains(out, "RET") {
			return false
		}
	}
	return true
}

// regexpOf is the pattern of a package-level regular expression.
func regexpOf(t *Term) string {
	t = t.unbox()
	if t.isCall("regexp.MustCompile") {
		s, _ := t.callArgs()[0].strConst()
		return s
	}
	if t.op != "load" || t.args[0].op != "global" {
		return ""
	}
	return globalRegexp(t.args[0].name)
}

var regexps = map[string]string{}

func globalRegexp(name string) string { return regexps[name] }

func noteRegexps(P *Prog) {
	n := map[string]int{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || typeStr(derefT(g.Type())) != "*regexp.Regexp" {
					continue
				}
				name := strings.TrimPrefix(strings.TrimPrefix(g.String(), modPath+"/"), modPath)
				n[name]++
				delete(regexps, name)
				if call, ok := st.Val.(*ssa.Call); ok && n[name] == 1 && call.Call.StaticCallee() != nil && calleeName(call.Call.StaticCallee()) == "regexp.MustCompile" {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok {
						s, _ := mkConst(k.Value, k.Type()).strConst()
						regexps[name] = s
					}
				}
			}
		}
	}
}

func runA07(c *Ctx) {
	// HasScope: membership in the identity's scopes
	if f := c.NeedM(relAuth, "Identity", "HasScope"); f != nil {
		c.checkMember(f, "HasScope", func(s *Term) bool { _, ok := loadField(s, "Identity.Scopes"); return ok }, func(p *Path, v *Term) bool { return v.key == rootParam(f, 1).key }, nil)
	}
	if f := c.NeedM(relAuth, "Identity", "Capabilities"); f != nil {
		k := "Capabilities: "
		c.Oblige(k + "one per scope, in order")
		c.Oblige(k + "never nil")
		x := newEngine(c.P, f)
		m := &listMap{turns: turns{tag: "m", over: func(p *Path, s *Term) bool { _, ok := loadField(s, "Identity.Scopes"); return ok }}, elem: "string",
			bad: func(p *Path, e *Event, f2 string, a ...any) {
				c.Fail(k+"one per scope, in order", e.Pos(), p.Trace(), f2, a...)
			}}
		m.item = func(p *Path, e *Event, v, iv *Term) string {
			ps := normPieces(concat(v))
			if len(ps) == 2 && strConstIs(ps[0], "cache.") {
				if s, ix, ok := elemOf(ps[1].strip()); ok && ix.key == iv.key && m.over(p, s) {
					return ""
				}
			}
			return "the capability is " + short(v)
		}
		x.OnEvent = func(p *Path, e *Event) {
			if m.on(p, e) {
				return
			}
			if e.Kind == "branch" && isCmp(e.Val, "==") && e.Truth {
				for i := 0; i < 2; i++ {
					if n, ok := e.Val.args[1-i].intConst(); ok && n == 0 && e.Val.args[i].op == "len" && m.over(p, e.Val.args[i].args[0]) {
						p.Set("empty")
					}
				}
			}
			if e.Kind == "return" {
				v := e.Args[0]
				if v.isNil() || v.op == "zero" || !p.KnownNonNil(v) && !nonNilTerm(v) && v.op != "makeslice" && v.op != "append" && v.op != "slice" {
					c.Fail(k+"never nil", e.Pos(), p.Trace(), "returns %s", short(v))
				}
				if !m.result(p, v) && !(p.Has("empty") && isEmptyList(p, v)) {
					c.Fail(k+"one per scope, in order", e.Pos(), p.Trace(), "returns %s", short(v))
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relAuth, "Identity", "HasCapability"); f != nil {
		capab := relAuth + ".(Identity).Capabilities"
		name := rootParam(f, 1)
		c.checkMember(f, "HasCapability", func(s *Term) bool {
			if s.isCall(capab) {
				return true
			}
			_, ok := loadField(s, "Identity.Scopes")
			return ok
		}, func(p *Path, v *Term) bool { return v.key == name.key }, func(g *ssa.Function) bool { return calleeName(g) == capab })
	}
	if f := c.NeedM(relAuth, "Policy", "IsConfigured"); f != nil {
		k := "IsConfigured: true exactly with a credential class"
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, nil) {
			splitBool(o, o.Res[0], func(p *Path, v bool) {
				some, none := false, true
				for _, fd := range []string{"Tokens", "BasicIdentities", "CertIdentities", "ServerVerify"} {
					t := structField(pParam(f), fd)
					var d int
					if fd == "ServerVerify" {
						d = p.Decide(mkEq(t, tNil))
					} else {
						d = p.Decide(eq(mk(&Term{op: "len", args: []*Term{t}, typ: types.Typ[types.Int]}), tInt(0)))
					}
					some = some || d == no
					none = none && d == yes
				}
				if v && !some || !v && !none {
					c.Fail(k, f.Pos(), p.Trace(), "returns %v although the configured classes do not decide so", v)
				}
			})
		}
	}
}

// pParam is the receiver of a value method as the engine presents it.
func pParam(f *ssa.Function) *Term { return rootParam(f, 0) }

// checkMember: f reports whether some element of a list equals a value.
func (c *Ctx) checkMember(f *ssa.Function, name string, over func(s *Term) bool, val func(p *Path, v *Term) bool, noInline func(*ssa.Function) bool) {
	k := name + ": true exactly for a member"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.NoInline = noInline
	equal := func(el, v *Term) bool {
		if _, _, ok := elemOf(el.strip()); ok {
			return true
		}
		ps := normPieces(concat(el))
		if len(ps) == 2 && strConstIs(ps[0], "cache.") {
			_, _, ok := elemOf(ps[1].strip())
			return ok
		}
		return false
	}
	lp := &turns{tag: "l", over: func(p *Path, s *Term) bool { return over(s) }, end: func(p *Path, e *Event) {
		if !p.Has("l/no") {
			c.Fail(k, e.Pos(), p.Trace(), "an element is passed over")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		if lp.step(p, e) {
			return
		}
		if e.Kind == "branch" && isCmp(e.Val, "==") && p.Has("l") {
			for i := 0; i < 2; i++ {
				if val(p, e.Val.args[1-i]) && equal(e.Val.args[i], e.Val.args[1-i]) && e.Val.args[i].contains(p.Vars["l"]) {
					p.Set(map[bool]string{true: "hit", false: "l/no"}[e.Truth])
				}
			}
		}
	}
	for _, o := range c.Explore(x, nil) {
		r := o.Res[0]
		if r.isCall("slices.Contains") {
			a := r.callArgs()
			if s := a[0]; over(s) && val(o.Path, a[1]) && (name != "HasCapability" || s.isCall(relAuth+".(Identity).Capabilities")) {
				continue
			}
			c.Fail(k, f.Pos(), o.Trace(), "returns %s", short(r))
			continue
		}
		splitBool(o, r, func(p *Path, v bool) {
			if v && !p.Has("hit") {
				c.Fail(k, f.Pos(), p.Trace(), "returns true without an equal element")
			}
			if !v && (!p.Has("l.all") || p.Has("hit") || p.Has("l")) {
				c.Fail(k, f.Pos(), p.Trace(), "returns false without looking at every element")
			}
		})
	}
}
