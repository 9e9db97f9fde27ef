package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relClient = "pkg/client"

// clientCmd is the request contract of one exported command: what must be on
// the wire for every input.
type clientCmd struct {
	name    string
	verb    string
	path    func(p *Path, prm func(int) *Term) []*Term
	accept  []int64
	headers [][2]string
	body    string // "": none, "value": parameter 3, "json": marshalled request
}

func pc(name string, a *Term) *Term {
	return mk(&Term{op: "pcall", name: name, args: []*Term{a}})
}

func clientCmds() []clientCmd {
	cache := func(p *Path, prm func(int) *Term) []*Term {
		return []*Term{tStr("/v1/cache/"), pc("net/url.PathEscape", prm(2))}
	}
	fixed := func(s string) func(*Path, func(int) *Term) []*Term {
		return func(*Path, func(int) *Term) []*Term { return []*Term{tStr(s)} }
	}
	set := func(p *Path, prm func(int) *Term) []*Term {
		b := cache(p, prm)
		if p.IsTrue(lt(tInt(0), prm(4))) {
			b = append(b, tStr("?ttl="), pc("time.(Duration).String", prm(4)))
		}
		return b
	}
	js := [][2]string{{"Content-Type", "application/json"}}
	return []clientCmd{
		{"Set", "PUT", set, []int64{200}, [][2]string{{"Content-Type", "application/octet-stream"}}, "value"},
		{"Get", "GET", cache, []int64{200}, nil, ""},
		{"GetItem", "GET", cache, []int64{200}, [][2]string{{"Accept", "application/json"}}, ""},
		{"Delete", "DELETE", cache, []int64{200, 204}, nil, ""},
		{"Identity", "GET", fixed("/v1/me"), []int64{200}, nil, ""},
		{"Can", "GET", func(p *Path, prm func(int) *Term) []*Term {
			return []*Term{tStr("/v1/me/can?capability="), pc("net/url.QueryEscape", prm(2))}
		}, []int64{200}, nil, ""},
		{"BatchSet", "POST", fixed("/v1/cache/batch/put"), []int64{200}, js, "json"},
		{"BatchGet", "POST", fixed("/v1/cache/batch/get"), []int64{200}, js, "json"},
		{"BatchDelete", "POST", fixed("/v1/cache/batch/delete"), []int64{200}, js, "json"},
		{"RefreshTopology", "GET", fixed("/cluster/members"), nil, [][2]string{{"Accept", "application/json"}}, ""},
	}
}

func init() {
	register(&Property{ID: "K01", Level: "proof", MinObl: 60, Run: runK01,
		Explain: "Every path of every exported command is followed through request building, dispatch, classification and retry; at each dispatch, loop turn and return the facts on the path decide whether the endpoint comes from the right set, is new, is followed by another attempt exactly when the answer is not definitive, and whether exhaustion is reported with both the sentinel and the last cause."})
	register(&Property{ID: "K02", Level: "proof", MinObl: 30, Run: runK02,
		Explain: "Error classification is evaluated on every path: the returned error carries the HTTP status and the decoded envelope of the very response, and the family test of the error type is compared, sentinel by sentinel, with the status/code table over all truth assignments of its atoms."})
	register(&Property{ID: "K03", Level: "proof", MinObl: 50, Run: runK03,
		Explain: "At every dispatch on every path of every command: method, path (escaping included), headers and body provenance are compared with the request contract; a request body must be a reader created for that attempt over the complete payload. Results are traced back to the JSON field of the response they come from."})
	register(&Property{ID: "K04", Level: "proof", MinObl: 20, Run: runK04,
		Explain: "Typestate of every response on every path: after a successful dispatch the body is closed before the next attempt and before return, and never read after close; it is never touched when the dispatch failed."})
	register(&Property{ID: "K05", Level: "proof", MinObl: 24, Run: runK05,
		Explain: "The batch commands are followed per loop iteration: one request entry per item in order with its own key, value encoding and lifetime; one result per response entry in order; success and error of an entry agree."})
}

func (x *Engine) fieldByName(p *Path, base *Term, name string) *Term {
	if base == nil || base.typ == nil {
		return nil
	}
	o := derefT(base.typ)
	st := structOf(o)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.Load(p, fieldAddr(base, o, st.Field(i)), st.Field(i).Type())
		}
	}
	return nil
}

// concat flattens a string expression into its pieces.
func concat(t *Term) []*Term {
	var out []*Term
	add := func(t *Term) {
		if s, ok := t.strConst(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].strConst(); ok {
					out[n-1] = tStr(q + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		t = t.unbox()
		switch {
		case t.op == "bin" && t.name == "+" && isStringT(t.typ):
			rec(t.args[0])
			rec(t.args[1])
			return
		case t.op == "pcall" && t.name == "fmt.Sprintf" && len(t.args) == 2 && t.args[1].op == "list":
			f, ok := t.args[0].strConst()
			if ok {
				var parts []*Term
				i, k, good := 0, 0, true
				for i < len(f) {
					j := strings.IndexByte(f[i:], '%')
					if j < 0 {
						parts = append(parts, tStr(f[i:]))
						break
					}
					parts = append(parts, tStr(f[i:i+j]))
					i += j
					if i+1 >= len(f) || (f[i+1] != 's' && f[i+1] != 'v') || k >= len(t.args[1].args) || !isStringT(t.args[1].args[k].unbox().typ) {
						good = false
						break
					}
					parts = append(parts, t.args[1].args[k])
					k++
					i += 2
				}
				if good {
					for _, q := range parts {
						rec(q)
					}
					return
				}
			}
		case t.op == "pcall" && t.name == "strings.Join" && t.args[0].op == "list":
			for i, a := range t.args[0].args {
				if i > 0 {
					rec(t.args[1])
				}
				rec(a)
			}
			return
		}
		add(t)
	}
	rec(t)
	return out
}

func normPieces(ps []*Term) []*Term {
	out := []*Term{}
	for _, t := range ps {
		if s, ok := t.strConst(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].strConst(); ok {
					out[n-1] = tStr(q + s)
					continue
				}
			}
		}
		out = append(out, t)
	}
	return out
}

func samePieces(a, b []*Term) bool {
	a, b = normPieces(a), normPieces(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key {
			return false
		}
	}
	return true
}

func piecesStr(a []*Term) string {
	s := ""
	for i, t := range a {
		if i > 0 {
			s += "+"
		}
		s += short(t)
	}
	return s
}

// elemOf: t is element ix of slice s.
func elemOf(t *Term) (s, ix *Term, ok bool) {
	t = t.unbox()
	if t.op == "load" && t.args[0].op == "idx" {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	if t.op == "elem" {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

// wrapsPred: err is, or wraps through %w / Join / ewrap, an error satisfying f.
func wrapsPred(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	t = t.unbox()
	if t.op != "pcall" {
		return false
	}
	switch t.name {
	case "fmt.Errorf":
		s, ok := t.args[0].strConst()
		if !ok || len(t.args) < 2 || t.args[1].op != "list" {
			return false
		}
		verbs := fmtVerbs(s)
		for i, a := range t.args[1].args {
			if i < len(verbs) && verbs[i] == 'w' && wrapsPred(a, f) {
				return true
			}
		}
	case "errors.Join":
		for _, a := range t.args {
			if a.op == "list" {
				for _, b := range a.args {
					if wrapsPred(b, f) {
						return true
					}
				}
			} else if wrapsPred(a, f) {
				return true
			}
		}
	case "github.com/hyp3rd/ewrap.Wrap", "github.com/hyp3rd/ewrap.Wrapf":
		return wrapsPred(t.args[0], f)
	}
	return false
}

// leaves of an error expression reachable through wrapping.
func wrapLeaves(t *Term) []*Term {
	var out []*Term
	wrapsPred(t, func(u *Term) bool { out = append(out, u.unbox()); return false })
	return out
}

// attempt is what is known about the dispatch in progress on a path.
type attempt struct {
	req, ctx, verb, url, body *Term
	resp, err, status         *Term
}

// clientWatch follows the life of the requests of one command.
type clientWatch struct {
	c    *Ctx
	x    *Engine
	cmd  clientCmd
	root *ssa.Function
	att  map[string]bool // induction variables that select the endpoint (first pass)
	pass int

	onNewReq func(p *Path, e *Event, a attempt)
	onDo     func(p *Path, e *Event, a attempt)
	onLoop   func(p *Path, e *Event, more bool)
	onEvent  func(p *Path, e *Event)
	onReturn func(p *Path, e *Event)
	orderIni int
	setLoops map[string]bool
}

func ivID(t *Term) string { return t.op + "@" + itoa(t.site) }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func (w *clientWatch) prm(i int) *Term { return rootParam(w.root, i) }

// reqInfo looks through the request term to its construction.
func reqInfo(t *Term) (ctx, verb, url, body *Term, ok bool) {
	for i := 0; i < 4; i++ {
		a := t.callArgs()
		switch {
		case t.isCall("net/http.NewRequestWithContext") && len(a) == 4:
			if ctx == nil {
				ctx = a[0]
			}
			return ctx, a[1], a[2], a[3], true
		case t.isCall("net/http.NewRequest") && len(a) == 3:
			return ctx, a[0], a[1], a[2], ctx != nil
		case (t.isCall("net/http.(*Request).WithContext") || t.isCall("net/http.(*Request).Clone")) && len(a) == 2:
			if ctx == nil {
				ctx = a[1]
			}
			t = a[0]
		default:
			return nil, nil, nil, nil, false
		}
	}
	return nil, nil, nil, nil, false
}

func (w *clientWatch) cur(p *Path) attempt {
	a := attempt{req: p.Vars["req"], resp: p.Vars["resp"], err: p.Vars["derr"]}
	if a.req != nil {
		a.ctx, a.verb, a.url, a.body, _ = reqInfo(a.req)
	}
	if a.resp != nil {
		a.status = w.x.fieldByName(p, a.resp, "StatusCode")
	}
	return a
}

// retryable classifies the last attempt from the facts of the path.
func (w *clientWatch) retryable(p *Path) int {
	if p.Vars["breq"] != nil && p.KnownNonNil(p.Vars["breq"]) {
		return yes
	}
	a := w.cur(p)
	if a.err == nil {
		return unknown
	}
	if p.KnownNonNil(a.err) {
		return yes
	}
	if !p.KnownNil(a.err) || a.status == nil {
		return unknown
	}
	lo, hi := p.interval(a.status)
	if lo != nil && *lo >= 500 {
		return yes
	}
	if hi != nil && *hi < 500 {
		return no
	}
	return unknown
}

func (w *clientWatch) isOrder(p *Path, o, s *Term) bool {
	switch {
	case o.op == "makeslice":
		return len(o.attr) > 0 && o.attr[0].op == "len" && o.attr[0].args[0].key == s.key
	case o.isCall("math/rand/v2.(*Rand).Perm") || o.isCall("math/rand.(*Rand).Perm") || o.isCall("math/rand/v2.Perm") || o.isCall("math/rand.Perm"):
		a := o.callArgs()
		n := a[len(a)-1]
		return n.op == "len" && n.args[0].key == s.key
	}
	return false
}

// baseSet unwraps copies of the endpoint set.
func (w *clientWatch) baseSet(p *Path, s *Term) *Term {
	for i := 0; i < 4; i++ {
		if q := p.Vars["copyof|"+s.key]; q != nil {
			s = q
			continue
		}
		if s.op == "pcall" && s.name == "slices.Clone" {
			s = s.args[0]
			continue
		}
		break
	}
	return s
}

func isSnap(t *Term) bool {
	return t.op == "load" && t.args[0].isCall("sync/atomic.(*Pointer).Load")
}

// endpointOf decomposes the URL's base into (set, attempt index).
func (w *clientWatch) endpointOf(p *Path, base *Term) (set, iv *Term, why string) {
	s, ix, ok := elemOf(base)
	if !ok {
		return nil, nil, "the target " + short(base) + " is not an element of the endpoint set"
	}
	bs := w.baseSet(p, s)
	if ix.op == "iv" {
		return bs, ix, ""
	}
	o, iv2, ok := elemOf(ix)
	if !ok || iv2.op != "iv" || !w.isOrder(p, o, s) {
		return nil, nil, "endpoint index " + short(ix) + " does not run over all endpoints without repetition"
	}
	return bs, iv2, ""
}

func (w *clientWatch) isBound(p *Path, t *Term) bool {
	if t.op != "len" {
		return false
	}
	a := t.args[0]
	if isSnap(w.baseSet(p, a)) || w.baseSet(p, a).isLoadOf("Client.seeds") {
		return true
	}
	if a.op == "makeslice" && len(a.attr) > 0 && a.attr[0].op == "len" {
		return w.isBound(p, a.attr[0])
	}
	if a.op == "ext" || a.op == "call" {
		if ca := a.callArgs(); len(ca) > 0 && strings.HasSuffix(a.name, "Perm") {
			return w.isBound(p, ca[len(ca)-1])
		}
	}
	return false
}

func isShuffle(n string) bool {
	return hasPrefixAny(n, "math/rand") && (strings.HasSuffix(n, "Shuffle") || strings.HasSuffix(n, "Perm"))
}

func isHTTPDo(n string) bool { return n == "net/http.(*Client).Do" }

func (w *clientWatch) run(cmd clientCmd, root *ssa.Function) {
	w.cmd, w.root = cmd, root
	w.att = map[string]bool{}
	w.setLoops = map[string]bool{}
	for w.pass = 0; w.pass < 2; w.pass++ {
		w.x = newEngine(w.c.P, root)
		w.orderIni = 0
		w.x.OnEvent = w.step
		if w.pass == 0 {
			w.x.Run()
		} else {
			w.c.Explore(w.x, nil)
		}
	}
}

func (w *clientWatch) step(p *Path, e *Event) {
	x := w.x
	live := w.pass == 1
	switch e.Kind {
	case "call":
		switch {
		case e.Name == "net/http.NewRequestWithContext" || e.Name == "net/http.NewRequest":
			if e.Res != nil && e.Res.op == "tuple" {
				p.Vars["req0"] = e.Res.args[0]
				p.Vars["breq"] = e.Res.args[1]
			}
			delete(p.Vars, "resp")
			delete(p.Vars, "derr")
			p.Clear("nocode")
			p.Clear("hascode")
			for k := range p.Flags {
				if strings.HasPrefix(k, "hdr|") {
					p.Clear(k)
				}
			}
			delete(p.Vars, "hdrmap")
			if live && w.onNewReq != nil {
				a := attempt{req: p.Vars["req0"]}
				a.ctx, a.verb, a.url, a.body, _ = reqInfo(a.req)
				w.onNewReq(p, e, a)
			}
			p.Set("att")
		case e.Name == "net/http.(Header).Set" || e.Name == "net/http.(Header).Add":
			if e.Args[1].op == "mapkey" && e.Args[2].op == "mapval" {
				w.setLoops[e.Args[1].args[0].key] = true
				p.Clear("hpend")
			} else if k, ok := e.Args[1].strConst(); ok {
				if v, ok := e.Args[2].strConst(); ok {
					p.Set("hdr|" + canonHeader(k) + "|" + v)
				}
			}
		case isHTTPDo(e.Name):
			p.Vars["req"] = e.Args[1]
			if e.Res != nil && e.Res.op == "tuple" {
				p.Vars["resp"] = e.Res.args[0]
				p.Vars["derr"] = e.Res.args[1]
			}
			a := w.cur(p)
			if w.pass == 0 {
				if a.url != nil {
					if ps := concat(a.url); len(ps) > 0 {
						if _, iv, why := w.endpointOf(p, ps[0]); why == "" {
							w.att[ivID(iv)] = true
						}
					}
				}
			} else if w.onDo != nil {
				w.onDo(p, e, a)
			}
		case e.Name == "slices.Clone":
		case strings.HasSuffix(e.Name, ".Decode") || strings.HasSuffix(e.Name, ".Unmarshal"):
			var src, tgt *Term
			if strings.HasSuffix(e.Name, ".Decode") {
				tgt = e.Args[len(e.Args)-1].unbox()
				if ca := e.Args[0].callArgs(); len(ca) > 0 && e.Args[0].isCall("encoding/json.NewDecoder") {
					src = ca[0]
				}
			} else {
				tgt = e.Args[1].unbox()
				src = w.content(p, e.Args[0])
			}
			if src != nil && tgt.typ != nil {
				if o := x.Load(p, tgt, derefT(tgt.typ)); o != nil {
					p.Vars["src|"+o.key] = w.readerSrc(src)
					p.Vars["srcerr|"+o.key] = e.Res
				}
			}
		}
	case "mapupdate":
		if k, ok := e.Args[1].strConst(); ok {
			if v, ok := e.Val.strConst(); ok {
				p.Vars["mapent|"+e.Addr.key+"|"+canonHeader(k)] = tStr(v)
			}
		}
	case "copy":
		p.Vars["copyof|"+e.Args[0].key] = e.Args[1]
	case "append":
		if len(e.Args) == 2 && e.Res != nil {
			if b := e.Args[0]; b.isNil() || b.op == "makeslice" || b.op == "zero" {
				if s := e.Args[1].spread(); isSnap(s) || s.isLoadOf("Client.seeds") {
					p.Vars["copyof|"+e.Res.key] = s
				}
			}
		}
	case "prenext":
		if p.Has("hpend") && live && e.Args[0].key == p.termKey("hpmap") {
			w.c.Fail("headers complete", e.Pos(), p.Trace(), "a header of the command is not put on the request")
		}
		p.Clear("hpend")
	case "branch":
		if e.Val.op == "nextok" && len(e.Val.attr) > 0 {
			if m := e.Val.attr[0]; m.op == "makemap" || m.isNil() {
				if e.Truth {
					p.Set("hpend")
					p.Vars["hpmap"] = m
				} else {
					p.Vars["hdrmap"] = m
					p.Vars["hdrnext"] = e.Val.args[0]
				}
			}
		}
		if isCmp(e.Val, "==") && e.Val.args[1].key == tEmpty.key {
			if _, pt, ok := jsonPath(e.Val.args[0]); ok && pt == "code" {
				if e.Truth {
					p.Set("nocode")
				} else {
					p.Set("hascode")
				}
			}
		}
		if isCmp(e.Val, "<") && e.Val.args[0].op == "iv" && w.att[ivID(e.Val.args[0])] {
			if live && w.onLoop != nil {
				w.onLoop(p, e, e.Truth)
			}
			if e.Truth {
				p.Set("iter")
				w.forget(p)
				for _, k := range []string{"req", "req0", "breq", "resp", "derr"} {
					delete(p.Vars, k)
				}
				p.Clear("att")
				p.Clear("exhausted")
				p.Clear("done1")
			} else {
				if w.isBound(p, e.Val.args[1]) {
					p.Set("exhausted")
				}
			}
		}
	case "store":
		if e.Addr.op == "idx" && e.Addr.args[0].op == "makeslice" && isIntT(e.Val.typ) {
			if e.Addr.args[1].op == "iv" && e.Val.key == e.Addr.args[1].key {
				w.orderIni++
			}
		}
	}
	if live && w.onEvent != nil {
		w.onEvent(p, e)
	}
	if e.Kind == "return" && live && w.onReturn != nil {
		w.onReturn(p, e)
	}
}

// forget drops what was learnt about an attempt that is over.
func (w *clientWatch) forget(p *Path) {
	p.Clear("nocode")
	p.Clear("hascode")
	for k := range p.Flags {
		if strings.HasPrefix(k, "hdr|") || strings.HasPrefix(k, "fresh|") {
			p.Clear(k)
		}
	}
	for k := range p.Vars {
		if strings.HasPrefix(k, "src|") || strings.HasPrefix(k, "srcerr|") {
			delete(p.Vars, k)
		}
	}
	for _, k := range []string{"hdrmap", "hdrnext", "hpmap"} {
		delete(p.Vars, k)
	}
}

func (p *Path) termKey(v string) string {
	if t := p.Vars[v]; t != nil {
		return t.key
	}
	return ""
}

func canonHeader(k string) string { return strings.ToLower(k) }

// content: the bytes a term holds, named by the reader they were read from.
func (w *clientWatch) content(p *Path, t *Term) *Term {
	t = t.unbox()
	if t.op == "ext" && t.idx == 0 && t.isCall("io.ReadAll") {
		return t.callArgs()[0]
	}
	return t
}

// readerSrc looks through size-limiting readers.
func (w *clientWatch) readerSrc(t *Term) *Term {
	t = t.unbox()
	for t.isCall("bytes.NewReader") || t.isCall("bytes.NewBuffer") {
		t = w.content(nil, t.callArgs()[0]).unbox()
	}
	return t
}

func (w *clientWatch) isBodyOf(t, resp *Term) bool {
	t = t.unbox()
	return resp != nil && t.op == "load" && t.args[0].op == "field" && t.args[0].name == "Response.Body" && t.args[0].args[0].key == resp.key
}

// jsonPath names the JSON field of a decoded document that t is a copy of.
func jsonPath(t *Term) (src *Term, path string, ok bool) {
	t = t.unbox()
	switch t.op {
	case "out":
		return t, "", true
	case "fld":
		s, pt, ok := jsonPath(t.args[0])
		if !ok {
			return nil, "", false
		}
		return s, joinPath(pt, jsonTag(t.args[0].typ, t.fld)), true
	case "load":
		return jsonAddr(t.args[0])
	case "elem":
		s, pt, ok := jsonPath(t.args[0])
		return s, pt + "[]", ok
	}
	return nil, "", false
}

func jsonAddr(a *Term) (*Term, string, bool) {
	switch a.op {
	case "field":
		s, pt, ok := jsonAddr(a.args[0])
		if !ok {
			return nil, "", false
		}
		return s, joinPath(pt, jsonTag(derefT(a.args[0].typ), a.fld)), true
	case "idx":
		s, pt, ok := jsonPath(a.args[0])
		return s, pt + "[]", ok
	}
	return nil, "", false
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func jsonTag(owner types.Type, f *types.Var) string {
	if owner == nil || f == nil {
		return "?"
	}
	st := structOf(derefT(owner))
	if st == nil {
		return "?"
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f.Name() {
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if tag == "" {
				return st.Field(i).Name()
			}
			return tag
		}
	}
	return "?"
}

// fieldByTag picks the field of a struct value by its JSON name.
func fieldByTag(t *Term, tag string) *Term {
	st := structOf(t.typ)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if jsonTag(t.typ, st.Field(i)) == tag {
			return structField(t, st.Field(i).Name())
		}
	}
	return nil
}

func (c *Ctx) clientRoot(n string) *ssa.Function { return c.NeedM(relClient, "Client", n) }

// errRes is the error a root returns.
func errRes(e *Event) *Term { return e.Args[len(e.Args)-1] }

func runK01(c *Ctx) {
	rules := []string{"endpoint from the working set", "seeds only when the view is empty", "each endpoint at most once", "no endpoint skipped", "definitive answers are not retried", "failures are retried", "exhaustion reported", "last cause reported", "order is a permutation", "order is random", "caller's context is used", "no endpoints means no request"}
	w := &clientWatch{c: c}
	shuf := map[string]bool{}
	for _, cmd := range clientCmds() {
		root := c.clientRoot(cmd.name)
		if root == nil {
			continue
		}
		for _, r := range rules {
			c.Oblige(cmd.name + ": " + r)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail(cmd.name+": "+k, e.Pos(), p.Trace(), f, a...)
		}
		dos := 0
		usesOrder := false
		w.onDo = func(p *Path, e *Event, a attempt) {
			dos++
			if a.url == nil {
				fail("endpoint from the working set", p, e, "the request sent is %s, whose target is not known", short(e.Args[1]))
				return
			}
			if a.ctx == nil || !derivedCtx(a.ctx, w.prm(1)) {
				fail("caller's context is used", p, e, "the request is bound to %s, not to the caller's context", short(a.ctx))
			}
			ps := concat(a.url)
			if len(ps) == 0 {
				return
			}
			s, iv, why := w.endpointOf(p, ps[0])
			if why != "" {
				fail("endpoint from the working set", p, e, "%s", why)
				return
			}
			if _, ix, _ := elemOf(ps[0]); ix != nil && ix.op != "iv" {
				usesOrder = usesOrder || !strings.Contains(ix.key, "Perm")
			}
			switch {
			case isSnap(s):
			case s.isLoadOf("Client.seeds"):
				ld := p.Vars["snap"]
				if ld == nil || !p.KnownNil(ld) && !p.Has("emptyview") {
					fail("seeds only when the view is empty", p, e, "the seed list is used although the current endpoint view is not known to be empty")
				}
			default:
				fail("endpoint from the working set", p, e, "requests go to elements of %s", short(s))
			}
			if p.Has("done1") {
				fail("each endpoint at most once", p, e, "one endpoint is sent the request twice in one pass")
			}
			p.Set("done1")
			if !p.Has("iter") {
				fail("each endpoint at most once", p, e, "a request is sent outside the endpoint loop")
			}
			_ = iv
			if !p.Has("shuffled") {
				fail("order is random", p, e, "the endpoints are not tried in random order")
			}
			if !p.KnownNil(p.Vars["breq"]) {
				fail("endpoint from the working set", p, e, "the request is sent although building it may have failed")
			}
		}
		turn := func(p *Path, e *Event) {
			if !p.Has("iter") {
				return
			}
			if !p.Has("att") {
				fail("no endpoint skipped", p, e, "an endpoint is passed over without an attempt")
				return
			}
			if p.Vars["derr"] == nil && !(p.Vars["breq"] != nil && p.KnownNonNil(p.Vars["breq"])) {
				fail("no endpoint skipped", p, e, "an endpoint is passed over: its request is built but not sent")
				return
			}
			if w.retryable(p) != yes {
				fail("definitive answers are not retried", p, e, "the next endpoint is tried although the last answer is not a failure of the endpoint")
			}
		}
		w.onLoop = func(p *Path, e *Event, more bool) { turn(p, e) }
		w.onEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "call":
				if isShuffle(e.Name) {
					p.Set("shuffled")
					if strings.HasSuffix(e.Name, "Shuffle") {
						k := "order is a permutation"
						n := e.Args[len(e.Args)-2]
						if n.op != "len" {
							if _, ok := n.intConst(); ok || n.op != "len" {
								fail(k, p, e, "shuffles %s elements, not the endpoint count", short(n))
							}
						}
						if !swapClosure(w.x, p, e.Args[len(e.Args)-1]) {
							fail(k, p, e, "the shuffle callback is not an exchange of two elements")
						}
						shuf[cmd.name] = true
					}
				}
				if strings.HasPrefix(e.Name, "sync/atomic.(*Pointer).Load") && len(e.Args) > 0 && e.Args[0].isFieldAddr("Client.endpoints") {
					p.Vars["snap"] = e.Res
				}
				if e.Name == "context.Context.Err" {
					p.Vars["ctxerr"] = e.Res
				}
			case "branch":
				v := e.Val
				if isCmp(v, "==") && v.args[0].op == "len" && isSnap(v.args[0].args[0]) && e.Truth {
					if k, ok := v.args[1].intConst(); ok && k == 0 {
						p.Set("emptyview")
					}
				}
				if isCmp(v, "==") && v.args[0].op == "len" && v.args[0].args[0].isLoadOf("Client.seeds") && e.Truth {
					p.Set("noseeds")
				}
			}
		}
		w.onReturn = func(p *Path, e *Event) {
			er := errRes(e)
			if ce := p.Vars["ctxerr"]; ce != nil && p.KnownNonNil(ce) {
				return // the caller gave up
			}
			if p.Has("exhausted") {
				if !wrapsSentinel(er, "pkg/client.ErrAllEndpointsFailed") {
					fail("exhaustion reported", p, e, "after the last endpoint failed the command returns %s", short(er))
				}
				if p.Has("att") || p.Has("iter") {
					a := w.cur(p)
					ok := false
					for _, l := range wrapLeaves(er) {
						if a.err != nil && p.KnownNonNil(a.err) && l.key == a.err.key {
							ok = true
						}
						if p.Vars["breq"] != nil && p.KnownNonNil(p.Vars["breq"]) && l.key == p.Vars["breq"].key {
							ok = true
						}
						if a.status != nil && l.op == "alloc" {
							if h := w.x.fieldByName(p, l, "HTTPStatus"); h != nil && h.key == a.status.key {
								ok = true
							}
						}
					}
					if !ok {
						fail("last cause reported", p, e, "the error %s does not carry the last endpoint's failure", short(er))
					}
				}
				return
			}
			if p.Has("att") {
				if w.retryable(p) != no {
					fail("failures are retried", p, e, "the command gives up after a failed endpoint although others have not been tried")
				}
				return
			}
			if p.Has("iter") {
				fail("no endpoint skipped", p, e, "the command returns without using the endpoint at hand")
				return
			}
			if p.KnownNil(er) {
				if n := eq(mk(&Term{op: "len", args: []*Term{w.prm(2)}}), tInt(0)); !p.IsTrue(n) {
					fail("no endpoints means no request", p, e, "the command reports success without any request")
				}
			} else if wrapsSentinel(er, "pkg/client.ErrNoEndpoints") && !p.Has("noseeds") {
				fail("seeds only when the view is empty", p, e, "the command gives up without trying the seeds")
			}
		}
		w.run(cmd, root)
		c.Check(cmd.name+": dispatch present", dos > 0, root.Pos(), "%s never sends a request", cmd.name)
		if usesOrder {
			c.Check(cmd.name+": order initialised", w.orderIni > 0, root.Pos(), "the endpoint order is never filled with the indices 0..n-1")
		}
	}
	// writes to an order slice are only index initialisation or exchange
	c.checkOrderStores()
}

// checkOrderStores: int slices in the shuffler hold 0..n-1.
func (c *Ctx) checkOrderStores() {
	w := &clientWatch{c: c}
	k := "order slice written only by initialisation"
	c.Oblige(k)
	root := c.clientRoot("Get")
	if root == nil {
		return
	}
	w.onEvent = func(p *Path, e *Event) {
		if e.Kind == "store" && e.Addr.op == "idx" && e.Addr.args[0].op == "makeslice" && isIntT(e.Val.typ) {
			if !(e.Addr.args[1].op == "iv" && e.Val.key == e.Addr.args[1].key) {
				c.Fail(k, e.Pos(), p.Trace(), "order[%s] is set to %s", short(e.Addr.args[1]), short(e.Val))
			}
			p.Set("ordset")
		}
		if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[0].op == "iv" && e.Val.args[1].op == "len" && e.Val.args[1].args[0].op == "makeslice" && !w.att[ivID(e.Val.args[0])] {
			if p.Has("ordit") && !p.Has("ordset") {
				c.Fail(k, e.Pos(), p.Trace(), "an order entry is left unset")
			}
			p.Clear("ordset")
			p.Clear("ordit")
			if e.Truth {
				p.Set("ordit")
			}
		}
	}
	w.run(clientCmds()[1], root)
}

// swapClosure: the callback exchanges elements i and j of one slice.
func swapClosure(x *Engine, p *Path, f *Term) bool {
	f = f.unbox()
	if f.fn == nil || len(f.fn.Params) != 2 {
		return false
	}
	i := mk(&Term{op: "free", name: "swap.i", typ: types.Typ[types.Int]})
	j := mk(&Term{op: "free", name: "swap.j", typ: types.Typ[types.Int]})
	ok := false
	for _, o := range evalEvents(x, p, f, []*Term{i, j}, func(q *Path, e *Event) {
		if e.Kind == "store" && e.Addr.op == "idx" {
			q.Vars["sw|"+e.Addr.args[1].key] = e.Val
			q.Vars["swb|"+e.Addr.args[1].key] = e.Addr.args[0]
		}
	}) {
		a, b := o.Vars["sw|"+i.key], o.Vars["sw|"+j.key]
		if a == nil || b == nil || o.Vars["swb|"+i.key].key != o.Vars["swb|"+j.key].key {
			return false
		}
		as, ai, k1 := elemOf(a)
		bs, bi, k2 := elemOf(b)
		if !k1 || !k2 || ai.key != j.key || bi.key != i.key || as.key != bs.key || as.key != o.Vars["swb|"+i.key].key {
			return false
		}
		ok = true
	}
	return ok
}

var _ = token.NoPos

// derivedCtx: t is the caller's context or one that ends with it.
func derivedCtx(t, ctx *Term) bool {
	t = t.unbox()
	if t.key == ctx.key {
		return true
	}
	for _, n := range []string{"WithCancel", "WithTimeout", "WithDeadline", "WithValue", "WithCancelCause", "WithTimeoutCause", "WithDeadlineCause"} {
		if t.isCall("context." + n) {
			return derivedCtx(t.callArgs()[0], ctx)
		}
	}
	return t.op == "ext" && len(t.args) == 1 && t.args[0].op == "call" && strings.HasPrefix(t.args[0].name, "os/signal.NotifyContext") && derivedCtx(t.args[0].args[0], ctx)
}
