package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// accepted: is the status one the command treats as success on this path.
func (w *clientWatch) accepted(p *Path, st *Term) int {
	if len(w.cmd.accept) == 0 {
		return p.Decide(lt(st, tInt(400)))
	}
	allNo := true
	for _, a := range w.cmd.accept {
		switch p.Decide(eq(st, tInt(a))) {
		case yes:
			return yes
		case unknown:
			allNo = false
		}
	}
	if allNo {
		return no
	}
	// an interval that excludes every accepted value
	return unknown
}

// statusErr finds the status error object an error expression carries.
func statusErrs(t *Term) []*Term {
	var out []*Term
	for _, l := range wrapLeaves(t) {
		if l.op == "alloc" && l.typ != nil && strings.HasSuffix(typeStr(l.typ), "client.StatusError") {
			out = append(out, l)
		}
	}
	return out
}

func runK02(c *Ctx) {
	w := &clientWatch{c: c}
	for _, cmd := range clientCmds() {
		root := c.clientRoot(cmd.name)
		if root == nil {
			continue
		}
		for _, k := range []string{"unexpected status is an error", "success is not an error", "error carries the status", "error carries the envelope", "transport cause kept", "message bounded", "message tells the answer", "no answer is too short"} {
			c.Oblige(cmd.name + ": " + k)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail(cmd.name+": "+k, e.Pos(), p.Trace(), f, a...)
		}
		w.onEvent = func(p *Path, e *Event) {
			if e.Kind != "slice" {
				return
			}
			b := e.Args[0]
			if b.typ == nil || !isStringT(b.typ) && b.op != "conv" && b.op != "ext" {
				return
			}
			l := mk(&Term{op: "len", args: []*Term{b}, typ: types.Typ[types.Int]})
			for _, i := range e.Args[1:] {
				if n, ok := i.intConst(); ok && n > 0 && !p.IsTrue(tNot(lt(l, i))) {
					fail("no answer is too short", p, e, "%s is cut at %d although it may be shorter", short(b), n)
				}
			}
		}
		w.onReturn = func(p *Path, e *Event) {
			er := errRes(e)
			a := w.cur(p)
			if !p.Has("att") || a.err == nil {
				return
			}
			if p.KnownNonNil(a.err) {
				ok := false
				for _, l := range wrapLeaves(er) {
					if l.key == a.err.key {
						ok = true
					}
				}
				if !ok {
					fail("transport cause kept", p, e, "the transport error is not part of the returned error %s", short(er))
				}
				return
			}
			if a.status == nil {
				return
			}
			acc := w.accepted(p, a.status)
			ses := statusErrs(er)
			if p.KnownNil(er) || er.isNil() {
				if acc != yes {
					fail("unexpected status is an error", p, e, "success is reported for a status that is not a success status")
				}
				return
			}
			if len(ses) == 0 {
				if acc == no {
					fail("error carries the status", p, e, "a refused request returns %s, which carries no status", short(er))
				}
				return
			}
			if acc != no {
				fail("success is not an error", p, e, "an accepted answer is reported as a status error")
			}
			for _, se := range ses {
				if h := w.x.fieldByName(p, se, "HTTPStatus"); h == nil || h.key != a.status.key {
					fail("error carries the status", p, e, "the error's status is %s, not the response's", short(h))
				}
				code, msg, det := w.x.fieldByName(p, se, "Code"), w.x.fieldByName(p, se, "Message"), w.x.fieldByName(p, se, "Details")
				src, pt, ok := jsonPath(code)
				if ok {
					s2, p2, ok2 := jsonPath(msg)
					s3, p3, ok3 := jsonPath(det)
					if pt != "code" || !ok2 || p2 != "error" || s2.key != src.key || !ok3 || p3 != "details" || s3.key != src.key {
						fail("error carries the envelope", p, e, "code/message/details come from %s/%s/%s", short(code), short(msg), short(det))
					}
					if b := p.Vars["src|"+src.key]; b == nil || !w.isBodyOf(b, a.resp) {
						fail("error carries the envelope", p, e, "the envelope is not decoded from this response")
					}
					if pe := p.Vars["srcerr|"+src.key]; pe == nil || !p.KnownNil(pe) {
						fail("error carries the envelope", p, e, "the envelope is used although decoding may have failed")
					}
					if !p.Has("hascode") {
						fail("error carries the envelope", p, e, "an answer without a code is taken for the cache's error envelope")
					}
					continue
				}
				// fall-back: only when there is no usable envelope
				if s, isC := code.strConst(); !isC || s != "" {
					fail("error carries the envelope", p, e, "the error code is %s", short(code))
				}
				if !w.noEnvelope(p) {
					fail("error carries the envelope", p, e, "a decodable error envelope is dropped")
				}
				if msg == nil || !msg.any(func(t *Term) bool { return w.isBodyOf(t, a.resp) }) {
					fail("message tells the answer", p, e, "the message %s says nothing of the server's answer", short(msg))
				} else if !boundedText(p, msg) {
					fail("message bounded", p, e, "the message %s can be as large as the server's answer", short(msg))
				}
			}
		}
		w.run(cmd, root)
	}
	c.checkStatusIs()
}

// noEnvelope: the path knows that decoding failed or that the code was empty.
func (w *clientWatch) noEnvelope(p *Path) bool {
	for k, e := range p.Vars {
		if strings.HasPrefix(k, "srcerr|") && e != nil && p.KnownNonNil(e) {
			return true
		}
	}
	return p.Has("nocode")
}

func boundedText(p *Path, t *Term) bool {
	for _, q := range concat(t) {
		if _, ok := q.strConst(); ok {
			continue
		}
		if q.op == "slice" && len(q.args) == 3 {
			if n, ok := q.args[2].intConst(); ok && n <= 65536 {
				continue
			}
		}
		_, hi := p.interval(mk(&Term{op: "len", args: []*Term{q}, typ: types.Typ[types.Int]}))
		if hi != nil && *hi <= 65536 {
			continue
		}
		return false
	}
	return true
}

// checkStatusIs compares the error type's family test with the table.
func (c *Ctx) checkStatusIs() {
	f := c.NeedM(relClient, "StatusError", "Is")
	if f == nil {
		return
	}
	table := map[string]struct {
		code   string
		status func(s *Term) *Term
		never  int64
	}{
		"ErrNotFound":     {"NOT_FOUND", func(s *Term) *Term { return eq(s, tInt(404)) }, 0},
		"ErrUnauthorized": {"UNAUTHORIZED", func(s *Term) *Term { return eq(s, tInt(401)) }, 0},
		"ErrForbidden":    {"", func(s *Term) *Term { return eq(s, tInt(403)) }, 0},
		"ErrDraining":     {"DRAINING", func(s *Term) *Term { return eq(s, tInt(503)) }, 0},
		"ErrBadRequest":   {"BAD_REQUEST", func(s *Term) *Term { return eq(s, tInt(400)) }, 0},
		"ErrInternal":     {"INTERNAL", func(s *Term) *Term { return tNot(lt(s, tInt(500))) }, 503},
	}
	for n := range table {
		c.Oblige("family " + n)
	}
	c.Oblige("family: nothing else matches")
	x := newEngine(c.P, f)
	seen := map[string]bool{}
	for _, o := range c.Explore(x, nil) {
		p := o.Path
		p0 := rootParam(f, 0)
		if p.KnownNil(p0) {
			continue
		}
		if !p.KnownNonNil(p0) && !p.Assume(eq(p0, tNil), false) {
			continue
		}
		sent := ""
		for _, r := range p.rels {
			if r.v && isCmp(r.t, "==") {
				for _, a := range r.t.args {
					u := a.unbox()
					if u.op == "load" && u.args[0].op == "global" {
						sent = u.args[0].name[strings.LastIndex(u.args[0].name, ".")+1:]
					}
				}
			}
		}
		spec, ok := table[sent]
		if !ok {
			splitBool(o, o.Res[0], func(q *Path, v bool) {
				if v {
					c.Fail("family: nothing else matches", f.Pos(), q.Trace(), "a status error matches %q", sent)
				}
			})
			continue
		}
		seen[sent] = true
		code := x.fieldByName(p, p0, "Code")
		st := x.fieldByName(p, p0, "HTTPStatus")
		splitBool(o, o.Res[0], func(q *Path, v bool) {
			isCode := tFalse
			if spec.code != "" {
				isCode = eq(code, tStr(spec.code))
			}
			isSt := spec.status(st)
			if v {
				// true must imply code or status
				r := q.fork()
				if r.Assume(isCode, false) && r.Assume(isSt, false) {
					c.Fail("family "+sent, f.Pos(), q.Trace(), "matches %s although neither code nor status says so", sent)
				}
				if spec.never != 0 {
					r := q.fork()
					if r.Assume(isCode, false) && r.Assume(eq(st, tInt(spec.never)), true) {
						c.Fail("family "+sent, f.Pos(), q.Trace(), "status %d matches %s", spec.never, sent)
					}
				}
				return
			}
			if spec.code != "" && feasible(q, isCode, true) {
				c.Fail("family "+sent, f.Pos(), q.Trace(), "an error with code %s does not match %s", spec.code, sent)
			}
			r := q.fork()
			if r.Assume(isSt, true) && (spec.never == 0 || r.Assume(eq(st, tInt(spec.never)), false)) {
				c.Fail("family "+sent, f.Pos(), q.Trace(), "an error whose status is in the family does not match %s", sent)
			}
		})
	}
	for n := range table {
		if !seen[n] {
			c.Fail("family "+n, f.Pos(), "", "%s is never matched by a status error", n)
		}
	}
}

func runK03(c *Ctx) {
	w := &clientWatch{c: c}
	readers := map[string]types.Type{}
	for _, cmd := range clientCmds() {
		root := c.clientRoot(cmd.name)
		if root == nil {
			continue
		}
		for _, k := range []string{"method", "path", "headers", "payload", "fresh payload per attempt", "result"} {
			c.Oblige(cmd.name + ": " + k)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail(cmd.name+": "+k, e.Pos(), p.Trace(), f, a...)
		}
		type pend struct{ loop, where, trace string }
		var pends []pend
		w.onEvent = func(p *Path, e *Event) {
			noteQuery(p, e)
			switch e.Kind {
			case "precall":
				if e.Name == "net/http.NewRequestWithContext" || e.Name == "net/http.NewRequest" {
					delete(p.Vars, "bdata")
					if d := w.readerData(p, e.Args[len(e.Args)-1], readers); d != nil {
						p.Vars["bdata"] = d
					}
				}
			case "call":
				if e.Res != nil && (e.Name == "bytes.NewReader" || e.Name == "bytes.NewBuffer" || e.Name == "strings.NewReader") {
					p.Set("fresh|" + e.Res.key)
				}
				if isHTTPDo(e.Name) {
					for k := range p.Flags {
						if strings.HasPrefix(k, "fresh|") {
							p.Clear(k)
						}
					}
				}
			case "store":
				if r := e.Addr.addrRoot(); r.op == "alloc" && isReaderT(r.typ) {
					p.Set("fresh|" + r.key)
				}
			}
		}
		w.onNewReq = func(p *Path, e *Event, a attempt) {
			if a.url == nil {
				return
			}
			if v, ok := a.verb.strConst(); !ok || v != cmd.verb {
				fail("method", p, e, "%s is sent as %s", cmd.name, short(a.verb))
			}
			ps := concat(a.url)
			if len(ps) < 2 || !samePieces(w.plainQuery(p, ps[1:]), cmd.path(p, w.prm)) {
				fail("path", p, e, "request path is %s", piecesStr(ps[1:]))
			}
			b := a.body.unbox()
			if cmd.body == "" {
				if !b.isNil() {
					fail("payload", p, e, "a request without payload carries %s", short(b))
				}
				return
			}
			data := p.Vars["bdata"]
			delete(p.Vars, "bdata")
			if data == nil {
				if b.isNil() && w.emptyPayload(p) {
					return
				}
				fail("payload", p, e, "the request payload is %s", short(b))
				return
			}
			if !p.Has("fresh|"+b.key) && !p.Has("fresh|"+b.addrRoot().key) {
				fail("fresh payload per attempt", p, e, "the payload reader was already used by an earlier attempt: the retry sends a truncated body")
			}
			for i := 0; i < 4; i++ {
				d := w.content(p, data)
				if d.key == data.key {
					break
				}
				q := w.readerData(p, d.unbox(), readers)
				if q == nil {
					break
				}
				data = q
			}
			switch cmd.body {
			case "value":
				if data.key != w.prm(3).key {
					fail("payload", p, e, "the payload is %s, not the caller's value", short(data))
				}
			case "json":
				if !(data.op == "ext" && data.idx == 0 && data.isCall("encoding/json.Marshal")) {
					fail("payload", p, e, "the payload is %s, not the encoded request", short(data))
				}
			}
		}
		w.onDo = func(p *Path, e *Event, a attempt) {
			for _, h := range cmd.headers {
				if p.Has("hdr|" + canonHeader(h[0]) + "|" + h[1]) {
					continue
				}
				m := p.Vars["hdrmap"]
				if m != nil {
					if v := p.Vars["mapent|"+m.key+"|"+canonHeader(h[0])]; v != nil && v.key == tStr(h[1]).key {
						pends = append(pends, pend{p.termKey("hdrnext"), c.P.pos(e.Pos()), p.Trace()})
						continue
					}
				}
				fail("headers", p, e, "%s: %s is not sent", h[0], h[1])
			}
		}
		w.onReturn = func(p *Path, e *Event) {
			er := errRes(e)
			a := w.cur(p)
			if !(er.isNil() || p.KnownNil(er)) {
				for _, r := range e.Args[:len(e.Args)-1] {
					if !(r.isNil() || r.key == tFalse.key || r.op == "zero") {
						fail("result", p, e, "a failed command returns the result %s", short(r))
					}
				}
				return
			}
			if !p.Has("att") || p.Has("exhausted") || a.resp == nil {
				return
			}
			w.checkResult(p, e, a, func(f string, b ...any) { fail("result", p, e, f, b...) })
		}
		w.run(cmd, root)
		for _, q := range pends {
			if !w.setLoops[q.loop] {
				c.failAt(cmd.name+": headers", q.where, q.trace, "the command's headers are not put on the request")
			}
		}
	}
	for _, n := range sortedKeys(readers) {
		c.checkReader(n, readers[n])
	}
}

func (w *clientWatch) emptyPayload(p *Path) bool {
	for _, d := range p.doms {
		if d.t.op == "ext" && d.t.idx == 0 && d.t.isCall("io.ReadAll") && p.KnownNil(d.t) {
			return true
		}
		if d.t.op == "len" && p.IsTrue(eq(d.t, tInt(0))) && d.t.args[0].key == w.prm(3).key {
			return true
		}
	}
	return false
}

// isReaderT: *T has a Read method.
func isReaderT(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(derefT(t)))
	return ms.Lookup(nil, "Read") != nil
}

// readerData: the bytes a freshly made reader will deliver from the start.
func (w *clientWatch) readerData(p *Path, b *Term, readers map[string]types.Type) *Term {
	b = b.unbox()
	switch {
	case b.isCall("bytes.NewReader"), b.isCall("bytes.NewBuffer"):
		return b.callArgs()[0]
	case b.op == "alloc":
		st := structOf(derefT(b.typ))
		nt := typeStr(derefT(b.typ))
		if st == nil {
			return nil
		}
		var data *Term
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := w.x.Load(p, fieldAddr(b, derefT(b.typ), f), f.Type())
			switch u := f.Type().Underlying().(type) {
			case *types.Slice:
				data = v
			case *types.Basic:
				if k, ok := v.intConst(); u.Info()&types.IsInteger != 0 && (!ok || k != 0) && v.op != "zero" {
					return nil
				}
			}
		}
		if data != nil {
			readers[nt] = derefT(b.typ)
		}
		return data
	}
	return nil
}

// plainQuery rewrites equivalent spellings of a query string: escaping a
// duration's text does not change what the server decodes, and a url.Values
// with one entry encodes to key=escaped value.
func (w *clientWatch) plainQuery(p *Path, ps []*Term) []*Term {
	var out []*Term
	for _, t := range ps {
		if t.isCall("net/url.(Values).Encode") {
			m := t.callArgs()[0]
			k, v := p.Vars["qk|"+m.key], p.Vars["qv|"+m.key]
			if s, ok := k.strConst(); ok && v != nil && p.Vars["q2|"+m.key] == nil {
				out = append(out, tStr(s+"="), w.plainEscape(v))
				continue
			}
		}
		if t.isCall("net/url.QueryEscape") || t.isCall("net/url.PathEscape") {
			if u := w.plainEscape(t.callArgs()[0]); u.op != "pcall" || u.name != "net/url.QueryEscape" {
				out = append(out, u)
				continue
			}
		}
		out = append(out, t)
	}
	return normPieces(out)
}

func (w *clientWatch) plainEscape(v *Term) *Term {
	if v.isCall("time.(Duration).String") {
		return v
	}
	return pc("net/url.QueryEscape", v)
}

// noteQuery follows the entries of url.Values built by the client.
func noteQuery(p *Path, e *Event) {
	if e.Kind != "call" || len(e.Args) != 3 || e.Name != "net/url.(Values).Set" && e.Name != "net/url.(Values).Add" {
		return
	}
	m := e.Args[0]
	if m.op != "makemap" {
		return
	}
	if p.Vars["qk|"+m.key] != nil {
		p.Vars["q2|"+m.key] = m
	}
	p.Vars["qk|"+m.key], p.Vars["qv|"+m.key] = e.Args[1], e.Args[2]
}

// checkReader: a reader type of the module delivers its bytes completely, once, in order.
func (c *Ctx) checkReader(n string, t types.Type) {
	k := "reader " + n
	c.Oblige(k)
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	f := c.P.method(strings.TrimPrefix(nt.Obj().Pkg().Path(), modPath+"/"), nt.Obj().Name(), "Read")
	if f == nil || len(f.Blocks) == 0 {
		c.failAt(k, "?", "", "type has no analysable Read")
		return
	}
	var dataF, posF *types.Var
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			dataF = st.Field(i)
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				posF = st.Field(i)
			}
		}
	}
	if dataF == nil {
		return
	}
	dn := fieldName(dataF, t)
	pn := ""
	if posF != nil {
		pn = fieldName(posF, t)
	}
	x := newEngine(c.P, f)
	buf := rootParam(f, 1)
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "copy":
			s := e.Args[1]
			if e.Args[0].key != buf.key {
				c.Fail(k, e.Pos(), p.Trace(), "copies into %s", short(e.Args[0]))
			}
			okSrc := s.isLoadOf(dn) && posF == nil || s.op == "slice" && s.args[0].isLoadOf(dn) && posF != nil && s.args[1].isLoadOf(pn) && s.args[2].op == "none"
			if !okSrc {
				c.Fail(k, e.Pos(), p.Trace(), "delivers %s, not the unread rest", short(s))
			}
			p.Vars["n"] = e.Res
		case "store":
			if posF != nil && e.Addr.isFieldAddr(pn) {
				n := p.Vars["n"]
				v := e.Val
				if !(n != nil && v.op == "bin" && v.name == "+" && (v.args[0].isLoadOf(pn) && v.args[1].key == n.key || v.args[1].isLoadOf(pn) && v.args[0].key == n.key)) {
					c.Fail(k, e.Pos(), p.Trace(), "read position becomes %s", short(v))
				}
				p.Set("adv")
			}
			if e.Addr.isFieldAddr(dn) {
				p.Set("adv")
				n := p.Vars["n"]
				if v := e.Val; !(n != nil && v.op == "slice" && v.args[0].isLoadOf(dn) && v.args[1].key == n.key) {
					c.Fail(k, e.Pos(), p.Trace(), "the data becomes %s", short(e.Val))
				}
			}
		case "return":
			n := p.Vars["n"]
			if n != nil {
				if e.Args[0].key != n.key || !e.Args[1].isNil() || !p.Has("adv") {
					c.Fail(k, e.Pos(), p.Trace(), "a read returns (%s, %s) after copying", short(e.Args[0]), short(e.Args[1]))
				}
				return
			}
			// nothing copied: the end must have been reached
			end := false
			for _, r := range p.rels {
				if isCmp(r.t, "<") && !r.v && r.t.args[1].op == "len" && r.t.args[1].args[0].isLoadOf(dn) {
					end = true
				}
			}
			for _, d := range p.doms {
				if d.t.op == "len" && d.t.args[0].isLoadOf(dn) && p.IsTrue(eq(d.t, tInt(0))) {
					end = true
				}
				if u := d.t; u.op == "len" && u.args[0].op == "slice" && u.args[0].args[0].isLoadOf(dn) && pn != "" && u.args[0].args[1].isLoadOf(pn) && u.args[0].args[2].op == "none" && p.IsTrue(eq(u, tInt(0))) {
					end = true
				}
				if d.t.op == "len" && d.t.args[0].key == buf.key && p.IsTrue(eq(d.t, tInt(0))) {
					return
				}
			}
			if !end {
				c.Fail(k, e.Pos(), p.Trace(), "a read ends although data is left")
			}
			if u := e.Args[1].unbox(); !(u.op == "load" && u.args[0].op == "global" && u.args[0].name == "io.EOF") {
				c.Fail(k, e.Pos(), p.Trace(), "the end of the data is reported as %s", short(e.Args[1]))
			}
		}
	}
	c.Explore(x, nil)
}

var itemTable = map[string]string{"Key": "key", "TTLMs": "ttl_ms", "ExpiresAt": "expires_at", "Version": "version", "Origin": "origin", "LastUpdated": "last_updated", "Node": "node", "Owners": "owners"}

// fromJSON: t is a copy of the given JSON field of this response's decoded body.
func (w *clientWatch) fromJSON(p *Path, a attempt, t *Term, path string) string {
	src, pt, ok := jsonPath(t)
	if !ok {
		return "it is " + short(t)
	}
	if pt != path {
		return "it comes from " + pt
	}
	if b := p.Vars["src|"+src.key]; b == nil || !w.isBodyOf(b, a.resp) {
		return "it does not come from this response's body"
	}
	if er := p.Vars["srcerr|"+src.key]; er == nil || !p.KnownNil(er) {
		return "it is used although decoding may have failed"
	}
	return ""
}

// checkItem compares an item record with the response.
func (w *clientWatch) checkItem(p *Path, a attempt, it *Term, pre string, fail func(f string, b ...any)) {
	if it.op != "alloc" {
		fail("the item is %s", short(it))
		return
	}
	for _, f := range sortedKeys(itemTable) {
		pt := itemTable[f]
		if pre != "" && f != "Node" {
			pt = pre + pt
		}
		if why := w.fromJSON(p, a, w.x.fieldByName(p, it, f), pt); why != "" {
			fail("field %s of the item is not the response's %s: %s", f, pt, why)
		}
	}
	v := w.x.fieldByName(p, it, "Value")
	enc := func(s string) int {
		for _, d := range p.doms {
			if _, pt, ok := jsonPath(d.t); ok && pt == pre+"value_encoding" {
				return p.Decide(eq(d.t, tStr(s)))
			}
		}
		return unknown
	}
	if v.op == "ext" && v.idx == 0 && v.isCall("encoding/base64.(*Encoding).DecodeString") {
		ca := v.callArgs()
		if why := w.fromJSON(p, a, ca[1], pre+"value"); why != "" {
			fail("the value is decoded from another field: %s", why)
		}
		if u := ca[0].unbox(); !(u.op == "load" && u.args[0].name == "encoding/base64.StdEncoding") {
			fail("the value is decoded with %s", short(u))
		}
		if !p.KnownNil(mk(&Term{op: "ext", idx: 1, args: v.args})) {
			fail("the value is used although decoding it may have failed")
		}
		if enc("") != yes && enc("base64") != yes {
			fail("the value is base64-decoded although the response may say otherwise")
		}
		return
	}
	if why := w.fromJSON(p, a, v.strip(), pre+"value"); why != "" {
		fail("the value is not the response's: %s", why)
	}
	if enc("") != no || enc("base64") != no {
		fail("a base64 value is returned without decoding")
	}
}

func (w *clientWatch) checkResult(p *Path, e *Event, a attempt, fail func(f string, b ...any)) {
	need := func(t *Term, what, path string) {
		if t == nil {
			fail("%s is missing", what)
			return
		}
		if why := w.fromJSON(p, a, t, path); why != "" {
			fail("%s is not the response's %s: %s", what, path, why)
		}
	}
	switch w.cmd.name {
	case "Get":
		v := e.Args[0]
		if !(v.op == "ext" && v.idx == 0 && v.isCall("io.ReadAll") && w.isBodyOf(v.callArgs()[0], a.resp)) {
			fail("the value returned is %s, not the response body", short(v))
		} else if !p.KnownNil(mk(&Term{op: "ext", idx: 1, args: v.args})) {
			fail("a value is returned although reading it may have failed")
		}
	case "GetItem":
		w.checkItem(p, a, e.Args[0].unbox(), "", fail)
	case "Identity":
		it := e.Args[0].unbox()
		if it.op != "alloc" {
			fail("the identity is %s", short(it))
			return
		}
		need(w.x.fieldByName(p, it, "ID"), "the identity's name", "id")
		need(w.x.fieldByName(p, it, "Scopes"), "the scope list", "scopes")
		need(w.x.fieldByName(p, it, "Capabilities"), "the capability list", "capabilities")
	case "Can":
		need(e.Args[0], "the answer", "allowed")
	}
}

func runK04(c *Ctx) {
	w := &clientWatch{c: c}
	for _, cmd := range clientCmds() {
		root := c.clientRoot(cmd.name)
		if root == nil {
			continue
		}
		for _, k := range []string{"body closed", "no use after close", "no use after failed dispatch"} {
			c.Oblige(cmd.name + ": " + k)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail(cmd.name+": "+k, e.Pos(), p.Trace(), f, a...)
		}
		done := func(p *Path, e *Event) {
			a := w.cur(p)
			if a.resp == nil || a.err == nil || p.KnownNonNil(a.err) || p.Has("closed") {
				return
			}
			fail("body closed", p, e, "the response body is left open")
		}
		w.onEvent = func(p *Path, e *Event) {
			if e.Kind == "call" {
				if e.Name == "net/http.NewRequestWithContext" || e.Name == "net/http.NewRequest" {
					p.Clear("closed")
					return
				}
				if isHTTPDo(e.Name) {
					p.Clear("closed")
					return
				}
				a := w.cur(p)
				if a.resp == nil {
					return
				}
				uses := false
				for _, t := range e.Args {
					if w.isBodyOf(t, a.resp) || t.isCall("encoding/json.NewDecoder") && len(t.callArgs()) > 0 && w.isBodyOf(t.callArgs()[0], a.resp) {
						uses = true
					}
				}
				if !uses {
					return
				}
				if !p.KnownNil(a.err) {
					fail("no use after failed dispatch", p, e, "%s touches the response although the dispatch may have failed", e.Name)
				}
				if strings.HasSuffix(e.Name, ".Close") {
					p.Set("closed")
					return
				}
				if p.Has("closed") {
					fail("no use after close", p, e, "%s reads the body after it was closed", e.Name)
				}
			}
			if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[0].op == "iv" && w.att[ivID(e.Val.args[0])] && p.Has("att") {
				done(p, e)
			}
			if e.Kind == "load" && e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Response.") {
				a := w.cur(p)
				if a.resp != nil && e.Addr.args[0].key == a.resp.key && !p.KnownNil(a.err) {
					fail("no use after failed dispatch", p, e, "the response is read although the dispatch may have failed")
				}
			}
		}
		w.onReturn = func(p *Path, e *Event) {
			if p.Has("att") {
				done(p, e)
			}
		}
		w.run(cmd, root)
	}
}

func runK05(c *Ctx) {
	w := &clientWatch{c: c}
	for _, cmd := range clientCmds() {
		if cmd.body != "json" {
			continue
		}
		root := c.clientRoot(cmd.name)
		if root == nil {
			continue
		}
		for _, k := range []string{"request lists every item once in order", "request item content", "one result per response entry in order", "result content", "per-item error", "empty input"} {
			c.Oblige(cmd.name + ": " + k)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail(cmd.name+": "+k, e.Pos(), p.Trace(), f, a...)
		}
		isItemT := func(t types.Type) bool { return t != nil && structOf(t) != nil && tagIndex(t, "value") >= 0 }
		isResT := func(t types.Type) bool { return t != nil && strings.HasPrefix(typeStr(t), "pkg/client.Batch") }
		rows, sent := 0, 0
		// emit handles one element put into the request or result list
		emit := func(p *Path, e *Event, v *Term, list *Term, at *Term) {
			switch {
			case isResT(v.typ):
				rows++
				a := w.cur(p)
				iv := p.Vars["rowiv"]
				if iv == nil || !p.Has("row") || p.Has("rowdone") {
					fail("one result per response entry in order", p, e, "a result is added outside the walk over the response, or twice for one entry")
					return
				}
				if at != nil && at.key != iv.key {
					fail("one result per response entry in order", p, e, "entry %s is stored at %s", short(iv), short(at))
				}
				p.Set("rowdone")
				p.Vars["rows"] = list
				w.checkRow(p, e, a, v, iv, func(k, f string, b ...any) { fail(k, p, e, f, b...) })
			case isItemT(v.typ):
				sent++
				iv := p.Vars["itiv"]
				if iv == nil || !p.Has("it") || p.Has("itdone") {
					fail("request lists every item once in order", p, e, "an item is added outside the walk over the input, or twice")
					return
				}
				if at != nil && at.key != iv.key {
					fail("request lists every item once in order", p, e, "item %s is stored at %s", short(iv), short(at))
				}
				p.Set("itdone")
				p.Vars["items"] = list
				w.checkSent(p, v, iv, func(f string, b ...any) { fail("request item content", p, e, f, b...) })
			}
		}
		// settle evaluates an element that was filled in place during the turn
		settle := func(p *Path, e *Event) {
			at := p.Vars["part"]
			if at == nil {
				return
			}
			delete(p.Vars, "part")
			l := at.args[0]
			v := w.x.Load(p, at, elemType(l.typ))
			if v == nil || v.typ == nil {
				return
			}
			emit(p, e, v, l, at.args[1])
			if len(l.attr) == 0 || l.attr[0].op != "len" {
				fail("one result per response entry in order", p, e, "the list is sized %s", short(l.attr[0]))
			}
		}
		w.onEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "branch":
				v := e.Val
				if isCmp(v, "==") {
					for i := 0; i < 2; i++ {
						if u := v.args[1-i].strip(); u.isCall("time.(Duration).Milliseconds") || u.op == "bin" && u.name == "/" {
							if n, ok := v.args[i].intConst(); ok && n == 0 {
								p.Clear("ms0")
								p.Clear("ms1")
								p.Vars["ms"] = u
								if e.Truth {
									p.Set("ms0")
								} else {
									p.Set("ms1")
								}
							}
						}
					}
				}
				if isCmp(v, "<") && isIv(v.args[0]) && v.args[1].op == "len" {
					s := v.args[1].args[0]
					if _, pt, ok := jsonPath(s); s.key == w.prm(2).key || ok && pt == "results" {
						settle(p, e)
						p.Clear("ms0")
						p.Clear("ms1")
						delete(p.Vars, "ms")
					}
				}
				if isCmp(v, "<") && isIv(v.args[0]) && v.args[1].op == "len" {
					s := v.args[1].args[0]
					if s.key == w.prm(2).key {
						if p.Has("it") && !p.Has("itdone") {
							fail("request lists every item once in order", p, e, "an item is left out of the request")
						}
						p.Clear("it")
						p.Clear("itdone")
						if e.Truth {
							p.Set("it")
							p.Vars["itiv"] = v.args[0]
						} else {
							p.Set("itall")
						}
					}
					if _, pt, ok := jsonPath(s); ok && pt == "results" {
						if p.Has("row") && !p.Has("rowdone") {
							fail("one result per response entry in order", p, e, "a response entry is left out of the results")
						}
						p.Clear("row")
						p.Clear("rowdone")
						if e.Truth {
							p.Set("row")
							p.Vars["rowiv"] = v.args[0]
						} else {
							p.Set("rowall")
						}
					}
				}
			case "append":
				if len(e.Args) == 2 && e.Args[1].typ != nil {
					emit(p, e, e.Args[1], e.Res, nil)
				} else if len(e.Args) != 2 {
					for _, t := range e.Args[1:] {
						if t.typ != nil && (isResT(t.typ) || isItemT(t.typ)) {
							fail("one result per response entry in order", p, e, "several entries are added at once")
						}
					}
				}
			case "store":
				at := e.Addr
				for at.op == "field" {
					at = at.args[0]
				}
				if at.op == "idx" && at.args[0].op == "makeslice" {
					if t := elemType(at.args[0].typ); isResT(t) || isItemT(t) {
						if q := p.Vars["part"]; q != nil && q.key != at.key {
							fail("one result per response entry in order", p, e, "two entries are filled in one turn")
						}
						p.Vars["part"] = at
					}
				}
			case "call":
				if e.Name == "encoding/json.Marshal" {
					req := e.Args[0].unbox()
					if cmd.name == "BatchSet" {
						l := fieldByTag(req, "items")
						want := p.Vars["items"]
						if l == nil || !p.Has("itall") || want != nil && l.key != want.key || want == nil && l.op != "makeslice" && !l.isNil() {
							fail("request lists every item once in order", p, e, "the request encodes %s", short(req))
						}
					} else {
						l := fieldByTag(req, "keys")
						if l == nil || l.key != w.prm(2).key {
							fail("request lists every item once in order", p, e, "the request encodes %s, not the caller's keys", short(req))
						}
						sent++
					}
					p.Set("marshalled")
				}
			}
		}
		w.onNewReq = func(p *Path, e *Event, a attempt) {
			if !p.Has("marshalled") {
				fail("request lists every item once in order", p, e, "a request is built before its payload")
			}
		}
		w.onReturn = func(p *Path, e *Event) {
			er := errRes(e)
			if !(er.isNil() || p.KnownNil(er)) {
				return
			}
			if !p.Has("att") {
				if r := e.Args[0]; !p.IsTrue(eq(mk(&Term{op: "len", args: []*Term{w.prm(2)}}), tInt(0))) || r.op == "append" {
					fail("empty input", p, e, "returns %s without a request", short(r))
				}
				return
			}
			if !p.Has("rowall") {
				fail("one result per response entry in order", p, e, "the results are returned before every response entry was read")
			}
			want := p.Vars["rows"]
			if r := e.Args[0]; want != nil && r.key != want.key || want == nil && r.op != "makeslice" && !r.isNil() {
				fail("one result per response entry in order", p, e, "returns %s instead of the collected results", short(r))
			} else if want == nil && r.op == "makeslice" && len(r.attr) > 0 {
				// no entry added: an empty list
				if n, ok := r.attr[0].intConst(); !(ok && n == 0) && r.attr[0].op != "len" {
					fail("one result per response entry in order", p, e, "returns a list of %s blank results", short(r.attr[0]))
				}
			}
		}
		w.run(cmd, root)
		c.Check(cmd.name+": results built", rows > 0, root.Pos(), "%s never builds a result", cmd.name)
		c.Check(cmd.name+": request built", sent > 0, root.Pos(), "%s never builds a request", cmd.name)
	}
}

func tagIndex(t types.Type, tag string) int {
	st := structOf(t)
	if st == nil {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if jsonTag(t, st.Field(i)) == tag {
			return i
		}
	}
	return -1
}

// fieldVal reads a field of a value or of a value still in memory.
func rowIdx(t *Term) *Term {
	var ix *Term
	t.any(func(u *Term) bool {
		if (u.op == "idx" || u.op == "elem") && len(u.args) == 2 {
			ix = u.args[1]
			return true
		}
		return false
	})
	return ix
}

func (w *clientWatch) checkRow(p *Path, e *Event, a attempt, v, iv *Term, fail func(k, f string, b ...any)) {
	row := func(t *Term, what, path string) {
		if t == nil {
			fail("result content", "%s is missing", what)
			return
		}
		if why := w.fromJSON(p, a, t, "results[]."+path); why != "" {
			fail("result content", "%s is not the entry's %s: %s", what, path, why)
		} else if ix := rowIdx(t); ix == nil || ix.key != iv.key {
			fail("one result per response entry in order", "%s comes from entry %s, not from entry %s", what, short(ix), short(iv))
		}
	}
	row(structField(v, "Key"), "the key", "key")
	if w.cmd.name == "BatchGet" {
		found := structField(v, "Found")
		row(found, "the found flag", "found")
		it := structField(v, "Item").unbox()
		switch p.Decide(found) {
		case yes:
			w.checkItem(p, a, it, "results[].", func(f string, b ...any) { fail("result content", f, b...) })
			for _, f := range []string{"Key", "Version"} {
				if it.op == "alloc" {
					if ix := rowIdx(w.x.fieldByName(p, it, f)); ix == nil || ix.key != iv.key {
						fail("one result per response entry in order", "the item comes from entry %s", short(ix))
					}
				}
			}
		case no:
			if !it.isNil() {
				fail("result content", "a missing key has the item %s", short(it))
			}
		default:
			fail("result content", "the item does not depend on whether the key was found")
		}
		return
	}
	okF, okP := "Stored", "stored"
	if w.cmd.name == "BatchDelete" {
		okF, okP = "Deleted", "deleted"
	} else {
		row(structField(v, "Bytes"), "the size", "bytes")
	}
	succ := structField(v, okF)
	row(succ, "the success flag", okP)
	row(structField(v, "Owners"), "the owner list", "owners")
	var code *Term
	for _, d := range p.doms {
		if _, pt, ok := jsonPath(d.t); ok && pt == "results[].code" {
			code = d.t
		}
	}
	se := structField(v, "Err").unbox()
	if se.isNil() {
		if p.Decide(succ) != yes || code == nil || p.Decide(eq(code, tEmpty)) != yes {
			fail("per-item error", "an entry that is not a clean success has no error")
		}
		return
	}
	if se.op != "alloc" {
		fail("per-item error", "the entry's error is %s", short(se))
		return
	}
	if p.Decide(succ) != no && (code == nil || p.Decide(eq(code, tEmpty)) != no) {
		fail("per-item error", "a successful entry may get an error")
	}
	cv := w.x.fieldByName(p, se, "Code")
	if s, isC := cv.strConst(); isC && code != nil && p.Decide(eq(code, tStr(s))) == yes {
		// the constant equals the entry's code on this path
	} else {
		row(cv, "the error's code", "code")
	}
	row(w.x.fieldByName(p, se, "Message"), "the error's message", "error")
	st, isC := w.x.fieldByName(p, se, "HTTPStatus").intConst()
	if !isC {
		if z := w.x.fieldByName(p, se, "HTTPStatus"); z.op != "zero" {
			fail("per-item error", "the error's status is %s", short(z))
			return
		}
	}
	for cd, n := range map[string]int64{"BAD_REQUEST": 400, "DRAINING": 503, "INTERNAL": 500} {
		d := unknown
		if code != nil {
			d = p.Decide(eq(code, tStr(cd)))
		}
		if d == yes && st != n || d != yes && st == n || d == unknown {
			fail("per-item error", "an entry with code %s has status %d", cd, st)
		}
	}
	if st != 0 && st != 400 && st != 503 && st != 500 {
		fail("per-item error", "the error's status is %d", st)
	}
}

// checkSent compares one request entry with the caller's item.
func (w *clientWatch) checkSent(p *Path, v, iv *Term, fail func(f string, b ...any)) {
	itemFld := func(t *Term, name string) bool {
		if t == nil || !strings.HasSuffix(fieldOfLoad(t), "."+name) {
			return false
		}
		s, ix, ok := elemOf(loadedStruct(t))
		return ok && s.key == w.prm(2).key && ix.key == iv.key
	}
	if k := fieldByTag(v, "key"); !itemFld(k, "Key") {
		fail("the key sent is %s", short(k))
	}
	val := fieldByTag(v, "value")
	enc, _ := fieldByTag(v, "value_encoding").strConst()
	if val.isCall("encoding/base64.(*Encoding).EncodeToString") {
		ca := val.callArgs()
		if u := ca[0].unbox(); !(u.op == "load" && u.args[0].name == "encoding/base64.StdEncoding") || !itemFld(ca[1], "Value") || enc != "base64" {
			fail("the value sent is %s, declared as %q", short(val), enc)
		}
	} else {
		fail("the value sent is %s: bytes that are not valid text are altered by the JSON encoding", short(val))
	}
	ttl := fieldByTag(v, "ttl_ms")
	// find the lifetime the caller asked for among the path's facts
	var d *Term
	for _, q := range p.doms {
		if itemFld(q.t, "TTL") {
			d = q.t
		}
	}
	if d == nil {
		ttl.any(func(u *Term) bool {
			if itemFld(u, "TTL") {
				d = u
				return true
			}
			return false
		})
	}
	if d == nil {
		fail("the lifetime sent is %s", short(ttl))
		return
	}
	ms := pc("time.(Duration).Milliseconds", d)
	isMs := func(t *Term) bool {
		t = t.strip()
		if t.key == ms.key {
			return true
		}
		if t.op == "bin" && t.name == "/" && t.args[0].strip().key == d.key {
			k, ok := t.args[1].intConst()
			return ok && k == 1000000
		}
		return false
	}
	switch p.Decide(lt(tInt(0), d)) {
	case yes:
		ok := false
		if ttl.op == "pcall" || ttl.op == "call" || ttl.op == "bin" || ttl.op == "max" {
			args := ttl.args
			if len(args) == 2 && strings.Contains(ttl.op+ttl.name, "max") {
				for i := range args {
					k, isC := args[1-i].intConst()
					if isMs(args[i]) && isC && k == 1 {
						ok = true
					}
				}
			}
		}
		if m := p.Vars["ms"]; m != nil && isMs(m) {
			k, isC := ttl.intConst()
			ok = isMs(ttl) && p.Has("ms1") || isC && k == 1 && p.Has("ms0")
		}
		if isMs(ttl) {
			lo, _ := p.interval(ttl)
			ok = ok || lo != nil && *lo >= 1
			if !ok {
				lo, _ := p.interval(d)
				ok = lo != nil && *lo >= 1000000
			}
		}
		if k, isC := ttl.intConst(); !ok && isC && k == 1 {
			for _, q := range p.doms {
				if isMs(q.t) {
					if _, hi := p.interval(q.t); hi != nil && *hi <= 1 {
						ok = true
					}
				}
			}
			if _, hi := p.interval(d); hi != nil && *hi <= 1999999 {
				ok = true
			}
		}
		if !ok {
			fail("a positive lifetime is sent as %s: it can become zero (no expiry) or a different time", short(ttl))
		}
	case no:
		if k, isC := ttl.intConst(); !(isC && k == 0) && ttl.op != "zero" {
			fail("an item without lifetime is sent with %s", short(ttl))
		}
	default:
		fail("the lifetime sent does not depend on whether there is one: %s", short(ttl))
	}
}

// fieldOfLoad names the field a value was read from.
func fieldOfLoad(t *Term) string {
	t = t.unbox()
	if t.op == "load" && t.args[0].op == "field" {
		return t.args[0].name
	}
	if t.op == "fld" {
		return t.name
	}
	return ""
}

// loadedStruct rebuilds the struct value whose field was read.
func loadedStruct(t *Term) *Term {
	t = t.unbox()
	if t.op == "load" && t.args[0].op == "field" {
		return mk(&Term{op: "load", args: []*Term{t.args[0].args[0]}})
	}
	if t.op == "fld" {
		return t.args[0]
	}
	return t
}

var _ = fmt.Sprint
var _ *ssa.Function

// elemType is the element type of a slice or array (nil otherwise).
func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := derefT(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}
