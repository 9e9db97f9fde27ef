package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "K06", Level: "proof", MinObl: 30, Run: runK06,
		Explain: "Typestate over every path of RefreshTopology, New, Close and the refresh loop: per member of the decoded membership list it is decided whether an endpoint is derived and from what; the view is replaced only at the end of a complete walk over a decoded list with at least one endpoint; the loop and Close are followed through their channel operations."})
	register(&Property{ID: "K07", Level: "proof", MinObl: 30, Run: runK07,
		Explain: "Every construction option is evaluated symbolically on an arbitrary client: which inputs it rejects and what it stores is compared with its contract. The transport is followed to the header it sets. Every log and error call reachable from the package's entry points is checked for values derived from credentials."})
	register(&Property{ID: "K08", Level: "proof", MinObl: 14, Run: runK08,
		Explain: "Write-set, escape and guarded-by analysis of the client: which functions may write which field, whether published endpoint slices are ever written or handed out, and which lock protects the random source and the token log state, on every path of every entry point."})
}

// turns follows a loop over a slice: one turn per element.
type turns struct {
	tag  string
	over func(p *Path, s *Term) bool
	end  func(p *Path, e *Event)
}

func (l *turns) step(p *Path, e *Event) bool {
	if e.Kind != "branch" || !isCmp(e.Val, "<") || !isIv(e.Val.args[0]) || e.Val.args[1].op != "len" || !l.over(p, e.Val.args[1].args[0]) {
		return false
	}
	if countingLoop(e.Instr) {
		return false
	}
	if p.Has(l.tag) && l.end != nil {
		l.end(p, e)
	}
	for k := range p.Flags {
		if strings.HasPrefix(k, l.tag+"/") {
			p.Clear(k)
		}
	}
	for k := range p.Vars {
		if strings.HasPrefix(k, l.tag+"/") {
			delete(p.Vars, k)
		}
	}
	p.Clear(l.tag)
	delete(p.Vars, l.tag)
	if e.Truth {
		p.Set(l.tag)
		p.Clear(l.tag + ".all")
		p.Vars[l.tag] = e.Val.args[0]
	} else {
		p.Set(l.tag + ".all")
	}
	return true
}

// countingLoop: the innermost loop around the test runs a counter up to some
// length but looks at no element of an existing list: it only fills lists
// made in the same function and hands its counter to nobody.
func countingLoop(in ssa.Instruction) bool {
	if in == nil {
		return false
	}
	b := in.Block()
	var entry bool // the test before a loop that is tested at its end
	if iff, ok := in.(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			_, entry = bo.X.(*ssa.Const)
		}
	}
	var body map[*ssa.BasicBlock]bool
	for _, h := range in.Parent().Blocks {
		loop := map[*ssa.BasicBlock]bool{}
		for _, q := range h.Preds {
			if !h.Dominates(q) {
				continue
			}
			loop[h] = true
			work := []*ssa.BasicBlock{q}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if loop[n] {
					continue
				}
				loop[n] = true
				work = append(work, n.Preds...)
			}
		}
		if (loop[b] || entry && loop[h] && h.Idom() == b) && (body == nil || len(loop) < len(body)) {
			body = loop
		}
	}
	if body == nil {
		return false
	}
	stores := 0
	for n := range body {
		for _, i := range n.Instrs {
			switch i := i.(type) {
			case *ssa.IndexAddr:
				if !freshSlice(i.X) {
					return false
				}
			case *ssa.Store:
				stores++
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Convert, *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			default:
				return false
			}
		}
	}
	return stores > 0
}

// freshSlice: the slice is made in this function; a local that is captured by
// a closure counts when everything this function stores in it is.
func freshSlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return false
		}
		n := 0
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				if _, ok := st.Val.(*ssa.MakeSlice); !ok {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// isEmptyTest: a branch that decides whether a string is empty.
func isEmptyTest(v *Term) (*Term, bool) {
	if !isCmp(v, "==") {
		return nil, false
	}
	for i := 0; i < 2; i++ {
		if s, ok := v.args[i].strConst(); ok && s == "" {
			return v.args[1-i], true
		}
		if n, ok := v.args[i].intConst(); ok && n == 0 && v.args[1-i].op == "len" && isStringT(v.args[1-i].args[0].typ) {
			return v.args[1-i].args[0], true
		}
	}
	return nil, false
}

// eqConst: a branch that compares a string with a constant.
func eqConst(v *Term) (*Term, string, bool) {
	if !isCmp(v, "==") {
		return nil, "", false
	}
	for i := 0; i < 2; i++ {
		if s, ok := v.args[i].strConst(); ok {
			return v.args[1-i], s, true
		}
	}
	return nil, "", false
}

func atField(t *Term, i int, name string) bool {
	return len(t.args) > 0 && t.args[0].isFieldAddr(name)
}

func runK06(c *Ctx) {
	c.topologyRefresh()
	c.topologyNew()
	c.topologyLoop()
	c.topologyClose()
	c.endpointWriters()
}

func trimOf(t *Term) *Term {
	if t.isCall("strings.TrimSpace") {
		return t.callArgs()[0]
	}
	return t
}

func (c *Ctx) topologyRefresh() {
	root := c.clientRoot("RefreshTopology")
	if root == nil {
		return
	}
	rules := []string{"view replaced only by a decoded list", "view never emptied", "one endpoint per live member", "dead members excluded", "endpoint built from the member's address", "scheme of the first usable seed", "complete walk", "failure leaves the view unchanged", "failure is reported", "success updates the view"}
	for _, k := range rules {
		c.Oblige("refresh: " + k)
	}
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("refresh: "+k, e.Pos(), p.Trace(), f, a...)
	}
	x := newEngine(c.P, root)
	isJSON := func(t *Term, path string) bool {
		_, pt, ok := jsonPath(t)
		return ok && pt == path
	}
	mem := &turns{tag: "m", over: func(p *Path, s *Term) bool { return isJSON(s, "members") }}
	mem.end = func(p *Path, e *Event) {
		if !p.Has("m/added") && !p.Has("m/skip") {
			fail("one endpoint per live member", p, e, "a live member with an address is left out of the new view")
		}
	}
	seed := &turns{tag: "s", over: func(p *Path, s *Term) bool { return s.isLoadOf("Client.seeds") }}
	seed.end = func(p *Path, e *Event) {
		if !p.Has("s/skip") {
			fail("scheme of the first usable seed", p, e, "a seed with a scheme is passed over")
		}
	}
	parseOf := func(t *Term) *Term { // the seed a parsed URL comes from
		t = t.unbox()
		if t.op == "ext" && t.isCall("net/url.Parse") {
			return t.callArgs()[0]
		}
		return nil
	}
	curSeed := func(p *Path, s *Term) bool {
		l, ix, ok := elemOf(s)
		return ok && l.isLoadOf("Client.seeds") && p.Vars["s"] != nil && ix.key == p.Vars["s"].key
	}
	isSchemeOf := func(p *Path, t *Term) bool {
		t = t.unbox()
		if t.op != "load" || !t.args[0].isFieldAddr("URL.Scheme") {
			return false
		}
		s := parseOf(t.args[0].args[0])
		return s != nil && curSeed(p, s)
	}
	curAddr := func(p *Path, t *Term) bool {
		t = trimOf(t)
		if !isJSON(t, "members[].address") {
			return false
		}
		ix := rowIdx(t)
		return ix != nil && p.Vars["m"] != nil && ix.key == p.Vars["m"].key
	}
	var listOK func(p *Path, l *Term) bool
	listOK = func(p *Path, l *Term) bool {
		return p.Vars["list"] != nil && p.Vars["list"].key == l.key
	}
	n := 0
	x.OnEvent = func(p *Path, e *Event) {
		mem.step(p, e)
		seed.step(p, e)
		switch e.Kind {
		case "branch":
			v := e.Val
			if p.Has("m") {
				if t, ok := isEmptyTest(v); ok && t.isCall("strings.TrimRight") && curAddr(p, t.callArgs()[0]) && e.Truth {
					p.Set("m/skip")
				}
				if t, ok := isEmptyTest(v); ok && curAddr(p, t) {
					if e.Truth {
						p.Set("m/skip")
					} else {
						p.Set("m/addr")
					}
				}
				if t, s, ok := eqConst(v); ok && s == "dead" && isJSON(t, "members[].state") && rowIdx(t).key == p.Vars["m"].key {
					if e.Truth {
						p.Set("m/skip")
						p.Set("m/dead")
					} else {
						p.Set("m/live")
					}
				}
			}
			if p.Has("s") {
				if t, ok := isEmptyTest(v); ok && isSchemeOf(p, t) {
					if e.Truth {
						p.Set("s/skip")
					} else {
						p.Set("s/scheme")
					}
				}
				if isCmp(v, "==") && v.args[1].isNil() {
					if s := parseOf(v.args[0]); s != nil && v.args[0].unbox().idx == 1 && curSeed(p, s) {
						if e.Truth {
							p.Set("s/parsed")
						} else {
							p.Set("s/skip")
						}
					}
				}
			}
		case "append":
			if len(e.Args) < 2 || !isStringT(e.Args[1].typ) || !isSliceOfString(e.Res) {
				return
			}
			if !p.Has("m") {
				return
			}
			n++
			if len(e.Args) != 2 || p.Has("m/added") {
				fail("one endpoint per live member", p, e, "several endpoints are added for one member")
			}
			p.Set("m/added")
			if !p.Has("m/live") || p.Has("m/dead") {
				fail("dead members excluded", p, e, "an endpoint is added for a member whose state may be dead")
			}
			c.checkEndpoint(p, e, e.Args[1], curAddr, isSchemeOf, fail)
			if b := e.Args[0]; !(b.op == "append" || b.isNil() || b.op == "makeslice" && b.attr[0].key == tInt(0).key) {
				fail("complete walk", p, e, "the new view starts from %s", short(b))
			} else if l := p.Vars["list"]; l != nil && b.op == "append" && l.op != "append" {
				fail("complete walk", p, e, "an endpoint is lost")
			}
			p.Vars["list"] = e.Res
		case "call":
			if strings.HasPrefix(e.Name, "sync/atomic.(*Pointer).") && len(e.Args) > 0 && e.Args[0].isFieldAddr("Client.endpoints") {
				if strings.HasSuffix(e.Name, ".Load") {
					return
				}
				if !strings.HasSuffix(e.Name, ").Store") && !strings.HasSuffix(e.Name, ").Swap") {
					fail("success updates the view", p, e, "the view is replaced by %s", e.Name)
					return
				}
				l := x.Load(p, e.Args[1], nil)
				if e.Args[1].isNil() || l == nil {
					fail("view never emptied", p, e, "the view is set to nothing")
					return
				}
				if !p.Has("m.all") || !p.Has("decoded") || p.Has("stored") {
					fail("complete walk", p, e, "the view is replaced outside a complete walk over a decoded membership list")
				}
				if p.Vars["derr"] == nil || !p.KnownNil(p.Vars["derr"]) {
					fail("view replaced only by a decoded list", p, e, "the view is replaced although decoding may have failed")
				}
				ln := mk(&Term{op: "len", args: []*Term{l}, typ: types.Typ[types.Int]})
				lo, _ := p.interval(ln)
				if !(lo != nil && *lo >= 1) && p.Decide(eq(ln, tInt(0))) != no {
					fail("view never emptied", p, e, "the view may be replaced by an empty list")
				}
				if !listOK(p, l) && !(p.Vars["list"] == nil && l.op == "makeslice") {
					fail("complete walk", p, e, "the view becomes %s instead of the collected endpoints", short(l))
				}
				p.Set("stored")
				return
			}
			if strings.HasSuffix(e.Name, ".Decode") || strings.HasSuffix(e.Name, ".Unmarshal") {
				p.Set("decoded")
				p.Vars["derr"] = e.Res
			}
			if isHTTPDo(e.Name) && e.Res != nil && e.Res.op == "tuple" {
				p.Vars["doerr"] = e.Res.args[1]
			}
		case "return":
			er := errRes(e)
			isNil := er.isNil() || p.KnownNil(er)
			if !isNil {
				if !p.KnownNonNil(er) {
					fail("failure is reported", p, e, "the result %s may or may not be an error", short(er))
				}
				if p.Has("stored") {
					fail("failure leaves the view unchanged", p, e, "the view is replaced although an error is returned")
				}
				return
			}
			if !p.Has("decoded") || p.Vars["derr"] == nil || !p.KnownNil(p.Vars["derr"]) {
				fail("failure is reported", p, e, "success is reported without a decoded membership list")
				return
			}
			if !p.Has("stored") {
				if !p.Has("m.all") {
					fail("complete walk", p, e, "success is reported before every member was examined")
				}
				if l := p.Vars["list"]; l != nil && p.Decide(eq(mk(&Term{op: "len", args: []*Term{l}, typ: types.Typ[types.Int]}), tInt(0))) != yes && !p.Has("emptied") {
					fail("success updates the view", p, e, "live endpoints were found but the view is not replaced")
				}
			}
		}
	}
	c.Explore(x, nil)
	c.Check("refresh: endpoints are derived", n > 0, root.Pos(), "RefreshTopology never derives an endpoint")
}

func isSliceOfString(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return ok && isStringT(s.Elem())
}

// checkEndpoint: an endpoint is scheme://address, or the address itself when
// it already carries a scheme.
func (c *Ctx) checkEndpoint(p *Path, e *Event, v *Term, curAddr func(*Path, *Term) bool, isScheme func(*Path, *Term) bool, fail func(k string, p *Path, e *Event, f string, a ...any)) {
	k := "endpoint built from the member's address"
	v = v.unbox()
	hasScheme := func(a *Term) int { return p.Decide(pc("strings.Contains", a).withArg(tStr("://"))) }
	if !p.Has("m/addr") {
		fail(k, p, e, "an endpoint is added for a member whose address may be empty")
	}
	ps := normPieces(concat(v))
	switch {
	case len(ps) == 1:
		t := ps[0]
		if !t.isCall("strings.TrimRight") && !t.isCall("strings.TrimSuffix") || len(t.callArgs()) != 2 {
			fail(k, p, e, "the endpoint is %s", short(v))
			return
		}
		if cut, _ := t.callArgs()[1].strConst(); cut != "/" {
			fail(k, p, e, "the address is trimmed of %q", cut)
		}
		a := t.callArgs()[0]
		if !curAddr(p, a) || !a.isCall("strings.TrimSpace") {
			fail(k, p, e, "the endpoint %s is not this member's address", short(v))
		} else if hasScheme(a) != yes {
			fail(k, p, e, "an address without scheme is used as it is")
		}
	case len(ps) >= 2:
		s, ok := ps[0].strConst()
		var addr *Term
		if ok && len(ps) == 2 { // constant scheme
			addr = ps[1]
			if s != "https://" || !p.Has("s.all") || p.Has("s") {
				fail("scheme of the first usable seed", p, e, "the scheme is %q although a seed may carry one", s)
			}
		} else if sep, ok2 := ps[1].strConst(); !ok && ok2 && len(ps) == 3 {
			addr = ps[2]
			if sep != "://" {
				fail(k, p, e, "scheme and address are joined by %q", sep)
			}
			if !isScheme(p, ps[0]) || !p.Has("s") || !p.Has("s/scheme") || !p.Has("s/parsed") || p.Has("s/skip") {
				fail("scheme of the first usable seed", p, e, "the scheme is %s", short(ps[0]))
			}
		}
		if addr == nil {
			fail(k, p, e, "the endpoint is %s", piecesStr(ps))
			return
		}
		if !curAddr(p, addr) || !addr.isCall("strings.TrimSpace") {
			fail(k, p, e, "the endpoint's address is %s", short(addr))
		} else if hasScheme(addr) != no {
			fail(k, p, e, "a scheme is put before an address that may already have one")
		}
	default:
		fail(k, p, e, "the endpoint is %s", short(v))
	}
}

func (t *Term) withArg(a *Term) *Term {
	return mk(&Term{op: t.op, name: t.name, args: append(append([]*Term(nil), t.args...), a), typ: types.Typ[types.Bool]})
}

func (c *Ctx) topologyNew() {
	root := c.NeedF(relClient, "New")
	if root == nil {
		return
	}
	rules := []string{"seeds are trimmed and kept in order", "no usable seed is an error", "every option applied once in order", "option error returned without a client", "initial view is the seeds", "refresh runs exactly when an interval is set", "refresh channels exist before the loop starts", "success returns the client", "same defaults", "requests are bounded in time"}
	for _, k := range rules {
		c.Oblige("new: " + k)
	}
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("new: "+k, e.Pos(), p.Trace(), f, a...)
	}
	x := newEngine(c.P, root)
	prm := func(i int) *Term { return rootParam(root, i) }
	sd := &turns{tag: "s", over: func(p *Path, s *Term) bool { return s.key == prm(0).key }}
	sd.end = func(p *Path, e *Event) {
		if !p.Has("s/added") && !p.Has("s/skip") {
			fail("seeds are trimmed and kept in order", p, e, "a seed is dropped")
		}
	}
	op := &turns{tag: "o", over: func(p *Path, s *Term) bool { return s.key == prm(1).key }}
	op.end = func(p *Path, e *Event) {
		if !p.Has("o/done") || p.Vars["o/err"] == nil || !p.KnownNil(p.Vars["o/err"]) {
			fail("every option applied once in order", p, e, "an option is skipped or its error ignored")
		}
	}
	trimmed := func(p *Path, t *Term) bool {
		if !t.isCall("strings.TrimRight") {
			return false
		}
		a := t.callArgs()
		cut, _ := a[1].strConst()
		if cut != "/" || !a[0].isCall("strings.TrimSpace") {
			return false
		}
		l, ix, ok := elemOf(a[0].callArgs()[0])
		return ok && l.key == prm(0).key && p.Vars["s"] != nil && ix.key == p.Vars["s"].key
	}
	lenOf := func(t *Term) *Term { return mk(&Term{op: "len", args: []*Term{t}, typ: types.Typ[types.Int]}) }
	x.OnEvent = func(p *Path, e *Event) {
		sd.step(p, e)
		op.step(p, e)
		switch e.Kind {
		case "branch":
			if t, ok := isEmptyTest(e.Val); ok && p.Has("s") && trimmed(p, t) {
				if e.Truth {
					p.Set("s/skip")
				} else {
					p.Set("s/nonempty")
				}
			}
			if isCmp(e.Val, "==") && e.Val.args[1].isNil() && p.Vars["o/err"] != nil && e.Val.args[0].key == p.Vars["o/err"].key && !e.Truth {
				p.Set("operr")
				p.Vars["operr"] = p.Vars["o/err"]
			}
			if isCmp(e.Val, "<") && e.Val.args[0].key == tInt(0).key && c.isIntervalOf(e.Val.args[1], p.Vars["client"]) {
				p.Clear("wantrefresh")
				p.Clear("norefresh")
				if p.Has("o.all") {
					if e.Truth {
						p.Set("wantrefresh")
					} else {
						p.Set("norefresh")
					}
				}
			}
		case "append":
			if !p.Has("s") || len(e.Args) < 2 || !isStringT(e.Args[1].typ) {
				return
			}
			if len(e.Args) != 2 || p.Has("s/added") || !trimmed(p, e.Args[1]) || !p.Has("s/nonempty") {
				fail("seeds are trimmed and kept in order", p, e, "the seed list gets %s", short(e.Args[1]))
			}
			p.Set("s/added")
			p.Vars["list"] = e.Res
		case "store":
			if h := e.Val; e.Addr.isFieldAddr("Client.http") && h.op == "alloc" && h.typ != nil && typeStr(derefT(h.typ)) == "net/http.Client" {
				if n, ok := x.fieldByName(p, h, "Timeout").intConst(); !ok || n <= 0 {
					fail("requests are bounded in time", p, e, "the default HTTP client waits without limit for a node that does not answer")
				}
				p.Set("httpset")
			}
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Client.") && e.Addr.args[0].op == "alloc" && typeStr(derefT(e.Addr.args[0].typ)) == "pkg/client.Client" {
				p.Vars["client"] = e.Addr.args[0]
				switch e.Addr.name {
				case "Client.seeds":
					p.Vars["seeds"] = e.Val
					if !p.Has("s.all") {
						fail("seeds are trimmed and kept in order", p, e, "the seeds are set before all were read")
					}
				case "Client.refreshStopCh", "Client.refreshDoneCh":
					p.Vars[e.Addr.name] = e.Val
				}
			}
		case "call":
			if e.Name == "sync/atomic.(*Pointer).Store" && e.Args[0].isFieldAddr("Client.endpoints") {
				v := x.Load(p, e.Args[1], nil)
				p.Vars["view"] = v
				if p.Has("o") || p.Has("o.all") {
					fail("initial view is the seeds", p, e, "the view is set after options ran")
				}
			}
			if strings.HasPrefix(e.Name, "dyn:") && e.Addr != nil {
				l, ix, ok := elemOf(e.Addr)
				if !ok || l.key != prm(1).key || p.Vars["o"] == nil || ix.key != p.Vars["o"].key || p.Has("o/done") {
					fail("every option applied once in order", p, e, "calls %s", short(e.Addr))
					return
				}
				p.Set("o/done")
				if p.Vars["client"] == nil || len(e.Args) != 1 || e.Args[0].key != p.Vars["client"].key {
					fail("every option applied once in order", p, e, "an option is applied to %s", short(e.Args[0]))
				}
				p.Vars["o/err"] = e.Res
				if p.Vars["seeds"] == nil || p.Vars["view"] == nil {
					fail("same defaults", p, e, "options run before the client is complete")
				}
				for _, f := range []string{"http", "failoverRand", "logger"} {
					// non-nil defaults before the first option
					if p.Has("defaults") {
						continue
					}
					if v := x.fieldByName(p, e.Args[0], f); v == nil || v.isNil() || v.op == "zero" {
						fail("same defaults", p, e, "options run before %s is set", f)
					}
				}
				p.Set("defaults")
			}
		case "go":
			f, _ := e.Args[0].unbox(), 0
			if f.fn == nil || !strings.HasSuffix(calleeName(f.fn), "topologyRefreshLoop") {
				if !c.reachesRefresh(f.fn) {
					return
				}
			}
			if p.Has("started") || !p.Has("wantrefresh") {
				fail("refresh runs exactly when an interval is set", p, e, "a refresh loop is started although no positive interval is known after the options")
			}
			p.Set("started")
			a, b := p.Vars["Client.refreshStopCh"], p.Vars["Client.refreshDoneCh"]
			if a == nil || b == nil || a.op != "makechan" || b.op != "makechan" || a.key == b.key {
				fail("refresh channels exist before the loop starts", p, e, "the loop starts with stop=%s done=%s", short(a), short(b))
			}
		case "return":
			cl, er := e.Args[0], errRes(e)
			switch {
			case er.isNil() || p.KnownNil(er):
				w := p.Vars["client"]
				if w == nil || cl.key != w.key {
					fail("success returns the client", p, e, "returns %s without error", short(cl))
					return
				}
				sl, view := p.Vars["seeds"], p.Vars["view"]
				want := p.Vars["list"]
				if sl == nil || view == nil || want != nil && (sl.key != want.key) || want == nil && sl.op != "makeslice" {
					fail("seeds are trimmed and kept in order", p, e, "the seeds are %s", short(sl))
				}
				if view == nil || sl == nil || view.key != sl.key && !copyOfSlice(p, view, sl) {
					fail("initial view is the seeds", p, e, "the first view is %s", short(view))
				}
				if !p.Has("o.all") {
					fail("every option applied once in order", p, e, "succeeds before every option ran")
				}
				if sl != nil && p.Decide(eq(lenOf(sl), tInt(0))) != no && p.Vars["list"] == nil && !p.Has("nonempty") {
					lo, _ := p.interval(lenOf(sl))
					if lo == nil || *lo < 1 {
						fail("no usable seed is an error", p, e, "succeeds with a seed list that may be empty")
					}
				}
				ri := x.fieldByName(p, cl, "refreshInterval")
				want2 := p.Has("wantrefresh")
				none := p.Has("norefresh") || ri != nil && p.Decide(lt(tInt(0), ri)) == no
				if p.Has("started") != want2 || !want2 && !none {
					fail("refresh runs exactly when an interval is set", p, e, "returns with refresh started=%v", p.Has("started"))
				}
			default:
				if !p.KnownNonNil(er) && !nonNilTerm(er.unbox()) && !nonNilTerm(er) {
					fail("success returns the client", p, e, "the error %s may be nil", short(er))
				}
				if !cl.isNil() {
					fail("option error returned without a client", p, e, "returns the client %s with an error", short(cl))
				}
				if p.Has("started") {
					fail("option error returned without a client", p, e, "returns an error with the refresh loop running")
				}
				if oe := p.Vars["operr"]; oe != nil && p.Has("operr") {
					if !wrapsPred(er, func(t *Term) bool { return t.key == oe.key }) {
						fail("option error returned without a client", p, e, "the option's error is replaced by %s", short(er))
					}
					return
				}
				if !wrapsSentinel(er, "pkg/client.ErrNoEndpoints") {
					fail("no usable seed is an error", p, e, "returns %s", short(er))
				}
				l := p.Vars["list"]
				empty := p.Decide(eq(lenOf(prm(0)), tInt(0))) == yes || p.Has("s.all") && (l == nil || p.Decide(eq(lenOf(l), tInt(0))) == yes)
				if !empty {
					fail("no usable seed is an error", p, e, "usable seeds are rejected")
				}
			}
		}
	}
	c.Explore(x, nil)
}

// reachesRefresh: a goroutine body that calls RefreshTopology.
func (c *Ctx) reachesRefresh(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inModule(f) {
			return false
		}
		seen[f] = true
		if calleeName(f) == relClient+".(*Client).RefreshTopology" {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch v := ci.Common().Value.(type) {
					case *ssa.Function:
						if rec(v) {
							return true
						}
					case *ssa.MakeClosure:
						if rec(v.Fn.(*ssa.Function)) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// isIntervalOf: the refresh interval of the client under construction.
func (c *Ctx) isIntervalOf(t, cl *Term) bool {
	if t.op == "fld" && t.name == "Client.refreshInterval" {
		return true
	}
	b, ok := loadField(t, "Client.refreshInterval")
	return ok && (cl == nil || b.key == cl.key || b.op == "out")
}

// copyOfSlice: v holds the elements of s.
func copyOfSlice(p *Path, v, s *Term) bool {
	if q := p.Vars["copyof|"+v.key]; q != nil && q.key == s.key {
		return true
	}
	return v.op == "pcall" && v.name == "slices.Clone" && v.args[0].key == s.key
}

// sameLen: n is the length of s.
func (p *Path) sameLen(n, s *Term) bool {
	l := mk(&Term{op: "len", args: []*Term{s}, typ: types.Typ[types.Int]})
	return n.key == l.key || p.Decide(eq(n, l)) == yes
}

func noteCopies(p *Path, e *Event) {
	switch e.Kind {
	case "copy":
		if d := e.Args[0]; d.op != "makeslice" || len(d.attr) > 0 && p.sameLen(d.attr[0], e.Args[1]) {
			p.Vars["copyof|"+d.key] = e.Args[1]
		}
	case "append":
		if len(e.Args) == 2 && e.Res != nil {
			if e.Args[1].op == "spread" {
				if b := e.Args[0]; b.isNil() || b.op == "zero" || b.op == "makeslice" && len(b.attr) > 0 && b.attr[0].key == tInt(0).key || b.op == "slice" && emptyPrefix(b) {
					p.Vars["copyof|"+e.Res.key] = e.Args[1].spread()
				}
			}
		}
	}
}

// spread unwraps the s of append(x, s...).
func (t *Term) spread() *Term {
	if t.op == "spread" {
		return t.args[0]
	}
	return t
}

// emptyPrefix: s[:0:0] of anything allocates on append.
func emptyPrefix(b *Term) bool { return false }

func (c *Ctx) topologyLoop() {
	// whatever goroutine New starts that refreshes
	var roots []*ssa.Function
	for _, f := range c.goRoots(relClient) {
		if c.reachesRefresh(f) {
			roots = append(roots, f)
		}
	}
	c.Check("loop: refresh loop exists", len(roots) > 0, 0, "no goroutine of the client refreshes the topology")
	for _, root := range roots {
		for _, k := range []string{"stops only when asked", "announces its end", "one refresh per tick", "refresh is bounded in time", "keeps running after a failure", "ticks at the interval", "stops when asked"} {
			c.Oblige("loop: " + k)
		}
		fail := func(k string, p *Path, e *Event, f string, a ...any) {
			c.Fail("loop: "+k, e.Pos(), p.Trace(), f, a...)
		}
		x := newEngine(c.P, root)
		x.NoInline = func(f *ssa.Function) bool { return calleeName(f) == relClient+".(*Client).RefreshTopology" }
		isStop := func(t *Term) bool { return t.isLoadOf("Client.refreshStopCh") }
		waited := false
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "recv":
				if p.Has("tick") && !p.Has("refreshed") {
					fail("one refresh per tick", p, e, "a tick passes without a refresh")
				}
				if p.Has("cancel") {
					fail("refresh is bounded in time", p, e, "the timer of a refresh is leaked")
				}
				p.Clear("tick")
				p.Clear("refreshed")
				if p.Has("stop") && e.Blocking {
					fail("stops when asked", p, e, "waits again (%s) after it was told to stop", short(e.Addr))
				}
				if isStop(e.Addr) {
					p.Set("stop")
					return
				}
				hasStop := false
				for _, a := range e.Args {
					if isStop(a) {
						hasStop = true
					}
				}
				if e.Blocking && !hasStop && !p.Has("stop") {
					fail("stops when asked", p, e, "waits for %s without listening for stop", short(e.Addr))
				}
				if hasStop {
					waited = true
				}
				if b, ok := loadField(e.Addr, "Ticker.C"); ok && b.isCall("time.NewTicker") {
					p.Set("tick")
					if !b.callArgs()[0].isLoadOf("Client.refreshInterval") {
						fail("ticks at the interval", p, e, "ticks every %s", short(b.callArgs()[0]))
					}
				}
			case "call":
				switch {
				case strings.HasSuffix(e.Name, "(*Client).RefreshTopology"):
					if !p.Has("tick") || p.Has("refreshed") {
						fail("one refresh per tick", p, e, "refreshes without a tick or twice for one tick")
					}
					p.Set("refreshed")
					ctx := e.Args[1].unbox()
					if !(ctx.op == "ext" && ctx.idx == 0 && (ctx.isCall("context.WithTimeout") || ctx.isCall("context.WithDeadline"))) {
						fail("refresh is bounded in time", p, e, "the refresh runs under %s", short(ctx))
					} else if p.Has("cancelled") {
						fail("refresh is bounded in time", p, e, "the refresh runs under a cancelled context")
					} else if d := ctx.callArgs()[1]; !d.isLoadOf("Client.refreshInterval") {
						if n, ok := d.intConst(); !ok || n <= 0 {
							fail("refresh is bounded in time", p, e, "the refresh may take %s", short(d))
						}
					}
				case e.Name == "context.WithTimeout" || e.Name == "context.WithDeadline":
					p.Set("cancel")
					p.Clear("cancelled")
				case strings.HasPrefix(e.Name, "dyn:") && e.Addr != nil && e.Addr.op == "ext" && e.Addr.idx == 1 && strings.HasPrefix(e.Addr.args[0].name, "context.With"):
					p.Clear("cancel")
					p.Set("cancelled")
				}
			case "close":
				if e.Addr.isLoadOf("Client.refreshDoneCh") {
					if p.Has("done") {
						fail("announces its end", p, e, "closes the done channel twice")
					}
					p.Set("done")
					if !p.Has("stop") {
						fail("announces its end", p, e, "announces its end while still running")
					}
				} else {
					fail("announces its end", p, e, "closes %s", short(e.Addr))
				}
			case "return":
				if !p.Has("stop") {
					fail("stops only when asked", p, e, "the refresh loop ends although the client was not closed")
				}
				if !p.Has("done") {
					fail("announces its end", p, e, "the loop ends without closing the done channel")
				}
				if p.Has("cancel") {
					fail("refresh is bounded in time", p, e, "the timer of a refresh is leaked")
				}
			case "panic":
				fail("keeps running after a failure", p, e, "the refresh loop panics")
			}
		}
		c.Explore(x, nil)
		c.Check("loop: listens for stop", waited, root.Pos(), "%s never waits for a tick or stop", calleeName(root))
	}
}

func (c *Ctx) topologyClose() {
	root := c.clientRoot("Close")
	if root == nil {
		return
	}
	for _, k := range []string{"signals stop once", "waits for the loop", "no error", "no effect without refresh"} {
		c.Oblige("close: " + k)
	}
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("close: "+k, e.Pos(), p.Trace(), f, a...)
	}
	x := newEngine(c.P, root)
	recv := rootParam(root, 0)
	is := func(t *Term, f string) bool { b, ok := loadField(t, f); return ok && b.key == recv.key }
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "branch":
			if isCmp(e.Val, "==") && e.Val.args[1].isNil() {
				for _, f := range []string{"Client.refreshStopCh", "Client.refreshDoneCh"} {
					if is(e.Val.args[0], f) {
						if e.Truth {
							p.Set("nil " + f)
						} else {
							p.Set("set " + f)
						}
					}
				}
			}
		case "onceenter":
			p.Set("once")
		case "onceexit":
			p.Clear("once")
			if p.Has("closed") {
				p.Set("signalled")
			}
		case "oncedone":
			p.Set("signalled")
		case "close":
			if !is(e.Addr, "Client.refreshStopCh") {
				fail("signals stop once", p, e, "closes %s", short(e.Addr))
				return
			}
			if !p.Has("once") || p.Has("closed") {
				fail("signals stop once", p, e, "the stop channel can be closed twice")
			}
			if !p.Has("set Client.refreshStopCh") {
				fail("no effect without refresh", p, e, "the stop channel may be nil")
			}
			p.Set("closed")
		case "recv":
			if !is(e.Addr, "Client.refreshDoneCh") {
				fail("waits for the loop", p, e, "waits on %s", short(e.Addr))
				return
			}
			if !p.Has("signalled") {
				fail("waits for the loop", p, e, "waits for the loop before telling it to stop")
			}
			if !p.Has("set Client.refreshStopCh") {
				fail("no effect without refresh", p, e, "waits although no refresh was started")
			}
			p.Set("waited")
		case "send":
			fail("signals stop once", p, e, "sends on %s", short(e.Addr))
		case "return":
			if !errRes(e).isNil() {
				fail("no error", p, e, "returns %s", short(errRes(e)))
			}
			if p.Has("nil Client.refreshStopCh") {
				return
			}
			if !p.Has("set Client.refreshStopCh") || !p.Has("signalled") {
				fail("signals stop once", p, e, "returns without telling a running loop to stop")
			}
			if !p.Has("waited") && !p.Has("nil Client.refreshDoneCh") {
				fail("waits for the loop", p, e, "returns while the refresh loop may still run")
			}
		}
	}
	c.Explore(x, nil)
}

// endpointWriters: the view is published by the constructor and the refresh only.
func (c *Ctx) endpointWriters() {
	k := "view written only by New and RefreshTopology"
	c.Oblige(k)
	visited := map[ssa.Instruction]bool{}
	for _, r := range []*ssa.Function{c.NeedF(relClient, "New"), c.clientRoot("RefreshTopology")} {
		if r == nil {
			return
		}
		x := newEngine(c.P, r)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "call" && e.Instr != nil {
				visited[e.Instr] = true
			}
		}
		x.Run()
	}
	for _, f := range c.P.Funcs {
		eachFieldAddr(f, "Client.endpoints", func(fa *ssa.FieldAddr) {
			for _, r := range *fa.Referrers() {
				ci, ok := r.(*ssa.Call)
				if !ok {
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					c.Fail(k, r.Pos(), "", "%s lets the endpoint view escape", calleeName(f))
					continue
				}
				n := ""
				if s := ci.Call.StaticCallee(); s != nil {
					n = s.Name()
				}
				if n == "Load" {
					continue
				}
				if !visited[ci] {
					c.Fail(k, r.Pos(), "", "%s changes the endpoint view (%s)", calleeName(f), n)
				}
			}
		})
	}
}
