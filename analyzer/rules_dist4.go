package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	replayHintsFn = "pkg/backend.(*DistMemory).replayHints"
	hintSizeFn    = "pkg/backend.(*DistMemory).approxHintSize"
)

func init() {
	register(&Property{ID: "Q03", Level: "bounded", Run: runQ03, MinObl: 12,
		Explain: "every path through queueHint and replayHints, each hint's turn judged on its own, against what is kept, sent and accounted for",
		Assume:  []string{"the clock, the transport and the maps and slices of Go"}})
}

// account follows the two totals of the queued hints: how many and how large.
type account struct{ dm *Term }

// step follows one event; the totals are never negative, as they are what is
// queued, so what is done if they were is not followed.
func (a account) step(p *Path, e *Event) {
	x := p.x
	of := func(t *Term) bool {
		m, _ := linear(t)
		for _, v := range m {
			if v > 0 {
				return t.any(func(u *Term) bool { return u.isLoadOf(dmT+".hintTotal") || u.isLoadOf(dmT+".hintBytes") })
			}
		}
		return false
	}
	switch e.Kind {
	case "store":
		for _, f := range []string{"hintTotal", "hintBytes"} {
			if e.Addr.op != "field" || e.Addr.name != dmT+"."+f || e.Addr.args[0].key != a.dm.key {
				continue
			}
			cur := x.Load(p, e.Addr, e.Val.typ)
			d := linSub(e.Val, cur)
			if o := p.Vars["d."+f]; o != nil {
				d = mk(&Term{op: "bin", name: "+", args: []*Term{o, d}, typ: d.typ})
			}
			p.Vars["d."+f] = d
			e.Val = cur
		}
	case "branch":
		v := e.Val
		if isCmp(v, "<") && e.Truth && isZeroInt(v.args[1]) && of(v.args[0]) {
			p.Dead = true
		}
		if isCmp(v, "<=") && !e.Truth && isZeroInt(v.args[0]) && of(v.args[1]) {
			p.Dead = true
		}
	}
}

// is: since the last reset there came n hints and the bytes b.
func (a account) is(p *Path, n int64, b *Term) bool {
	d, g := p.Vars["d.hintTotal"], p.Vars["d.hintBytes"]
	if d == nil {
		d = tInt(0)
	}
	if g == nil {
		g = tInt(0)
	}
	return linSame(d, tInt(n)) && linSame(g, b)
}

func (a account) reset(p *Path) {
	delete(p.Vars, "d.hintTotal")
	delete(p.Vars, "d.hintBytes")
}

func runQ03(c *Ctx) {
	c.queueHintRule()
	c.replayRule()
	qh, rh := c.NeedM(relBackend, dmT, "queueHint"), c.NeedM(relBackend, dmT, "replayHints")
	if qh == nil || rh == nil {
		return
	}
	const kw = "hints: nothing else changes the queues or what is counted of them"
	c.Oblige(kw)
	allowed := map[*ssa.Function]bool{qh: true, rh: true}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || !inModule(f) || c.runsOnlyIn(f, allowed) {
			continue
		}
		for _, n := range []string{"hints", "hintTotal", "hintBytes"} {
			eachFieldAddr(f, dmT+"."+n, func(fa *ssa.FieldAddr) {
				if _, ok := fa.X.(*ssa.Alloc); ok { // under construction
					return
				}
				bad := escapes(fa)
				for _, r := range *fa.Referrers() {
					u, ok := r.(*ssa.UnOp)
					if !ok || n != "hints" {
						continue
					}
					for _, r := range *u.Referrers() {
						switch r := r.(type) {
						case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.BinOp:
						case *ssa.Call:
							if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
								bad = append(bad, r)
							}
						default:
							bad = append(bad, r)
						}
					}
				}
				for _, in := range bad {
					c.Fail(kw, in.Pos(), "", "%s changes %s", calleeName(f), n)
				}
			})
		}
	}
}

// valField: a field of a struct held as a value.
func valField(x *Engine, w *Term, name string) *Term {
	if w == nil || w.typ == nil {
		return nil
	}
	st := structOf(w.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if fl := st.Field(i); fl.Name() == name {
			return x.fieldOf(w, fl, fieldName(fl, w.typ), fl.Type())
		}
	}
	return nil
}

func (c *Ctx) queueHintRule() {
	f := c.NeedM(relBackend, dmT, "queueHint")
	if f == nil {
		return
	}
	const (
		kq = "queueHint: with a lifetime, the hint is put at the end of the node's queue, unless a cap is reached"
		ke = "queueHint: it holds a copy of the item and expires one lifetime from now"
		kd = "queueHint: only a full queue gives up its oldest, and only that"
		ka = "queueHint: what is counted is what is queued"
		kn = "queueHint: no other node's hints are touched"
		ks = "queueHint: the caps on all hints and on their size hold"
	)
	for _, k := range []string{kq, ke, kd, ka, kn, ks} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = func(fn *ssa.Function) bool {
		return fn != nil && fn.Signature.Results().Len() == 1 && fn != f && calleeName(fn) == hintSizeFn
	}
	dm, node, item := rootParam(f, 0), rootParam(f, 1), rootParam(f, 2)
	acc := account{dm}
	isMap := func(t *Term) bool {
		return t.isLoadOf(dmT+".hints") && loadBase(t).key == dm.key || t.op == "makemap"
	}
	limit := func(p *Path, n string) *Term { return x.fieldByName(p, dm, n) }
	pos := func(p *Path, n string) int {
		l := limit(p, n)
		return p.Decide(lt(intLike(l, 0), l))
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		acc.step(p, e)
		if p.Dead {
			return
		}
		// base: what was queued, and how many of it were dropped
		base := func(t *Term) (int, bool) {
			q := p.Vars["q"]
			n := 0
			for q != nil {
				if t.key == q.key {
					return n, true
				}
				if t.op == "slice" && len(t.args) == 3 && isOneInt(t.args[1]) && t.args[2].op == "none" {
					t = t.args[0]
					n++
					continue
				}
				break
			}
			return 0, false
		}
		full := func() bool {
			q := p.Vars["q"]
			return q != nil && pos(p, "hintMaxPerNode") == yes && p.Decide(lt(lenTerm(q), limit(p, "hintMaxPerNode"))) == no
		}
		switch e.Kind {
		case "lock":
			p.Vars["t0"], p.Vars["b0"] = limit(p, "hintTotal"), limit(p, "hintBytes")
		case "lookup":
			if isMap(e.Args[0]) && len(e.Args) > 1 && e.Args[1].key == node.key && p.Vars["q"] == nil {
				p.Vars["q"] = e.Res
			}
		case "precall":
			if e.Name == hintSizeFn && (len(e.Args) < 2 || e.Args[1].key != item.key) {
				fail(ka, "the size is that of something else than the item")
			}
		case "call":
			if e.Name == hintSizeFn {
				p.Vars["size"] = e.Res
				return
			}
			if p.Vars["q"] != nil && p.Vars["app"] == nil && strings.HasPrefix(e.Name, transpT+".") {
				fail(kq, "it calls the node")
			}
		case "append":
			if st := structOf(elemT(e.Res.typ)); st == nil || !hasItemField(st) {
				return
			}
			n, ok := base(e.Args[0])
			if !ok || p.Vars["app"] != nil || len(e.Args) != 2 {
				fail(kq, "the hint is appended to %s", short(e.Args[0]))
				return
			}
			p.Vars["app"], p.Vars["entry"] = e.Res, e.Args[1]
			if n > 0 {
				p.Set("appdrop")
			}
			en := e.Args[1]
			it := valField(x, en, "item")
			switch {
			case it == nil || it.unbox().key == item.key:
				fail(ke, "it holds %s, not a copy", short(it))
			default:
				if m := sameItem(p, it, item); m != "" {
					fail(ke, "the item it holds differs in its %s", m)
				}
			}
			ex := valField(x, en, "expire")
			if ex == nil || ex.op != "pcall" || ex.name != "time.(Time).Add" || len(ex.args) < 2 || !ex.args[0].isCall("time.Now") || ex.args[1].key != limit(p, "hintTTL").key {
				fail(ke, "it expires at %s", short(ex))
			}
			if s := valField(x, en, "size"); s == nil || p.Vars["size"] == nil || s.key != p.Vars["size"].key {
				fail(ka, "its size is %s", short(s))
			}
			if t := limit(p, "hintMaxTotal"); pos(p, "hintMaxTotal") != no && !p.Has("underTotal") && p.Decide(lt(limit(p, "hintTotal"), t)) != yes {
				fail(ks, "it is queued although the cap on all hints may be reached")
			}
			if pos(p, "hintMaxBytes") != no && !p.Has("underBytes") {
				fail(ks, "it is queued although the cap on their size may be exceeded")
			}
		case "branch":
			v := e.Val
			if !isCmp(v, "<") && !isCmp(v, "<=") {
				return
			}
			// what is counted, with what was already taken off, against a cap
			t0, b0 := p.Vars["t0"], p.Vars["b0"]
			if t0 == nil {
				return
			}
			for i := 0; i < 2; i++ {
				l, o := v.args[i], v.args[1-i]
				switch {
				case l.isLoadOf(dmT+".hintMaxTotal") && linSame(o, t0):
					// i==1: total < max ; i==0: max < total or max <= total
					switch {
					case i == 1 && v.name == "<" && e.Truth, i == 0 && v.name == "<=" && !e.Truth:
						p.Set("underTotal")
					case i == 1 && v.name == "<", i == 0 && v.name == "<=":
						p.Set("overTotal")
					}
				case l.isLoadOf(dmT+".hintMaxBytes") && p.Vars["size"] != nil && linSame(linSub(o, b0), p.Vars["size"]):
					switch {
					case i == 0 && v.name == "<" && !e.Truth, i == 1 && v.name == "<=" && e.Truth:
						p.Set("underBytes")
					case i == 0 && v.name == "<", i == 1 && v.name == "<=":
						p.Set("overBytes")
					}
				}
			}
		case "mapupdate":
			if !isMap(e.Args[0]) {
				return
			}
			if e.Args[1].key != node.key {
				fail(kn, "it writes the queue of %s", short(e.Args[1]))
				return
			}
			p.Vars["now"] = e.Args[2]
		case "delete", "clear":
			if isMap(e.Args[0]) {
				fail(kn, "it drops a queue")
			}
		case "store":
			if e.Addr.op == "field" && e.Addr.name == dmT+".hints" {
				h := x.Load(p, e.Addr, e.Val.typ)
				if e.Val.op != "makemap" || !p.KnownNil(h) {
					fail(kn, "it replaces all queues")
				}
			}
		case "unlock":
			q, now := p.Vars["q"], p.Vars["now"]
			if now == nil {
				now = q
			}
			if now == nil || p.Has("done") {
				if now == nil && !acc.is(p, 0, tInt(0)) {
					fail(ka, "it counts something but queues nothing")
				}
				return
			}
			p.Set("done")
			n, app := 0, int64(0)
			bytes := tInt(0)
			if a := p.Vars["app"]; a != nil && now.key == a.key {
				app, bytes = 1, p.Vars["size"]
				if p.Has("appdrop") {
					n = 1
				}
			} else if d, ok := base(now); ok {
				n = d
			} else {
				fail(kq, "the node's queue becomes %s", short(now))
				return
			}
			if n > 1 || n == 1 && !full() {
				fail(kd, "%d of the queue's hints are dropped although it is not known to be full", n)
			}
			if n == 0 && app == 1 && pos(p, "hintMaxPerNode") != no && p.Decide(lt(lenTerm(q), limit(p, "hintMaxPerNode"))) != yes {
				fail(kd, "a full queue grows")
			}
			if app == 0 && !(p.Has("overTotal") && pos(p, "hintMaxTotal") == yes) && !(p.Has("overBytes") && pos(p, "hintMaxBytes") == yes) {
				fail(kq, "the hint is not queued although no cap on all hints is known to be reached")
			}
			if n == 1 {
				var old *Term
				if sz := p.Vars["d.hintBytes"]; sz != nil {
					sz.any(func(t *Term) bool {
						if w, ok := sizeOf(t); ok {
							if s, ix, ok := elemOf(w); ok && s.key == q.key && isZeroInt(ix) {
								old = t
							}
						}
						return false
					})
				}
				if old == nil {
					fail(ka, "the size of the oldest is not taken off")
					return
				}
				bytes = linSub(bytes, old)
			}
			if !acc.is(p, app-int64(n), bytes) {
				fail(ka, "%d come and %d go, but it counts %s hints and %s bytes", app, n, short(p.Vars["d.hintTotal"]), short(p.Vars["d.hintBytes"]))
			}
		case "return":
			if p.Vars["q"] == nil {
				t := limit(p, "hintTTL")
				if p.Decide(lt(intLike(t, 0), t)) != no {
					fail(kq, "it returns without looking at the queue")
				}
			} else if !p.Has("done") {
				fail(kq, "it returns without having queued or dropped the hint")
			}
		}
	}
	c.Explore(x, nil)
}

// sizeOf: it is the size of the hint w.
func sizeOf(t *Term) (w *Term, ok bool) {
	switch {
	case t.isLoadOf("hintedEntry.size"):
		return mk(&Term{op: "load", args: []*Term{loadBase(t)}}), true
	case t.op == "fld" && strings.HasSuffix(t.name, "hintedEntry.size"):
		return t.args[0], true
	}
	return nil, false
}

func elemT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func hasItemField(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if typeStr(derefT(st.Field(i).Type())) == relCmap+".Item" {
			return true
		}
	}
	return false
}

func (c *Ctx) replayRule() {
	f := c.NeedM(relBackend, dmT, "replayHints")
	if f == nil {
		return
	}
	const (
		kt = "replayHints: every hint of every node has its turn"
		kx = "replayHints: only a hint past its lifetime, or one its node took, is let go"
		ks = "replayHints: each other is sent to its node, as it is, once"
		kk = "replayHints: the others are kept, each once"
		ka = "replayHints: what is counted goes down with what is let go"
		kn = "replayHints: a node's queue becomes what was kept"
	)
	for _, k := range []string{kt, kx, ks, kk, ka, kn} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.MaxSteps = 2000000
	dm := rootParam(f, 0)
	acc := account{dm}
	isMap := func(t *Term) bool { return t.isLoadOf(dmT+".hints") && loadBase(t).key == dm.key }
	// entry: the hint whose turn it is
	entry := func(p *Path, w *Term) bool {
		s, ix, ok := elemOf(w)
		return ok && p.Vars["q"] != nil && s.key == p.Vars["q"].key && isIv(ix) && p.Has("t")
	}
	fieldOfEntry := func(p *Path, t *Term, name string) bool {
		switch {
		case t.isLoadOf("hintedEntry." + name):
			return entry(p, mk(&Term{op: "load", args: []*Term{loadBase(t)}}))
		case t.op == "fld" && strings.HasSuffix(t.name, "hintedEntry."+name):
			return entry(p, t.args[0])
		}
		return false
	}
	// past: c says whether the hint's lifetime is over
	past := func(p *Path, v *Term) (over, ok bool) {
		if v.op != "pcall" && v.op != "call" {
			return false, false
		}
		a := v.args
		if v.op == "call" {
			a = v.callArgs()
		}
		if len(a) != 2 {
			return false, false
		}
		now := func(t *Term) bool { return t.isCall("time.Now") }
		exp := func(t *Term) bool { return fieldOfEntry(p, t, "expire") }
		switch v.name {
		case "time.(Time).After":
			if now(a[0]) && exp(a[1]) {
				return true, true
			}
			if exp(a[0]) && now(a[1]) {
				return false, true
			}
		case "time.(Time).Before":
			if exp(a[0]) && now(a[1]) {
				return true, true
			}
			if now(a[0]) && exp(a[1]) {
				return false, true
			}
		}
		return false, false
	}
	endTurn := func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		gone := p.Has("t/past") || p.Has("t/took")
		if !gone && !p.Has("t/sent") && !p.Has("t/other") {
			fail(ks, "a hint is passed over")
		}
		if p.Has("t/kept") {
			if !acc.is(p, 0, tInt(0)) {
				fail(ka, "a hint is kept but no longer counted")
			}
			if gone {
				fail(kk, "a hint is kept although it is past its lifetime or was taken")
			}
		} else {
			if !gone {
				fail(kx, "a hint is let go although it is neither past its lifetime nor was taken by its node")
			}
			var sz *Term
			if d := p.Vars["d.hintBytes"]; d != nil {
				d.any(func(t *Term) bool {
					if fieldOfEntry(p, t, "size") {
						sz = t
					}
					return false
				})
			}
			if sz == nil || !acc.is(p, -1, linSub(tInt(0), sz)) {
				fail(ka, "a hint is let go, but what is counted changes by %s hints and %s bytes", short(p.Vars["d.hintTotal"]), short(p.Vars["d.hintBytes"]))
			}
			p.Set("less")
		}
		acc.reset(p)
	}
	turns := &counted{tag: "t", over: func(p *Path, n *Term) bool {
		q := p.Vars["q"]
		if q == nil {
			return false
		}
		return linSame(n, lenTerm(q))
	}, end: endTurn}
	// endNode: one node's queue was gone through.
	endNode := func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		if p.Vars["q"] == nil {
			return
		}
		if p.Has("t.all") || p.Has("begun") {
			if !p.Has("t.all") {
				fail(kt, "a node's hints are not gone through to the end")
			}
			if p.Has("less") && !p.Has("put") && !p.Has("dropped") {
				fail(kn, "what was let go stays queued")
			}
		} else {
			fail(kt, "a node's hints are passed over")
		}
		if !acc.is(p, 0, tInt(0)) {
			fail(ka, "what is counted changes by %s hints and %s bytes with no hint coming or going", short(p.Vars["d.hintTotal"]), short(p.Vars["d.hintBytes"]))
		}
		for _, k := range []string{"t", "t.all", "begun", "less", "put", "dropped"} {
			p.Clear(k)
		}
		for _, k := range []string{"q", "k", "out", "sent"} {
			delete(p.Vars, k)
		}
		acc.reset(p)
	}
	none := func(p *Path, t *Term) bool {
		return isEmptyList(p, t) || t.op == "slice" && len(t.args) == 3 && isZeroInt(t.args[2]) ||
			p.Vars["q"] != nil && t.key == p.Vars["q"].key && p.Decide(eq(lenTerm(t), tInt(0))) == yes
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		acc.step(p, e)
		if p.Dead {
			return
		}
		if turns.step(p, e) {
			delete(p.Vars, "sent")
			if e.Truth {
				p.Set("begun")
			}
			return
		}
		switch e.Kind {
		case "next":
			if !isMap(e.Args[0]) {
				return
			}
			endNode(p, e)
			p.Vars["nk"], p.Vars["nv"], p.Vars["nok"] = e.Args[1], e.Args[2], e.Res
		case "branch":
			v := e.Val
			if o := p.Vars["nok"]; o != nil && v.key == o.key {
				if e.Truth {
					p.Vars["k"], p.Vars["q"] = p.Vars["nk"], p.Vars["nv"]
				} else {
					p.Set("all")
				}
				delete(p.Vars, "nk")
				delete(p.Vars, "nv")
				delete(p.Vars, "nok")
				return
			}
			if noTransport(v, e.Truth) {
				if p.Has("t") {
					p.Set("t/other")
				} else if p.Vars["q"] == nil {
					p.Set("notransport")
				}
			}
			if over, ok := past(p, v); ok {
				if over == e.Truth {
					p.Set("t/past")
				} else {
					p.Set("t/live")
				}
			}
			if s := p.Vars["sent"]; s != nil && isCmp(v, "==") && e.Truth {
				for i := 0; i < 2; i++ {
					if v.args[i].key == s.key && v.args[1-i].isNil() {
						p.Set("t/took")
					}
				}
			}
			// a list something was put in is not empty
			if o := p.Vars["out"]; o != nil && e.Truth && isCmp(v, "==") && (v.args[0].key == lenTerm(o).key && isZeroInt(v.args[1]) || v.args[1].key == lenTerm(o).key && isZeroInt(v.args[0])) {
				p.Dead = true
			}
			if o := p.Vars["out"]; o != nil && !e.Truth && isCmp(v, "<") && v.args[1].key == lenTerm(o).key && isZeroInt(v.args[0]) {
				p.Dead = true
			}
		case "precall":
			if e.Name != transpT+".ForwardSet" || len(e.Args) < 5 {
				return
			}
			if !p.Has("t") {
				fail(ks, "it sends something out of a hint's turn")
				return
			}
			if p.Vars["k"] == nil || e.Args[2].key != p.Vars["k"].key {
				fail(ks, "the hint is sent to %s", short(e.Args[2]))
			}
			if it := e.Args[3]; !fieldOfEntry(p, it.unbox(), "item") {
				fail(ks, "%s is sent, not the hint's item", short(it))
			}
			if b, known := boolOf(p, e.Args[4]); !known || b {
				fail(ks, "the receiver is to replicate it")
			}
			if p.Has("t/past") || !p.Has("t/live") {
				fail(ks, "a hint is sent that may be past its lifetime")
			}
			if p.Has("t/sent") {
				fail(ks, "a hint is sent twice")
			}
			p.Set("t/sent")
		case "call":
			if e.Name == transpT+".ForwardSet" && e.Res != nil {
				p.Vars["sent"] = e.Res
			}
		case "append":
			if st := structOf(elemT(e.Res.typ)); st == nil || !hasItemField(st) {
				return
			}
			o := p.Vars["out"]
			if o == nil && !none(p, e.Args[0]) || o != nil && e.Args[0].key != o.key {
				fail(kk, "a hint is appended to %s", short(e.Args[0]))
			}
			if len(e.Args) != 2 || !entryVal(p, e.Args[1], entry) {
				fail(kk, "%s is kept", short(e.Args[len(e.Args)-1]))
			}
			if p.Has("t/kept") {
				fail(kk, "a hint is kept twice")
			}
			p.Set("t/kept")
			p.Vars["out"] = e.Res
		case "mapupdate":
			if !isMap(e.Args[0]) {
				return
			}
			if k := p.Vars["k"]; k == nil || e.Args[1].key != k.key {
				fail(kn, "it writes the queue of %s", short(e.Args[1]))
				return
			}
			if !p.Has("t.all") {
				fail(kt, "a node's queue is replaced before all of it had its turn")
			}
			if o := p.Vars["out"]; o == nil && !none(p, e.Args[2]) || o != nil && e.Args[2].key != o.key {
				fail(kn, "a node's queue becomes %s", short(e.Args[2]))
			}
			p.Set("put")
		case "delete":
			if !isMap(e.Args[0]) {
				return
			}
			if k := p.Vars["k"]; k == nil || e.Args[1].key != k.key {
				fail(kn, "it drops the queue of %s", short(e.Args[1]))
				return
			}
			if !p.Has("t.all") {
				fail(kt, "a node's queue is dropped before all of it had its turn")
			}
			if p.Vars["out"] != nil {
				fail(kn, "a node's queue is dropped with hints that were kept")
			}
			p.Set("dropped")
		case "clear":
			if isMap(e.Args[0]) {
				fail(kn, "it drops all queues")
			}
		case "store":
			if e.Addr.op == "field" && e.Addr.name == dmT+".hints" {
				fail(kn, "it replaces all queues")
			}
		case "return":
			endNode(p, e)
			if !p.Has("all") && !p.Has("notransport") {
				fail(kt, "it returns before every node's hints had their turn")
			}
		}
	}
	c.Explore(x, nil)
}

// entryVal: the hint itself, or one with all the values of its fields.
func entryVal(p *Path, w *Term, entry func(p *Path, w *Term) bool) bool {
	if entry(p, w) {
		return true
	}
	if w.op != "struct" || len(w.args) == 0 {
		return false
	}
	for _, a := range w.args {
		var b *Term
		switch {
		case a.op == "load" && a.args[0].op == "field":
			b = mk(&Term{op: "load", args: []*Term{a.args[0].args[0]}})
		case a.op == "fld":
			b = a.args[0]
		default:
			return false
		}
		if !entry(p, b) {
			return false
		}
	}
	return true
}
