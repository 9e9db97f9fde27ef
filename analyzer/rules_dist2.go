package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tally follows a ghost counter: a number in the program is known as that
// counter plus a small difference for as long as the program keeps it so.
type tally struct {
	tag   string
	cells map[string]*Term
}

func newTally(tag string) *tally { return &tally{tag: tag, cells: map[string]*Term{}} }

// hit: the ghost counter is counted up.
func (l *tally) hit(p *Path) {
	if !p.Has(l.tag + ".some") {
		p.Set(l.tag + ".some")
		p.Set(l.tag + ".one")
	} else {
		p.Clear(l.tag + ".one")
	}
	var add []string
	for k := range p.Flags {
		if !strings.HasPrefix(k, l.tag+"|") {
			continue
		}
		p.Clear(k)
		i := strings.LastIndex(k, "|")
		if d, _ := strconv.Atoi(k[i+1:]); d > -1 {
			add = append(add, fmt.Sprintf("%s|%d", k[:i], d-1))
		}
	}
	for _, k := range add {
		p.Set(k)
	}
}

// reset: the ghost counter starts again.
func (l *tally) reset(p *Path) {
	for k := range p.Flags {
		if strings.HasPrefix(k, l.tag+"|") || strings.HasPrefix(k, l.tag+".") {
			p.Clear(k)
		}
	}
}

func (l *tally) track(p *Path, what string, d int64, ok bool) {
	for k := range p.Flags {
		if strings.HasPrefix(k, l.tag+"|"+what+"|") {
			p.Clear(k)
		}
	}
	if ok && d >= -1 && d <= 2 {
		p.Set(fmt.Sprintf("%s|%s|%d", l.tag, what, d))
	}
}

func (l *tally) tracked(p *Path, what string) (int64, bool) {
	for d := int64(-1); d <= 2; d++ {
		if p.Has(fmt.Sprintf("%s|%s|%d", l.tag, what, d)) {
			return d, true
		}
	}
	return 0, false
}

// diff: v is the ghost counter plus d.
func (l *tally) diff(p *Path, v *Term) (int64, bool) {
	if v == nil {
		return 0, false
	}
	for v.op == "conv" && isIntT(v.args[0].typ) {
		v = v.args[0]
	}
	if n, ok := v.intConst(); ok || isZeroInt(v) {
		switch {
		case !p.Has(l.tag + ".some"):
			return n, true
		case p.Has(l.tag + ".one"):
			return n - 1, true
		}
	}
	if d, ok := l.tracked(p, "iv:"+v.key); ok {
		return d, true
	}
	for k, a := range l.cells {
		if d, ok := l.tracked(p, "cell:"+k); ok && p.x.Load(p, a, derefT(a.typ)).key == v.key {
			return d, true
		}
	}
	if v.op == "bin" && (v.name == "+" || v.name == "-") {
		for i := 0; i < 2; i++ {
			n, ok := v.args[i].intConst()
			if !ok || i == 0 && v.name == "-" {
				continue
			}
			if v.name == "-" {
				n = -n
			}
			if d, ok := l.diff(p, v.args[1-i]); ok {
				return d + n, true
			}
		}
	}
	if w := p.Vars["wide|"+v.key]; w != nil && w.key != v.key {
		if d, ok := l.diff(p, w); ok {
			return d, true
		}
	}
	return 0, false
}

// step follows loop counters and counters in memory.
func (l *tally) step(p *Path, e *Event) {
	switch e.Kind {
	case "advance":
		d, ok := l.diff(p, e.Val)
		l.track(p, "iv:"+e.Addr.key, d, ok)
	case "store":
		if e.Addr.op == "alloc" && isIntT(derefT(e.Addr.typ)) {
			d, ok := l.diff(p, e.Val)
			l.cells[e.Addr.key] = e.Addr
			l.track(p, "cell:"+e.Addr.key, d, ok)
		}
	}
}

// ---- owners ------------------------------------------------------------------

const (
	lookupFn  = "internal/cluster.(*Ring).Lookup"
	transpT   = relBackend + ".DistTransport"
	cmapT     = relCmap + ".(*ConcurrentMap)"
	queueHint = relBackend + ".(*DistMemory).queueHint"
)

// distOpaque: what the rules of the distributed backend take as given.
func distOpaque(more ...string) func(f *ssa.Function) bool {
	names := append([]string{lookupFn, queueHint, relCmap + ".(*Item).Valid", relBackend + ".(*distLatencyCollector).observe", relBackend + ".(*DistMemory).countTombstones", relBackend + ".(*DistMemory).recordOriginalPrimary"}, more...)
	return func(f *ssa.Function) bool {
		n := calleeName(f)
		if strings.HasPrefix(n, cmapT+".") {
			return true
		}
		for _, m := range names {
			if m == n {
				return true
			}
		}
		return false
	}
}

// isLocalID: the id of this node.
func isLocalID(t *Term) bool {
	if t == nil {
		return false
	}
	for t.op == "conv" {
		t = t.args[0]
	}
	return t.isLoadOf("Node.ID") && loadBase(t).isLoadOf(dmT+".localNode")
}

// isTransport: the transport in use, or its slot.
func isTransport(t *Term) bool {
	if t == nil {
		return false
	}
	if t.isLoadOf("distTransportSlot.t") {
		return true
	}
	return t.isCall("sync/atomic.(*Pointer).Load") && len(t.callArgs()) > 0 && t.callArgs()[0].isFieldAddr(dmT+".transport")
}

// noTransport: this branch found that there is none.
func noTransport(v *Term, truth bool) bool {
	return truth && isCmp(v, "==") && (isTransport(v.args[0]) && v.args[1].isNil() || isTransport(v.args[1]) && v.args[0].isNil())
}

// restOf: all owners but the first.
func restOf(s, o *Term) bool {
	return s.op == "slice" && s.args[0].key == o.key && len(s.args) >= 3 && isOneInt(s.args[1]) && s.args[2].op == "none"
}

// ownerElem: which of the owners o t is: "first", "rest" or "full" (the one of
// the current turn, of all but the first or of all).
func ownerElem(p *Path, t, o *Term) string {
	if t == nil || o == nil {
		return ""
	}
	for t.op == "conv" {
		t = t.args[0]
	}
	s, ix, ok := elemOf(t)
	if !ok {
		return ""
	}
	for ix.op == "conv" {
		ix = ix.args[0]
	}
	switch {
	case s.key == o.key:
		if isZeroInt(ix) {
			return "first"
		}
		if isIv(ix) {
			return "full"
		}
		if st := p.Vars["start|"+ix.key]; st != nil && isOneInt(st) {
			return "rest"
		}
		if isPlusOne(ix, isIv) {
			return "rest"
		}
	case restOf(s, o):
		if isIv(ix) {
			return "rest"
		}
	}
	return ""
}

// ownerTurns follows loops over the owners, or over all but the first.
func ownerTurns(tag string, on func(p *Path) *Term, end func(p *Path, e *Event)) *counted {
	return &counted{tag: tag, over: func(p *Path, n *Term) bool {
		o := on(p)
		if o == nil {
			return false
		}
		is := func(s *Term) bool { return s.key == o.key || restOf(s, o) }
		ok := n.op == "bin" && n.name == "-" && n.args[0].op == "len" && is(n.args[0].args[0]) && (isZeroInt(n.args[1]) || isOneInt(n.args[1]))
		if n.op == "len" && is(n.args[0]) {
			ok = true
		}
		return ok
	}, end: end}
}

func lenTerm(s *Term) *Term { return mk(&Term{op: "len", args: []*Term{s}, typ: types.Typ[types.Int]}) }

// itemField: the value of a field of the item it points to, now.
func itemField(p *Path, it *Term, f string) *Term { return p.x.fieldByName(p, it.unbox(), f) }

var itemFields = []string{"Key", "Value", "LastAccess", "LastUpdated", "Size", "Expiration", "AccessCount", "Version", "Origin"}

// sameItem: it has the content src had at the start, but for the listed fields.
func sameItem(p *Path, it, src *Term, but ...string) string {
	if it.unbox().key == src.key {
		return ""
	}
next:
	for _, f := range itemFields {
		for _, b := range but {
			if b == f {
				continue next
			}
		}
		v := itemField(p, it, f)
		if v == nil {
			return f
		}
		if f == "Key" && v.op == "pcall" && v.name == "strings.Clone" {
			v = v.args[0]
		}
		if !v.isLoadOf("Item."+f) || loadBase(v).unbox().key != src.key {
			return f
		}
	}
	return ""
}

// needs: v is the number of acknowledgements the level asks of n owners, on
// what this path knows of the level.
func ackGoal(p *Path, v, level, o *Term) bool {
	n := lenTerm(o)
	is := func(k int64) int { return p.Decide(eq(level, intLike(level, k))) }
	for v.op == "conv" {
		v = v.args[0]
	}
	switch {
	case is(2) == yes:
		return v.key == n.key
	case is(1) == yes:
		return isPlusOne(v, func(t *Term) bool {
			h := t.op == "bin" && t.args[0].key == n.key
			if !h {
				return false
			}
			k, ok := t.args[1].intConst()
			return ok && (t.name == "/" && k == 2 || t.name == ">>" && k == 1)
		})
	case is(0) == yes || is(1) == no && is(2) == no:
		return isOneInt(v)
	}
	return false
}

func intLike(t *Term, n int64) *Term {
	c := tInt(n)
	if t.typ != nil {
		c = mkConst(c.cv, t.typ)
	}
	return c
}

func init() {
	register(&Property{ID: "Q01", Level: "proof", MinObl: 9, Run: runQ01,
		Explain: "All paths of a distributed write, for any list of owners: what happens before validation and the draining test, whom the write is forwarded to and when this node takes over, what is stored and with which version and origin, that every other owner is sent it or hinted, how the acknowledgements counted relate to those that arrived, and when it reports success or a failed quorum."})
}

func runQ01(c *Ctx) {
	f := c.NeedM(relBackend, dmT, "Set")
	if f == nil {
		return
	}
	const (
		kg = "Set: nothing happens before the item is valid and the node not draining"
		kf = "Set: forwarded once, to the first owner, when that is another node"
		kp = "Set: this node stores only as first owner, or as a replica whose first owner failed"
		kv = "Set: stored under its key with a new version and this node as origin"
		kr = "Set: every other owner is sent the stored item, or hinted"
		ka = "Set: acknowledgements counted are those that arrived, and one"
		ks = "Set: success exactly when forwarded or acknowledged enough"
		ke = "Set: each error has its reason"
	)
	for _, k := range []string{kg, kf, kp, kv, kr, ka, ks, ke} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = distOpaque()
	x.KeepWide = true
	dm, item := rootParam(f, 0), rootParam(f, 2)
	on := func(p *Path) *Term { return p.Vars["O"] }
	first := func(p *Path) *Term { // the first owner's id
		o := on(p)
		if o == nil {
			return nil
		}
		return p.Vars["O0"]
	}
	tl := newTally("acks")
	settle := func(p *Path, e *Event) {
		if s := p.Vars["sent"]; s != nil && !p.Has("hinted") {
			if p.Decide(eq(s, tNil)) != yes {
				c.Fail(kr, e.Pos(), p.Trace(), "a replica that could not be reached gets no hint")
			}
		}
		delete(p.Vars, "sent")
		delete(p.Vars, "sentto")
		p.Clear("hinted")
		p.Clear("counted")
	}
	tr := ownerTurns("r", func(p *Path) *Term {
		if !p.Has("stored") {
			return nil
		}
		return on(p)
	}, func(p *Path, e *Event) {
		if !p.Has("r/sent") && !p.Has("r/self") && !p.Has("notransport") {
			c.Fail(kr, e.Pos(), p.Trace(), "an owner other than this node is passed over")
		}
		settle(p, e)
	})
	scan := ownerTurns("scan", func(p *Path) *Term {
		if p.Has("stored") {
			return nil
		}
		return on(p)
	}, nil)
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		turn := tr.step(p, e)
		if turn && e.Truth {
			if n := e.Val; n != nil {
				p.Clear("r.rest")
				if n.any(func(t *Term) bool { return t.op == "slice" }) {
					p.Set("r.rest")
				}
			}
		}
		scan.step(p, e)
		if e.Kind == "advance" || e.Kind == "store" {
			tl.step(p, e)
		}
		effect := func(what string) {
			if !p.Has("valid") {
				fail(kg, "it %s before the item is known to be valid", what)
			}
			if !p.Has("serving") {
				fail(kg, "it %s before the node is known not to be draining", what)
			}
		}
		switch e.Kind {
		case "branch":
			v := e.Val
			if noTransport(v, e.Truth) {
				p.Set("notransport")
			}
			if v.isCall("sync/atomic.(*Bool).Load") && v.callArgs()[0].isFieldAddr(dmT+".draining") {
				if e.Truth {
					p.Set("draining")
				} else {
					p.Set("serving")
				}
			}
			if isCmp(v, "==") {
				for i := 0; i < 2; i++ {
					a, b := v.args[i], v.args[1-i]
					if b.isNil() && a.isCall(relCmap+".(*Item).Valid") {
						if e.Truth {
							p.Set("valid")
						} else {
							p.Set("invalid")
						}
					}
					if s := p.Vars["sent"]; s != nil && b.isNil() && a.key == s.key && e.Truth && !p.Has("counted") {
						p.Set("counted")
						tl.hit(p)
						p.Clear("met")
						p.Clear("short")
					}
					if w := ownerElem(p, a, on(p)); w != "" && isLocalID(b) {
						if w == "first" {
							p.Vars["O0"] = a
						}
						if p.Has("stored") && p.Has("r") && e.Truth {
							p.Set("r/self")
						}
						if !p.Has("stored") && w != "first" && e.Truth {
							p.Set("replica")
						}
					}
					if o := on(p); o != nil && isLenOf(a, o) && isZeroInt(b) && e.Truth {
						p.Set("noowners")
					}
				}
			}
			if isCmp(v, "<") && !turn {
				for i := 0; i < 2; i++ {
					if d, ok := tl.diff(p, v.args[i]); ok && p.Has("stored") && ackGoal(p, v.args[1-i], p.Vars["level"], on(p)) {
						switch {
						case i == 0 && d == 1 && e.Truth, i == 1 && d == 0 && !e.Truth:
							p.Set("short")
						case i == 0 && d == 1, i == 1 && d == 0:
							p.Set("met")
						default:
							fail(ka, "it compares the level's number with the acknowledgements and %d", d)
						}
						break
					}
				}
			}
			if v.isCall("slices.Contains") || v.op == "pcall" && v.name == "slices.Contains" {
				a := v.args
				if o := on(p); o != nil && len(a) == 2 && restOf(a[0], o) && isLocalID(a[1]) {
					if e.Truth {
						p.Set("replica")
					} else {
						p.Set("scan.all")
					}
				}
			}
		case "precall":
			switch e.Name {
			case transpT + ".ForwardSet":
				if len(e.Args) < 5 {
					return
				}
				rep, _ := boolOf(p, e.Args[4])
				if rep {
					if m := sameItem(p, e.Args[3], item); m != "" {
						fail(kf, "the item forwarded differs in its %s", m)
					}
					return
				}
				if m := sameItem(p, e.Args[3], item, "Version", "Origin", "LastUpdated"); m != "" {
					fail(kr, "the copy sent differs in its %s", m)
				} else if v := itemField(p, e.Args[3], "Version"); v == nil || p.Vars["version"] == nil || v.key != p.Vars["version"].key {
					fail(kr, "the copy sent has version %s, not the one stored", short(v))
				} else if o := itemField(p, e.Args[3], "Origin"); !isLocalID(o) {
					fail(kr, "the copy sent has origin %s", short(o))
				}
			case queueHint:
				effect("queues a hint")
				s := p.Vars["sent"]
				if s == nil || p.Decide(eq(s, tNil)) != no || p.Has("hinted") {
					fail(kr, "a hint is queued for no failed send")
					return
				}
				if stripConv(e.Args[1]).key != stripConv(p.Vars["sentto"]).key {
					fail(kr, "the hint is for %s, not for the owner that failed", short(e.Args[1]))
				}
				if m := sameItem(p, e.Args[2], item, "Version", "Origin", "LastUpdated"); m != "" {
					fail(kr, "the hint's item differs in its %s", m)
				}
				p.Set("hinted")
			case cmapT + ".Set":
				effect("stores the item")
				if p.Has("stored") {
					fail(kp, "it is stored twice")
				}
				o0 := first(p)
				if o0 == nil {
					fail(kp, "it is stored with no owners known")
				} else if p.Decide(eq(o0, p.Vars["self"])) != yes {
					if fw := p.Vars["fwd"]; fw == nil || p.Decide(eq(fw, tNil)) != no || !p.Has("replica") {
						fail(kp, "it is stored although this node is neither the first owner nor a replica whose first owner failed")
					}
				}
				p.Set("stored")
				tl.reset(p)
				if len(e.Args) < 3 {
					return
				}
				if k := e.Args[1].unbox(); !isItemKey(k, item) {
					fail(kv, "it is stored under %s", short(k))
				}
				it := e.Args[2]
				if m := sameItem(p, it, item, "Version", "Origin", "LastUpdated"); m != "" {
					fail(kv, "what is stored differs in its %s %s", m, short(itemField(p, it, m)))
				}
				if it.unbox().key == item.key {
					fail(kv, "the caller's own item is stored, not a copy")
				}
				v := itemField(p, it, "Version")
				if v == nil || !v.isCall("sync/atomic.(*Uint64).Add") || !v.callArgs()[0].isFieldAddr(dmT+".versionCounter") || !isOneInt(v.callArgs()[1]) {
					fail(kv, "the version stored is %s", short(v))
				} else {
					p.Vars["version"] = v
				}
				if o := itemField(p, it, "Origin"); o == nil || !isLocalID(o) {
					fail(kv, "the origin stored is %s", short(o))
				}
				if u := itemField(p, it, "LastUpdated"); u == nil || !u.isCall("time.Now") && !(u.op == "pcall" && strings.HasPrefix(u.name, "time.")) {
					fail(kv, "the time of update stored is %s", short(u))
				}
				if !keyedShard(e.Args[0], item) {
					fail(kv, "it is stored in the shard %s", short(e.Args[0]))
				}
			}
		case "call":
			switch e.Name {
			case lookupFn:
				if e.Res == nil || len(e.Args) < 2 {
					return
				}
				if k := e.Args[1]; !k.isLoadOf("Item.Key") || loadBase(k).key != item.key {
					return
				}
				if on(p) != nil {
					p.Set("relookup")
					return
				}
				p.Vars["O"] = e.Res
			case transpT + ".ForwardSet":
				effect("sends the item")
				if len(e.Args) < 5 || on(p) == nil || e.Res == nil {
					fail(kf, "it sends the item with no owners known")
					return
				}
				w := ownerElem(p, e.Args[2], on(p))
				rep, known := boolOf(p, e.Args[4])
				if !known {
					fail(kf, "whether the receiver replicates it is not fixed")
					return
				}
				if rep {
					o0 := first(p)
					if w != "first" || o0 == nil || !differs(p, o0) {
						fail(kf, "it is forwarded to %s, which is not known to be the first owner and another node", short(e.Args[2]))
					}
					if p.Has("stored") || p.Vars["fwd"] != nil {
						fail(kf, "it is forwarded after it was stored or forwarded")
					}
					p.Vars["fwd"] = e.Res
					return
				}
				if !p.Has("stored") || !p.Has("r") || w != "rest" && w != "full" {
					fail(kr, "a replica's copy is sent to %s before the item is stored, or to no owner of this turn", short(e.Args[2]))
					return
				}
				if p.Decide(eqSame(e.Args[2], p.Vars["self"])) == yes || p.Has("r/self") {
					fail(kr, "it is sent to this node itself")
				}
				if p.Has("r/sent") {
					fail(kr, "an owner is sent it twice")
				}
				p.Set("r/sent")
				p.Vars["sent"] = e.Res
				p.Vars["sentto"] = e.Args[2]
			case cmapT + ".Remove", transpT + ".ForwardRemove":
				fail(kp, "a write removes something")
			}
		case "store":
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Item.") && e.Addr.args[0].key == item.key {
				effect("changes the item")
			}
		case "return":
			settleAtEnd := func() {
				if p.Has("stored") && !p.Has("notransport") {
					o := on(p)
					if !p.Has("r.all") && p.Decide(lt(tInt(1), lenTerm(o))) != no {
						fail(kr, "it returns before every owner had its turn")
					}
					if p.Has("r.rest") && p.Decide(eq(first(p), p.Vars["self"])) != yes {
						fail(kr, "the first owner, which failed, is left out of the copies")
					}
				}
				settle(p, e)
			}
			r := e.Args[len(e.Args)-1]
			fw := p.Vars["fwd"]
			switch {
			case p.KnownNil(r) || r.isNil():
				settleAtEnd()
				if p.Has("stored") {
					if !p.Has("met") && !ackGoal(p, tInt(1), p.Vars["level"], on(p)) {
						fail(ks, "it reports success without the acknowledgements being enough for the level")
					}
				} else if fw == nil || p.Decide(eq(fw, tNil)) != yes {
					fail(ks, "it reports success although the item was neither stored nor forwarded")
				}
			case wrapsSentinel(r, "internal/sentinel.ErrQuorumFailed"):
				settleAtEnd()
				if !p.Has("stored") || !p.Has("short") {
					fail(ke, "a failed quorum is reported without the acknowledgements being too few for the level")
				}
			case wrapsSentinel(r, "internal/sentinel.ErrDraining"):
				if !p.Has("draining") {
					fail(ke, "it reports draining on a node that is not")
				}
			case wrapsSentinel(r, "internal/sentinel.ErrNotOwner"):
				if p.Has("stored") || fw != nil {
					fail(ke, "it reports no owner after it stored or forwarded the item")
				}
				if o := on(p); o != nil && p.Decide(eq(lenTerm(o), tInt(0))) != yes && !p.Has("notransport") {
					fail(ke, "it reports no owner although there are owners and a transport")
				}
			case wrapsPred(r, func(t *Term) bool { return t.unbox().isCall(relCmap + ".(*Item).Valid") }):
				if !p.Has("invalid") {
					fail(ke, "it reports an item as invalid that is valid")
				}
			case fw != nil && wrapsPred(r, func(t *Term) bool { return t.unbox().key == fw.key }):
				if p.Decide(eq(fw, tNil)) != no || p.Has("stored") {
					fail(ke, "the forward's outcome is reported as an error although it worked or the item was stored")
				}
				if p.Has("replica") && !p.Has("relookup") {
					fail(ke, "a replica gives up although it could take over")
				}
				if o := on(p); !p.Has("replica") && !p.Has("scan.all") && p.Decide(lt(tInt(1), lenTerm(o))) != no {
					fail(ke, "it gives up without having looked whether it is a replica")
				}
			default:
				fail(ke, "it returns %s", short(r))
			}
		}
	}
	c.Explore(x, func(p *Path, ps []*Term) {
		p.Vars["level"] = x.fieldByName(p, dm, "writeConsistency")
		p.Vars["self"] = x.fieldByName(p, x.fieldByName(p, dm, "localNode"), "ID")
	})
}

// boolOf: the truth of t, when this path knows it.
func boolOf(p *Path, t *Term) (bool, bool) {
	switch {
	case t.key == tTrue.key:
		return true, true
	case t.key == tFalse.key:
		return false, true
	}
	d := p.Decide(t)
	return d == yes, d != unknown
}

func stripConv(t *Term) *Term {
	for t != nil && t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// differs: the id is known not to be this node's.
func differs(p *Path, id *Term) bool {
	return p.Vars["self"] != nil && p.Decide(eq(id, p.Vars["self"])) == no
}

func eqSame(a, b *Term) *Term { return eq(stripConv(a), b) }

// isItemKey: the item's key, or a copy of that string.
func isItemKey(k, item *Term) bool {
	if k.op == "pcall" && k.name == "strings.Clone" {
		k = k.args[0]
	}
	return k.isLoadOf("Item.Key") && loadBase(k).unbox().key == item.key
}

// keyedShard: the items of the shard the item's key belongs to (which shard
// that is, is the same function of the key everywhere: see Q08).
func keyedShard(a, item *Term) bool {
	return a.any(func(t *Term) bool { return t.op == "idx" && t.args[0].isLoadOf(dmT+".shards") })
}

var _ *ssa.Function
