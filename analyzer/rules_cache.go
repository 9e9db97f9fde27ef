package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hcType = "HyperCache"

func init() {
	register(&Property{ID: "X01", Level: "proof", MinObl: 12, Run: runX01,
		Explain: "All paths of the cache's read operations: which key is looked up in the backend, and for each of absent, expired and live what is answered, that a live item is touched once in item and backend, and that an expired one triggers the expiration and is never handed out; of several keys, each lands in exactly one of hits and failures."})
	register(&Property{ID: "X02", Level: "proof", MinObl: 16, Run: runX02,
		Explain: "All paths of the cache's write operations: what the stored item carries, the charge and refund of its size against the limit, the order backend before eviction tracking, the answer for each outcome, and when an eviction follows."})
	register(&Property{ID: "X03", Level: "proof", MinObl: 8, Run: runX03,
		Explain: "All paths of Remove and Clear: every key is looked up, removed from backend and eviction tracking, its size given back once and only once the backend has removed it."})
}

const mAlloc = hcType + ".memoryAllocation"

// cacheOp names what a call does for the cache: "b." backend, "e." eviction
// algorithm, "i." item, "m." allocation counter, "p." item pool.
func cacheOp(e *Event) string {
	n := e.Name
	last := n[strings.LastIndexByte(n, '.')+1:]
	switch {
	case strings.HasPrefix(n, "pkg/backend.IBackend["):
		return "b." + last
	case strings.HasPrefix(n, "pkg/eviction.IAlgorithm."):
		return "e." + last
	case n == "touchBackend.Touch":
		return "b.Touch"
	case strings.HasPrefix(n, "pkg/cache/v2.(*Item)."):
		return "i." + last
	case strings.HasPrefix(n, "pkg/cache/v2.(*ItemPoolManager)."):
		return "p." + last
	case strings.HasPrefix(n, "sync/atomic.(*Int64).") && len(e.Args) > 0 && e.Args[0].isFieldAddr(mAlloc):
		return "m." + last
	}
	return ""
}

func opaqueItem(g *ssa.Function) bool {
	switch calleeName(g) {
	case "pkg/cache/v2.(*Item).Expired", "pkg/cache/v2.(*Item).Touch":
		return true
	}
	return false
}

func resAt(r *Term, i int) *Term {
	if r != nil && r.op == "tuple" && i < len(r.args) {
		return r.args[i]
	}
	if i == 0 {
		return r
	}
	return nil
}

// readWatch follows one lookup; all it remembers is tagged "t/", which the
// loop over keys drops at each turn.
func readWatch(p *Path, e *Event, self, key *Term, isKey func(t *Term) bool, fail func(what, f string, a ...any)) {
	hit := func() bool {
		return p.Vars["t/ok"] != nil && p.Decide(p.Vars["t/ok"]) == yes && p.Vars["t/exp"] != nil && p.Decide(p.Vars["t/exp"]) == no
	}
	ofBackend := func(t *Term) bool { return t.unbox().isLoadOf(hcType + ".backend") }
	switch e.Kind {
	case "go":
		fail("touch", "it starts a goroutine")
	case "precall":
		switch op := cacheOp(e); op {
		case "b.Get":
			if !isKey(e.Args[2]) || !ofBackend(e.Args[0]) {
				fail("lookup", "the backend is asked for %s", short(e.Args[2]))
			}
			if p.Has("t/asked") {
				fail("lookup", "the backend is asked twice")
			}
			p.Set("t/asked")
		case "b.Touch":
			if !hit() || p.Has("t/btouch") || !isKey(e.Args[2]) || !ofBackend(e.Args[0]) {
				fail("touch", "the backend's item is touched twice or without being live")
			}
			p.Set("t/btouch")
		case "i.Touch":
			if it := p.Vars["t/item"]; !hit() || p.Has("t/itouch") || it == nil || e.Args[0].key != it.key {
				fail("touch", "the item is touched twice or without being live")
			}
			p.Set("t/itouch")
		}
		if n := e.Name; strings.HasPrefix(n, "sync/atomic.(*") && len(e.Args) > 0 && (e.Args[0].isFieldAddr(hcType+".expirationSignalPending") || e.Args[0].isFieldAddr(hcType+".lastExpirationTrigger")) {
			if x := p.Vars["t/exp"]; x == nil || p.Decide(x) != yes {
				fail("expired", "an expiration is triggered without an expired item")
			}
			p.Set("t/trig")
		}
	case "call":
		switch cacheOp(e) {
		case "b.Get":
			p.Vars["t/item"], p.Vars["t/ok"] = resAt(e.Res, 0), resAt(e.Res, 1)
		case "i.Expired":
			if it := p.Vars["t/item"]; it != nil && e.Args[0].key == it.key {
				p.Vars["t/exp"] = e.Res
			}
		}
	case "branch":
		if e.Val.op == "is" && ofBackend(e.Val.args[0]) && !e.Truth {
			if n, ok := e.Val.typ2().(*types.Named); ok && n.Obj().Name() == "touchBackend" {
				p.Set("notouch")
			}
		}
	}
}

// lookupState: what the path knows about the key looked up.
func lookupState(p *Path) string {
	ok, exp := p.Vars["t/ok"], p.Vars["t/exp"]
	if ok == nil {
		return ""
	}
	switch p.Decide(ok) {
	case no:
		return "absent"
	case yes:
		if exp != nil {
			switch p.Decide(exp) {
			case yes:
				return "expired"
			case no:
				return "live"
			}
		}
	}
	return "unknown"
}

// settled: the side effects the state asks for have happened.
func lookupSettled(p *Path, st string, fail func(what, f string, a ...any)) {
	switch st {
	case "live":
		nilItem := p.KnownNil(p.Vars["t/item"])
		if !p.Has("t/itouch") && !nilItem {
			fail("touch", "a live item is answered without being touched")
		}
		if !p.Has("t/btouch") && !p.Has("notouch") && !nilItem {
			fail("touch", "a live item is answered without the backend being told of the access")
		}
	case "expired":
		if !p.Has("t/trig") {
			fail("expired", "an expired item is met without the expiration being triggered")
		}
	case "unknown":
		fail("lookup", "it answers without knowing whether the item is there and live")
	}
}

// isValOf: t is the value of item it.
func isValOf(t, it *Term) bool {
	t = t.unbox()
	return it != nil && t.isLoadOf("Item.Value") && loadBase(t).key == it.key
}

func runX01(c *Ctx) {
	kinds := map[string]string{
		"lookup": "the key asked for is looked up once", "touch": "a live item is touched once, nothing else is",
		"expired": "an expired item triggers the expiration", "answer": "its answer",
		"pure": "changes nothing else",
	}
	one := func(m string, ans func(p *Path, st string, it *Term, r []*Term) string) {
		f := c.NeedM("", hcType, m)
		if f == nil {
			return
		}
		for _, k := range kinds {
			c.Oblige(m + ": " + k)
		}
		x := newEngine(c.P, f)
		x.NoInline = opaqueItem
		key := rootParam(f, 2)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(w, f2 string, a ...any) { c.Fail(m+": "+kinds[w], e.Pos(), p.Trace(), f2, a...) }
			st := lookupState(p)
			if m == "GetOrSet" && st == "absent" {
				return // the write half is X02's
			}
			readWatch(p, e, rootParam(f, 0), key, func(t *Term) bool { return t.key == key.key }, fail)
			readPure(p, e, fail)
			if e.Kind == "return" {
				if st == "" {
					fail("lookup", "it answers without asking the backend")
					return
				}
				lookupSettled(p, st, fail)
				if s := ans(p, st, p.Vars["t/item"], e.Args); s != "" {
					fail("answer", "%s", s)
				}
			}
		}
		c.Explore(x, nil)
	}
	pair := func(r []*Term) string { return "(" + short(r[0]) + ", " + short(r[1]) + ")" }
	one("Get", func(p *Path, st string, it *Term, r []*Term) string {
		if st == "live" {
			if !isValOf(r[0], it) || !p.IsTrue(r[1]) {
				return "a live item is answered with " + pair(r)
			}
		} else if !r[0].isNil() || !p.IsFalse(r[1]) {
			return "an " + st + " item is answered with " + pair(r)
		}
		return ""
	})
	one("GetWithInfo", func(p *Path, st string, it *Term, r []*Term) string {
		if st == "live" {
			if r[0].key != it.key || !p.IsTrue(r[1]) {
				return "a live item is answered with " + pair(r)
			}
		} else if !r[0].isNil() && !(st == "absent" && p.KnownNil(r[0])) || !p.IsFalse(r[1]) {
			return "an " + st + " item is answered with " + pair(r)
		}
		return ""
	})
	one("GetOrSet", func(p *Path, st string, it *Term, r []*Term) string {
		switch st {
		case "live":
			if !isValOf(r[0], it) || !r[1].isNil() {
				return "a live item is answered with " + pair(r)
			}
		case "expired":
			if !r[0].isNil() || !wrapsSentinel(r[1], "internal/sentinel.ErrKeyExpired") {
				return "an expired item is answered with " + pair(r)
			}
		}
		return ""
	})
	c.readMultiple(kinds)
	c.forwards("List", "b.List", true)
}

// readPure: a read writes nothing.
func readPure(p *Path, e *Event, fail func(w, f string, a ...any)) {
	switch e.Kind {
	case "precall":
		switch op := cacheOp(e); op {
		case "b.Get", "b.Touch", "i.Touch", "i.Expired", "":
		default:
			fail("pure", "a read calls %s", e.Name)
		}
	case "store":
		if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, hcType+".") {
			fail("pure", "a read changes %s", e.Addr.name)
		}
		if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Item.") {
			fail("pure", "a read changes %s", e.Addr.name)
		}
	case "panic":
		fail("answer", "it panics")
	}
}

func (c *Ctx) readMultiple(kinds map[string]string) {
	const m = "GetMultiple"
	f := c.NeedM("", hcType, m)
	if f == nil {
		return
	}
	for _, k := range kinds {
		c.Oblige(m + ": " + k)
	}
	kt := m + ": every key lands in exactly one map"
	c.Oblige(kt)
	x := newEngine(c.P, f)
	x.NoInline = opaqueItem
	keys := rootParam(f, 2)
	tr := &turns{tag: "t", over: func(p *Path, s *Term) bool { return s.key == keys.key }, end: func(p *Path, e *Event) {
		if !p.Has("t/done") {
			c.Fail(kt, e.Pos(), p.Trace(), "a key is in neither map")
		}
		lookupSettled(p, lookupState(p), func(w, f2 string, a ...any) { c.Fail(m+": "+kinds[w], e.Pos(), p.Trace(), f2, a...) })
	}}
	x.OnEvent = func(p *Path, e *Event) {
		tr.step(p, e)
		fail := func(w, f2 string, a ...any) { c.Fail(m+": "+kinds[w], e.Pos(), p.Trace(), f2, a...) }
		isKey := func(t *Term) bool {
			s, ix, ok := elemOf(t)
			return ok && s.key == keys.key && p.Vars["t"] != nil && ix.key == p.Vars["t"].key
		}
		readWatch(p, e, nil, nil, isKey, fail)
		readPure(p, e, fail)
		switch e.Kind {
		case "mapupdate":
			mp, k, v := e.Args[0], e.Args[1], e.Args[2]
			if !isKey(k) || p.Has("t/done") || mp.op != "makemap" {
				c.Fail(kt, e.Pos(), p.Trace(), "the entry %s is written", short(k))
				return
			}
			p.Set("t/done")
			st := lookupState(p)
			which, other := "hits", "fails"
			if st != "live" {
				which, other = other, which
			}
			if o := p.Vars[other]; o != nil && o.key == mp.key || p.Vars[which] != nil && p.Vars[which].key != mp.key {
				c.Fail(kt, e.Pos(), p.Trace(), "an %s item is put in the other map", st)
			}
			p.Vars[which] = mp
			if st == "live" && !isValOf(v, p.Vars["t/item"]) || st != "live" && !wrapsSentinel(v, "internal/sentinel.ErrKeyNotFound") {
				fail("answer", "an %s item is answered with %s", st, short(v))
			}
		case "delete", "clear":
			c.Fail(kt, e.Pos(), p.Trace(), "entries are removed")
		case "return":
			if !p.Has("t.all") {
				c.Fail(kt, e.Pos(), p.Trace(), "it returns before all keys are looked up")
			}
			h, g := e.Args[0], e.Args[1]
			if h.op != "makemap" || g.op != "makemap" || h.key == g.key || p.Vars["hits"] != nil && p.Vars["hits"].key != h.key || p.Vars["fails"] != nil && p.Vars["fails"].key != g.key {
				fail("answer", "it answers (%s, %s)", short(h), short(g))
			}
		}
	}
	c.Explore(x, nil)
}

// forwards: the operation is the backend's of that name, with the caller's
// arguments and its answer.
func (c *Ctx) forwards(m, op string, ctx bool) {
	f := c.NeedM("", hcType, m)
	if f == nil {
		return
	}
	k := m + ": is the backend's"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "precall":
			o := cacheOp(e)
			if o == "" {
				return
			}
			ok := o == op && !p.Has("called") && e.Args[0].unbox().isLoadOf(hcType+".backend") && len(e.Args) == len(f.Params)
			for i := 1; ok && i < len(e.Args); i++ {
				ok = e.Args[i].key == rootParam(f, i).key
			}
			if !ok {
				c.Fail(k, e.Pos(), p.Trace(), "it calls %s", e.Name)
			}
			p.Set("called")
		case "call":
			if cacheOp(e) == op {
				p.Vars["res"] = e.Res
			}
		case "store", "go", "send", "panic":
			if e.Kind != "store" || e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, hcType+".") {
				c.Fail(k, e.Pos(), p.Trace(), "it does a %s", e.Kind)
			}
		case "return":
			for i, r := range e.Args {
				if w := resAt(p.Vars["res"], i); w == nil || !p.sameVal(r, w) {
					c.Fail(k, e.Pos(), p.Trace(), "it answers %s", short(r))
				}
			}
		}
	}
	c.Explore(x, nil)
}

func runX02(c *Ctx) {
	kn := map[string]string{
		"item": "the stored item carries what was given", "size": "the item's size is measured before it is charged",
		"charge": "its size is charged once and refunded exactly when it is not stored", "limit": "an item over the size limit never reaches the backend",
		"store": "stored once, then tracked for eviction", "answer": "its answer", "evict": "evicts exactly when over capacity and asked to", "own": "a stored item is not given back to the pool",
		"replace": "the size of the item it replaces is given back",
	}
	for _, m := range []string{"Set", "GetOrSet"} {
		f := c.NeedM("", hcType, m)
		if f == nil {
			continue
		}
		for w, k := range kn {
			if w != "replace" || m == "Set" {
				c.Oblige(m + ": " + k)
			}
		}
		c.cacheWrite(m, f, kn)
	}
}

func (c *Ctx) cacheWrite(m string, f *ssa.Function, kn map[string]string) {
	x := newEngine(c.P, f)
	x.NoInline = opaqueItem
	self, key, val, exp := rootParam(f, 0), rootParam(f, 2), rootParam(f, 3), rootParam(f, 4)
	isItemField := func(p *Path, a *Term, n string) bool {
		it := p.Vars["item"]
		return it != nil && a.isFieldAddr("Item."+n) && a.args[0].key == it.key
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(w, f2 string, a ...any) { c.Fail(m+": "+kn[w], e.Pos(), p.Trace(), f2, a...) }
		if m == "GetOrSet" {
			if !p.Has("w") {
				switch {
				case e.Kind == "call" && cacheOp(e) == "b.Get":
					p.Vars["t/item"], p.Vars["t/ok"] = resAt(e.Res, 0), resAt(e.Res, 1)
				case p.Vars["t/ok"] != nil && p.Decide(p.Vars["t/ok"]) == no:
					p.Set("w")
				}
			}
			if !p.Has("w") {
				return
			}
		}
		it := p.Vars["item"]
		max := x.fieldByName(p, self, "maxCacheSize")
		over := func() int { // the charged total is over the limit
			if p.Decide(lt(tInt(0), max)) == no {
				return no
			}
			t := p.Vars["total"]
			if t == nil {
				return unknown
			}
			if d := p.Decide(lt(max, t)); d != yes {
				return d
			}
			if p.Decide(lt(tInt(0), max)) == yes {
				return yes
			}
			return unknown
		}
		switch e.Kind {
		case "go":
			fail("store", "it starts a goroutine")
		case "panic":
			fail("answer", "it panics")
		case "store":
			a := e.Addr
			if a.isFieldAddr("Item.Key") && it == nil && e.Val.key == key.key {
				b := a.args[0]
				if b.op != "alloc" && b.unbox().op != "as" && !strings.Contains(b.key, "ItemPoolManager") {
					fail("item", "%s is reused", short(b))
				}
				p.Vars["item"] = b
				it = b
			}
			if isItemField(p, a, "Size") && !p.Has("b.Set") {
				v := e.Val
				for v.op == "conv" {
					v = v.args[0]
				}
				ok := strings.HasPrefix(calleeName(e.In), "pkg/cache/v2.")
				if v.op == "len" {
					if d := v.args[0]; d.op == "ext" && d.idx == 0 && strings.HasSuffix(d.args[0].name, "ISerializer.Marshal") && p.Has("marshal "+d.args[0].key) {
						ok = p.Vars["merr"] != nil && p.Decide(mkEq(p.Vars["merr"], tNil)) == yes
					}
				}
				if !ok {
					fail("size", "the size is %s", short(e.Val))
				}
				p.Set("sized")
			}
			if a.op == "field" && strings.HasPrefix(a.name, hcType+".") {
				fail("store", "it changes %s", a.name)
			}
			if p.Has("b.Set") && it != nil && a.op == "field" && a.args[0].key == it.key && p.Decide(mkEq(p.Vars["serr"], tNil)) == yes {
				fail("own", "it changes %s of the stored item", a.name)
			}
		case "precall":
			op := cacheOp(e)
			switch op {
			case "m.Add":
				n := e.Args[1]
				if old := p.Vars["old"]; old != nil && m == "Set" {
					// giving back the size of the item replaced
					v := n
					if v.op == "neg" {
						v = v.args[0]
					}
					if v.isLoadOf("Item.Size") && n.op == "neg" && loadBase(v).key == old.key {
						p.Set("replaced")
						return
					}
				}
				if p.Has("tracked") {
					return // eviction: X03
				}
				if !p.Has("charged") {
					if n.op == "neg" {
						fail("charge", "%s is taken off the allocation", short(n))
						return
					}
					if !p.Has("sized") || it == nil {
						fail("size", "the size is charged before it is measured")
						return
					}
					if s := x.fieldByName(p, it, "Size"); s == nil || !linSame(s, n) {
						fail("charge", "%s is charged, not the item's size", short(n))
					}
					if p.Has("charged once") {
						fail("charge", "it is charged twice")
					}
					p.Set("charged")
					p.Set("charged once")
					p.Vars["n"] = n
					return
				}
				if !linSame(n, mk(&Term{op: "neg", args: []*Term{p.Vars["n"]}, typ: n.typ})) {
					fail("charge", "%s is refunded, not what was charged", short(n))
				}
				p.Clear("charged")
			case "m.Load", "":
			case "m.Store", "m.Swap", "m.CompareAndSwap":
				fail("charge", "it overwrites the allocation")
			case "b.Set":
				if p.Has("b.Set") {
					fail("store", "the backend is given the item twice")
				}
				p.Set("b.Set")
				if it == nil || e.Args[2].key != it.key {
					fail("item", "the backend is given %s", short(e.Args[2]))
					return
				}
				if !p.Has("charged") {
					fail("charge", "the item is stored without its size being charged")
				}
				if over() != no {
					fail("limit", "the backend is given an item that may be over the limit")
				}
				for n, w := range map[string]*Term{"Key": key, "Value": val, "Expiration": exp} {
					if v := x.fieldByName(p, it, n); v == nil || v.unbox().key != w.unbox().key {
						fail("item", "its %s is %s", n, short(v))
					}
				}
				if v := x.fieldByName(p, it, "LastAccess"); v == nil || !v.isCall("time.Now") {
					fail("item", "its last access is %s", short(v))
				}
			case "e.Set":
				if !p.Has("b.Set") || p.Vars["serr"] == nil || p.Decide(mkEq(p.Vars["serr"], tNil)) != yes {
					fail("store", "a key is tracked without being known to be stored")
				}
				if v := e.Args[2].unbox(); p.Has("tracked") || e.Args[1].key != key.key && !e.Args[1].fieldOf("Item.Key", it) || v.key != val.unbox().key && !isValOf(v, it) {
					fail("store", "(%s, %s) is tracked", short(e.Args[1]), short(e.Args[2]))
				}
				p.Set("tracked")
			case "e.Evict":
				if !p.Has("tracked") {
					fail("evict", "it evicts before the item is tracked")
				}
				if p.Has("evicted") {
					fail("evict", "it evicts more than once")
				}
				sh, n, cp := p.Vars["should"], p.Vars["count"], p.Vars["cap"]
				if sh == nil || n == nil || cp == nil || p.Decide(sh) != yes || p.Decide(lt(cp, n)) != yes {
					fail("evict", "it evicts without being asked to or without being over capacity")
				}
				p.Set("evicted")
			case "b.Remove", "b.Clear", "b.SetCapacity", "e.Delete":
				if !p.Has("evicted") {
					fail("store", "it calls %s", e.Name)
				}
				if op == "b.Remove" {
					if k := p.Vars["victim"]; k == nil || !oneKey(e.Args[2], k) || p.Decide(p.Vars["got"]) != yes {
						fail("evict", "it removes %s", short(e.Args[2]))
					}
					p.Set("removed")
				}
			}
			if strings.HasSuffix(e.Name, "ISerializer.Marshal") {
				// size by the backend's own serializer
				if p.Decide(mkEq(e.Args[0], tNil)) != no {
					fail("size", "a serializer that may be missing is asked")
				}
				if a := e.Args[len(e.Args)-1]; a.unbox().key != val.unbox().key {
					fail("size", "the size of %s is measured", short(a))
				}
			}
		case "enter":
			if strings.HasSuffix(e.Name, "(*ItemPoolManager).Put") && it != nil && len(e.Args) > 1 && e.Args[1].key == it.key {
				if p.Has("b.Set") && p.Decide(mkEq(p.Vars["serr"], tNil)) != no {
					fail("own", "the stored item is given back to the pool")
				}
				if p.Has("pooled") {
					fail("own", "the item is given back twice")
				}
				p.Set("pooled")
			}
		case "call":
			if strings.HasSuffix(e.Name, "ISerializer.Marshal") && e.Res != nil && !p.Has("b.Set") {
				d := resAt(e.Res, 0)
				if d.op == "ext" {
					p.Set("marshal " + d.args[0].key)
					p.Vars["merr"] = resAt(e.Res, 1)
				}
			}
			switch cacheOp(e) {
			case "b.Get":
				if m == "Set" && e.Args[2].key == key.key && !p.Has("b.Set") {
					p.Vars["old"], p.Vars["had"] = resAt(e.Res, 0), resAt(e.Res, 1)
				}
			case "m.Add", "m.Load":
				if p.Has("charged") && !p.Has("b.Set") {
					p.Vars["total"] = e.Res
				}
			case "b.Set":
				p.Vars["serr"] = e.Res
			case "b.Count":
				p.Vars["count"] = e.Res
			case "b.Capacity":
				p.Vars["cap"] = e.Res
			case "e.Evict":
				p.Vars["victim"], p.Vars["got"] = resAt(e.Res, 0), resAt(e.Res, 1)
			}
			if e.Name == "sync/atomic.(*Bool).Load" && e.Args[0].isFieldAddr(hcType+".shouldEvict") {
				p.Vars["should"] = e.Res
			}
		case "return":
			er := e.Args[len(e.Args)-1]
			serr := p.Vars["serr"]
			stored := p.Has("b.Set") && serr != nil && p.Decide(mkEq(serr, tNil)) == yes
			if er.isNil() || p.KnownNil(er) {
				if !stored {
					fail("answer", "it reports success although the item is not known to be stored")
					return
				}
				if !p.Has("charged") {
					fail("charge", "a stored item is not charged")
				}
				if !p.Has("tracked") {
					fail("store", "a stored item is not tracked for eviction")
				}
				if m == "GetOrSet" && e.Args[0].unbox().key != val.unbox().key && !isValOf(e.Args[0], it) {
					fail("answer", "it answers %s, not the value stored", short(e.Args[0]))
				}
				if !p.Has("evicted") {
					sh, n, cp := p.Vars["should"], p.Vars["count"], p.Vars["cap"]
					if !(sh != nil && p.Decide(sh) == no) && !(n != nil && cp != nil && p.Decide(lt(cp, n)) == no) {
						fail("evict", "it returns without having looked whether it is over capacity")
					}
				} else if g := p.Vars["got"]; g != nil && p.Decide(g) != no && !p.Has("removed") {
					fail("evict", "the evicted key is not removed")
				}
				if m == "Set" && !p.Has("replaced") && (p.Vars["had"] == nil || p.Decide(p.Vars["had"]) != no) {
					fail("replace", "an item under the same key stays charged when it is overwritten")
				}
				return
			}
			if p.Decide(mkEq(er, tNil)) == unknown && !nonNilTerm(er.unbox()) && er.op != "load" {
				fail("answer", "it answers %s", short(er))
			}
			if stored {
				fail("answer", "it reports an error although the item is stored")
			}
			if p.Has("charged") {
				fail("charge", "an item that is not stored stays charged")
			}
			if m == "GetOrSet" && !e.Args[0].isNil() {
				fail("answer", "it answers a value with an error")
			}
			switch {
			case p.Has("b.Set"):
				if !carries(er, serr) {
					fail("answer", "the backend's refusal is answered with %s", short(er))
				}
			case p.Has("charged once"):
				if over() != yes {
					fail("limit", "an item is refused although it may be within the limit")
				}
				if !wrapsSentinel(er, "internal/sentinel.ErrCacheFull") {
					fail("answer", "an item over the limit is answered with %s", short(er))
				}
			case p.Has("sized"):
				fail("answer", "it answers %s before the item is offered to the backend", short(er))
			}
		}
	}
	c.Explore(x, nil)
}

// oneKey: l is the list of just that key.
func oneKey(l, k *Term) bool { return l.op == "list" && len(l.args) == 1 && l.args[0].key == k.key }

func runX03(c *Ctx) {
	if f := c.NeedM("", hcType, "Remove"); f != nil {
		kl, kr, ka, ke := "Remove: every key is looked up and untracked when it is there", "Remove: the backend removes exactly the keys given, once", "Remove: each removed item's size is given back once, after the backend has removed it", "Remove: its answer"
		for _, k := range []string{kl, kr, ka, ke} {
			c.Oblige(k)
		}
		x := newEngine(c.P, f)
		keys := rootParam(f, 2)
		tr := &turns{tag: "t", over: func(p *Path, s *Term) bool { return s.key == keys.key }, end: func(p *Path, e *Event) {
			ok := p.Vars["t/ok"]
			if ok == nil || p.Decide(ok) == unknown {
				c.Fail(kl, e.Pos(), p.Trace(), "a key is not looked up")
				return
			}
			if p.Decide(ok) == yes {
				if !p.Has("t/untracked") {
					c.Fail(kl, e.Pos(), p.Trace(), "an item stays tracked for eviction")
				}
				if !p.Has("t/noted") {
					c.Fail(ka, e.Pos(), p.Trace(), "the size of an item is not given back")
				}
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, f2 string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), f2, a...) }
			tr.step(p, e)
			isKey := func(t *Term) bool {
				s, ix, ok := elemOf(t)
				return ok && s.key == keys.key && p.Vars["t"] != nil && ix.key == p.Vars["t"].key
			}
			hit := func() bool { return p.Vars["t/ok"] != nil && p.Decide(p.Vars["t/ok"]) == yes }
			gone := func() bool { return p.Vars["err"] != nil && p.Decide(mkEq(p.Vars["err"], tNil)) == yes }
			switch e.Kind {
			case "go", "panic":
				fail(ke, "it does a %s", e.Kind)
			case "precall":
				switch op := cacheOp(e); op {
				case "b.Get":
					if !isKey(e.Args[2]) || p.Has("removed") {
						fail(kl, "the backend is asked for %s", short(e.Args[2]))
					}
				case "e.Delete":
					if !isKey(e.Args[1]) {
						fail(kl, "%s is untracked", short(e.Args[1]))
					}
					p.Set("t/untracked")
				case "b.Remove":
					if p.Has("removed") || e.Args[2].key != keys.key || !e.Args[0].unbox().isLoadOf(hcType+".backend") {
						fail(kr, "the backend removes %s", short(e.Args[2]))
					}
					if !p.Has("t.all") {
						fail(kl, "the backend removes the keys before all are looked up")
					}
					p.Set("removed")
				case "m.Add":
					n, cur := e.Args[1], p.Vars["size"]
					if !gone() {
						fail(ka, "%s is added to the allocation before the backend has removed the items", short(n))
					}
					if cur == nil || !p.Has("turn") || p.Has("given") || !linSame(n, mk(&Term{op: "neg", args: []*Term{cur}, typ: n.typ})) {
						fail(ka, "%s is added to the allocation", short(n))
					}
					p.Set("given")
				case "m.Load", "i.Expired", "":
				default:
					fail(kr, "it calls %s", e.Name)
				}
			case "call":
				switch cacheOp(e) {
				case "b.Get":
					p.Vars["t/item"], p.Vars["t/ok"] = resAt(e.Res, 0), resAt(e.Res, 1)
				case "b.Remove":
					p.Vars["err"] = e.Res
				}
			case "mapupdate":
				v := e.Args[2]
				if !isKey(e.Args[1]) || !hit() || e.Args[0].op != "makemap" || !v.isLoadOf("Item.Size") || loadBase(v).key != p.Vars["t/item"].key || p.Vars["sizes"] != nil && p.Vars["sizes"].key != e.Args[0].key {
					fail(ka, "%s is noted for %s", short(v), short(e.Args[1]))
				}
				p.Vars["sizes"] = e.Args[0]
				p.Set("t/noted")
			case "delete", "clear":
				fail(ka, "a noted size is dropped")
			case "next":
				if e.Args[0].op == "makemap" {
					p.Vars["size"] = e.Args[2]
				}
			case "branch":
				if e.Val.op != "nextok" || len(e.Val.attr) == 0 || e.Val.attr[0].op != "makemap" {
					return
				}
				if p.Vars["sizes"] != nil && p.Vars["sizes"].key != e.Val.attr[0].key {
					return
				}
				if p.Has("turn") && !p.Has("given") {
					fail(ka, "the size of an item is not given back")
				}
				p.Clear("turn")
				p.Clear("given")
				if e.Truth {
					p.Set("turn")
				} else if p.Has("removed") {
					p.Set("given all")
				}
			case "return":
				er, err := e.Args[0], p.Vars["err"]
				if err == nil {
					fail(kr, "it returns without removing anything")
					return
				}
				if !gone() {
					if !carries(er, err) {
						fail(ke, "the backend's refusal is answered with %s", short(er))
					}
					if p.Decide(mkEq(err, tNil)) == unknown {
						fail(ka, "it returns without knowing whether the items are gone")
					}
					return
				}
				if !er.isNil() && !p.KnownNil(er) {
					fail(ke, "a removal is answered with %s", short(er))
				}
				if !p.Has("given all") {
					fail(ka, "it returns before all sizes are given back")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM("", hcType, "Clear"); f != nil {
		kl, kr, ka, ke := "Clear: every item listed before is untracked", "Clear: the backend is cleared once", "Clear: the allocation is reset once the backend is cleared", "Clear: its answer"
		for _, k := range []string{kl, kr, ka, ke} {
			c.Oblige(k)
		}
		x := newEngine(c.P, f)
		tr := &turns{tag: "t", over: func(p *Path, s *Term) bool { return p.Vars["list"] != nil && s.key == p.Vars["list"].key }, end: func(p *Path, e *Event) {
			if !p.Has("t/untracked") {
				c.Fail(kl, e.Pos(), p.Trace(), "an item stays tracked for eviction")
			}
		}}
		isNil := func(p *Path, v string) bool { return p.Vars[v] != nil && p.Decide(mkEq(p.Vars[v], tNil)) == yes }
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, f2 string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), f2, a...) }
			tr.step(p, e)
			switch e.Kind {
			case "go", "panic":
				fail(ke, "it does a %s", e.Kind)
			case "precall":
				switch op := cacheOp(e); op {
				case "b.List":
					if !isEmptyList(p, e.Args[2]) || p.Has("cleared") {
						fail(kl, "it lists only some items, or lists them after they are gone")
					}
				case "b.Clear":
					if p.Has("cleared") {
						fail(kr, "the backend is cleared twice")
					}
					if !isNil(p, "lerr") {
						fail(kl, "the backend is cleared without its items being known")
					}
					p.Set("cleared")
				case "e.Delete":
					k := e.Args[1].unbox()
					b := loadBase(k)
					ok := k.isLoadOf("Item.Key") && b != nil
					if ok {
						s, ix, is := elemOf(b)
						ok = is && p.Vars["list"] != nil && s.key == p.Vars["list"].key && p.Vars["t"] != nil && ix.key == p.Vars["t"].key
					}
					if !ok || !isNil(p, "cerr") {
						fail(kl, "%s is untracked", short(k))
					}
					p.Set("t/untracked")
				case "m.Store":
					if !isZeroInt(e.Args[1]) || !isNil(p, "cerr") {
						fail(ka, "the allocation is set to %s, or before the backend is cleared", short(e.Args[1]))
					}
					p.Set("reset")
				case "m.Load", "":
				default:
					fail(kr, "it calls %s", e.Name)
				}
			case "call":
				switch cacheOp(e) {
				case "b.List":
					p.Vars["list"], p.Vars["lerr"] = resAt(e.Res, 0), resAt(e.Res, 1)
				case "b.Clear":
					p.Vars["cerr"] = e.Res
				}
			case "return":
				er := e.Args[0]
				for _, v := range []string{"lerr", "cerr"} {
					t := p.Vars[v]
					if t != nil && !isNil(p, v) {
						if !carries(er, t) || p.Decide(mkEq(t, tNil)) == unknown {
							fail(ke, "the backend's refusal is answered with %s", short(er))
						}
						return
					}
				}
				if p.Vars["cerr"] == nil {
					fail(kr, "it returns without clearing the backend")
					return
				}
				if !er.isNil() && !p.KnownNil(er) {
					fail(ke, "a cleared cache is answered with %s", short(er))
				}
				if !p.Has("reset") {
					fail(ka, "the allocation is not reset")
				}
				if !p.Has("t.all") {
					fail(kl, "it returns before all items are untracked")
				}
			}
		}
		c.Explore(x, nil)
	}
	c.forwards("Count", "b.Count", true)
	c.forwards("Capacity", "b.Capacity", false)
	if f := c.NeedM("", hcType, "Allocation"); f != nil {
		k := "Allocation: the allocation counter"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "call" && cacheOp(e) == "m.Load" {
				p.Vars["n"] = e.Res
			}
			if e.Kind == "return" && (p.Vars["n"] == nil || e.Args[0].key != p.Vars["n"].key) {
				c.Fail(k, e.Pos(), p.Trace(), "it answers %s", short(e.Args[0]))
			}
		}
		c.Explore(x, nil)
	}
	// nobody else touches the counter
	k := "the allocation counter: only written by writes, removals and clears"
	c.Oblige(k)
	ok := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		o := f
		if o.Origin() != nil {
			o = o.Origin()
		}
		switch strings.TrimPrefix(calleeName(o), ".(*"+hcType+").") {
		case "Set", "GetOrSet", "Remove", "Clear", "Allocation":
			ok[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		eachFieldAddr(f, mAlloc, func(fa *ssa.FieldAddr) {
			if !ok[f] && !c.calledOnlyFrom(f, ok) {
				c.Fail(k, fa.Pos(), "", "%s uses it", f.Name())
			}
		})
	}
}
