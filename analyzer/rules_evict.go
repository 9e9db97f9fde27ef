package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relEvict = "pkg/eviction"

// tracker describes how an eviction algorithm keeps what it tracks.
type tracker struct {
	typ        string // the algorithm
	items      string // its index: key -> node, or key -> slot
	capacity   string
	length     string // a counter kept in step with the index, if any
	key, val   string // fields of a node
	slots      string // the slots the index points into, if any
	head, tail string // of its list, if any
	prev, next string
	tailNode   bool
	heap       bool
	pos        string // heap position
	lock       string
}

var trackers = []tracker{
	{typ: "LRU", items: "items", capacity: "capacity", key: "lruCacheItem.Key", val: "lruCacheItem.Value",
		head: "LRU.head", tail: "LRU.tail", prev: "lruCacheItem.prev", next: "lruCacheItem.next", lock: "LRU.RWMutex"},
	{typ: "LFUAlgorithm", items: "items", capacity: "cap", length: "length", key: "Node.key", val: "Node.value", heap: true, pos: "Node.index", lock: "LFUAlgorithm.mutex"},
	{typ: "CAWOLFU", items: "items", capacity: "cap", length: "length", key: "CAWOLFUNode.key", val: "CAWOLFUNode.value",
		head: "CAWOLFULinkedList.head", tail: "CAWOLFULinkedList.tail", prev: "CAWOLFUNode.prev", next: "CAWOLFUNode.next", lock: "CAWOLFU.mutex"},
	{typ: "ClockAlgorithm", items: "keys", capacity: "capacity", key: "Item.Key", val: "Item.Value", slots: "items", lock: "ClockAlgorithm.mutex"},
}

func init() {
	register(&Property{ID: "V01", Level: "proof", Run: runV01, MinObl: 12,
		Explain: "Every access to the state of an eviction algorithm, on all paths from its methods."})
	register(&Property{ID: "V02", Level: "proof", Run: runV02, MinObl: 30,
		Explain: "All paths of Set, Get, Delete and Evict of the LRU, LFU, CAWOLFU and Clock algorithms, and of their constructors.",
		Assume:  []string{"container/heap keeps the nodes it is given", "no two nodes of a list are the same object unless a test says so"}})
	register(&Property{ID: "V03", Level: "proof", Run: runV03, MinObl: 16,
		Explain: "All paths of the methods of LRU and CAWOLFU against the shape of their list, of LFU against the order of its heap, and of Clock against the movement of its hand.",
		Assume:  []string{"container/heap keeps the order Less defines when it is told of every change", "no two nodes of a list are the same object unless a test says so"}})
}

func runV01(c *Ctx) {
	for _, t := range trackers {
		c.NeedM(relEvict, t.typ, "Set")
		var g []guard
		fields := []string{t.items, t.length, t.slots}
		switch t.typ {
		case "LFUAlgorithm":
			fields = append(fields, "seq")
		case "ClockAlgorithm":
			fields = append(fields, "hand")
		case "LRU":
			fields = append(fields, "head", "tail")
		}
		for _, f := range fields {
			if f != "" {
				g = append(g, guard{Field: t.typ + "." + f, Lock: t.lock, Map: f == t.items || f == t.slots})
			}
		}
		c.runLocks(relEvict, c.typeMethods(relEvict, t.typ, true), lockRules{Guards: g, NoBlock: true, Config: func(x *Engine) {
			x.NoInline = t.opaque
		}, Extra: t.stray})
	}
	// the ARC is an algorithm of its own: only its lock is checked
	var g []guard
	for _, f := range []string{"p", "t1Idx", "t2Idx", "b1Idx", "b2Idx", "length"} {
		if structOfNamed(c, relEvict, "ARC", f) {
			g = append(g, guard{Field: "ARC." + f, Lock: "ARC.mutex"})
		}
	}
	if len(g) > 0 {
		c.runLocks(relEvict, c.typeMethods(relEvict, "ARC", true), lockRules{Guards: g, NoBlock: true, Modular: true})
	}
}

func structOfNamed(c *Ctx, rel, typ, field string) bool {
	p := c.P.pkg(rel)
	if p == nil || p.Type(typ) == nil {
		return false
	}
	st, ok := p.Type(typ).Type().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return true
		}
	}
	return false
}

// calm forgets where exactly the hand of the clock stands each time it moves.
func (t tracker) calm(x *Engine) {
	if t.slots == "" {
		return
	}
	prev := x.OnEvent
	x.OnEvent = func(p *Path, e *Event) {
		if prev != nil {
			prev(p, e)
		}
		t.stray(p, e)
	}
}

func (t tracker) stray(p *Path, e *Event) {
	if e.Kind == "store" && e.Addr.isFieldAddr("ClockAlgorithm.hand") {
		e.Val = p.x.freshK(p, "out", "hand", instrKey(e.Instr)+"/hand", types.Typ[types.Int], e.Addr)
	}
}

func (t tracker) opaque(f *ssa.Function) bool {
	return strings.Contains(calleeName(f), "ItemPoolManager")
}

func (t tracker) isIndex(m *Term) bool { return m.isLoadOf(t.typ + "." + t.items) }

func (t tracker) isCount(v *Term) bool {
	if v.op == "len" && t.isIndex(v.args[0]) {
		return true
	}
	return t.length != "" && v.isLoadOf(t.typ+"."+t.length)
}

func (t tracker) isCap(v *Term) bool { return v.isLoadOf(t.typ + "." + t.capacity) }

// watch keeps, as flags, what a path knows: has/hasnot (the key looked up is
// tracked), full/room, empty, cap0/cap+; and drops paths no state leads to.
func (t tracker) watch(p *Path, e *Event, key *Term) {
	switch e.Kind {
	case "lookup":
		if t.isIndex(e.Args[0]) && key != nil && e.Args[1].key == key.key {
			p.Vars["E"] = e.Res
		}
	case "branch":
		v, truth := e.Val, e.Truth
		for v.op == "not" {
			v, truth = v.args[0], !truth
		}
		if v.op == "has" && t.isIndex(v.args[0]) && key != nil && v.args[1].key == key.key {
			t.note(p, "has", "hasnot", truth)
		}
		if v.op == "is" && v.args[0].isCall("container/heap.Pop") && !truth {
			p.Dead = true // a heap holds nodes only
		}
		if !isCmp(v, "==") && !isCmp(v, "<") && !isCmp(v, "<=") {
			return
		}
		a, b := v.args[0], v.args[1]
		op := v.name
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			switch {
			case op == "==" && y.isNil() && t.slots == "" && p.Vars["E"] != nil && x.key == p.Vars["E"].key:
				t.note(p, "hasnot", "has", truth) // entries are never nil
			case op == "==" && t.isCap(x) && isZeroInt(y):
				t.note(p, "cap0", "cap+", truth)
			case op == "==" && t.isCount(x) && t.isCap(y):
				t.note(p, "full", "room", truth)
			case op == "==" && t.isCount(x) && isZeroInt(y):
				t.note(p, "empty", "some", truth)
			}
		}
		switch {
		case op == "<" && isZeroInt(a) && t.isCap(b):
			t.note(p, "cap+", "cap0", truth)
		case op == "<=" && isZeroInt(b) && t.isCap(a), op == "<" && isOneInt(b) && t.isCap(a):
			t.note(p, "cap0", "cap+", truth)
		case op == "<" && t.isCount(a) && t.isCap(b):
			t.note(p, "room", "full", truth)
		case op == "<=" && t.isCap(a) && t.isCount(b):
			t.note(p, "full", "room", truth)
		case op == "<" && isZeroInt(a) && t.isCount(b):
			t.note(p, "some", "empty", truth)
		case op == "<=" && isZeroInt(b) && t.isCount(a), op == "<" && isOneInt(b) && t.isCount(a):
			t.note(p, "empty", "some", truth)
		}
	}
	if p.Has("changed") {
		return
	}
	// what the state of the algorithm rules out
	if p.Has("empty") && (p.Has("has") || p.Has("full") && p.Has("cap+") || p.Has("H+") || p.Has("taken") || p.Has("lap")) {
		p.Dead = true
	}
	if p.Has("H0") && (p.Has("has") || p.Has("some") || p.Has("full") && p.Has("cap+")) {
		p.Dead = true
	}
	if p.Has("cap0") && (p.Has("has") || p.Has("some") || p.Has("H+")) {
		p.Dead = true
	}
}

func (t tracker) note(p *Path, on, off string, truth bool) {
	if !truth {
		on, off = off, on
	}
	if p.Has(off) && !p.Has("changed") {
		p.Dead = true
	}
	p.Set(on)
}

// nodeOf: the node the index leads to for the key that was looked up.
func (t tracker) isEntry(p *Path, n *Term) bool {
	e := p.Vars["E"]
	if e == nil || n == nil {
		return false
	}
	if t.slots == "" {
		return n.key == e.key
	}
	s, ix, ok := elemOf(n)
	return ok && s.isLoadOf(t.typ+"."+t.slots) && ix.key == e.key
}

// members follows what happens to the index.
func (t tracker) members(c *Ctx, p *Path, e *Event, k string) {
	fail := func(m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
	switch e.Kind {
	case "mapupdate":
		if !t.isIndex(e.Args[0]) {
			return
		}
		if p.Has("ins") {
			fail("it tracks two keys")
		}
		p.Set("ins")
		p.Set("changed")
		p.Vars["ik"], p.Vars["iv"] = e.Args[1], e.Args[2]
	case "delete", "clear":
		if !t.isIndex(e.Args[0]) {
			return
		}
		if e.Kind == "clear" || p.Has("del") {
			fail("more than one key is dropped")
			return
		}
		if p.Has("ins") {
			fail("a key is dropped after the new one came in")
		}
		p.Set("del")
		p.Set("changed")
		p.Vars["dk"] = e.Args[1]
		if p.Has("full") {
			p.Set("del/full")
		}
		if p.Has("lap") {
			p.Set("del/lap")
		}
	case "store":
		a := e.Addr
		switch {
		case a.isFieldAddr(t.key):
			p.Vars["k|"+a.args[0].key] = e.Val
		case a.isFieldAddr(t.val):
			p.Vars["v|"+a.args[0].key] = e.Val
			if t.isEntry(p, a.args[0]) {
				p.Vars["ev"] = e.Val
			}
		case a.isFieldAddr(t.typ + "." + t.items):
			fail("the index is replaced")
		case t.length != "" && a.isFieldAddr(t.typ+"."+t.length):
			old := p.Vars["len"]
			p.Vars["len"] = e.Val
			m, n := linear(e.Val)
			if old != nil {
				mo, no := linear(old)
				if len(m) == 1 && len(mo) == 1 && sortedKeys(m)[0] == sortedKeys(mo)[0] {
					n -= no
					m = map[string]int64{}
				}
			} else if len(m) == 1 && countsLength(e.Val, t.typ+"."+t.length) {
				m = map[string]int64{}
			}
			switch {
			case len(m) == 0 && n == 1:
				p.Set("len+")
			case len(m) == 0 && n == -1:
				p.Set("len-")
			case len(m) == 0 && n == 0:
			default:
				fail("the length is set to something else than one more or less")
			}
		case t.slots != "" && a.op == "idx" && a.args[0].isLoadOf(t.typ+"."+t.slots):
			if e.Val.isNil() {
				p.Vars["slot0"] = a.args[1]
			} else {
				p.Vars["slot"], p.Vars["slotv"] = a.args[1], e.Val
			}
		}
	}
}

// settled: length and slots are in step with the index.
func (t tracker) settled(p *Path) string {
	if t.length != "" {
		d := 0
		if p.Has("ins") {
			d++
		}
		if p.Has("del") {
			d--
		}
		l := 0
		if p.Has("len+") {
			l++
		}
		if p.Has("len-") {
			l--
		}
		if d != l {
			return "the length is not in step with the index"
		}
	}
	if t.slots != "" {
		if p.Has("del") {
			if p.Vars["slot0"] == nil && !p.Has("ins") || p.Vars["dslot"] != nil && p.Vars["slot0"] != nil && p.Vars["slot0"].key != p.Vars["dslot"].key {
				return "the slot of the key that was dropped is not emptied"
			}
		} else if p.Vars["slot0"] != nil {
			return "a slot is emptied though its key is kept"
		}
	}
	return ""
}

// newNode: the node a new key leads to.
func (t tracker) newNode(p *Path) *Term {
	n := p.Vars["iv"]
	if t.slots == "" || n == nil {
		return n
	}
	if p.Vars["slot"] == nil || p.Vars["slot"].key != n.key {
		return nil
	}
	return p.Vars["slotv"]
}

// isVictimKey: the key of a node the algorithm holds.
func (t tracker) isVictimKey(k *Term) bool {
	k = k.unbox()
	return k.isLoadOf(t.key)
}

func runV02(c *Ctx) {
	for _, t := range trackers {
		t := t
		set, get, del, ev := c.NeedM(relEvict, t.typ, "Set"), c.NeedM(relEvict, t.typ, "Get"), c.NeedM(relEvict, t.typ, "Delete"), c.NeedM(relEvict, t.typ, "Evict")
		if set == nil || get == nil || del == nil || ev == nil {
			continue
		}
		run := func(f *ssa.Function, key *Term, k string, done func(p *Path, e *Event, fail func(m string, a ...any))) {
			c.Oblige(k)
			x := newEngine(c.P, f)
			x.NoInline = t.opaque
			x.OnEvent = func(p *Path, e *Event) {
				t.watch(p, e, key)
				t.shape(p, e, key)
				if p.Dead {
					return
				}
				t.members(c, p, e, k)
				t.hand(p, e)
				if e.Kind == "return" {
					fail := func(m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
					if m := t.settled(p); m != "" {
						fail("%s", m)
					}
					done(p, e, fail)
				}
			}
			t.calm(x)
			c.Explore(x, nil)
		}
		kk := rootParam(set, 1)
		vv := rootParam(set, 2)
		run(set, kk, t.typ+".Set: the key is tracked with its value, in place of one other key only when it is full", func(p *Path, e *Event, fail func(m string, a ...any)) {
			switch {
			case p.Has("cap0") && !p.Has("has"):
				if p.Has("ins") || p.Has("del") {
					fail("an algorithm of no capacity tracks a key")
				}
			case p.Has("has"):
				if p.Has("ins") || p.Has("del") {
					fail("setting a key that is tracked changes what is tracked")
				}
				if v := p.Vars["ev"]; v == nil || v.key != vv.key {
					fail("the value of the key is not replaced")
				}
			case p.Has("hasnot"):
				if !p.Has("ins") {
					fail("the key is not tracked")
					return
				}
				n := t.newNode(p)
				if p.Vars["ik"].key != kk.key || n == nil {
					fail("another key is tracked, or it leads nowhere")
					return
				}
				if k := p.Vars["k|"+n.key]; k == nil || k.key != kk.key {
					fail("the new node is not given the key")
				}
				if v := p.Vars["v|"+n.key]; v == nil || v.key != vv.key {
					fail("the new node is not given the value")
				}
				if p.Has("slot/taken") {
					fail("a slot still taken is overwritten")
				}
				if p.Has("del") {
					if !p.Has("del/full") && !p.Has("del/lap") {
						fail("a key is dropped though it is not known to be full")
					}
					if !t.isVictimKey(p.Vars["dk"]) {
						fail("the key that is dropped is not that of a node")
					}
				} else if !p.Has("room") && !p.Has("slot/free") {
					fail("a key is added though there may be no room")
				}
				if !p.Has("cap+") && !p.Has("room") {
					fail("a key is added though the capacity may be zero")
				}
			default:
				fail("it does not look whether the key is tracked")
			}
		})
		gk := rootParam(get, 1)
		run(get, gk, t.typ+".Get: the value that was set, for exactly the keys tracked", func(p *Path, e *Event, fail func(m string, a ...any)) {
			if p.Has("ins") || p.Has("del") {
				fail("a read changes what is tracked")
			}
			v, ok := e.Args[0], e.Args[1]
			splitBool(Outcome{Path: p}, ok, func(q *Path, found bool) {
				if found {
					if !q.Has("has") {
						fail("a key that is not tracked is found")
					} else if v = v.unbox(); !v.isLoadOf(t.val) || !t.isEntry(q, baseOf(v)) {
						fail("the value is not the one of the key")
					}
				} else {
					if q.Has("has") && !q.Has("hasnot") {
						fail("a key that is tracked is not found")
					}
					if !q.KnownNil(v) {
						fail("a value is given for a key that is not tracked")
					}
				}
			})
		})
		dk := rootParam(del, 1)
		run(del, dk, t.typ+".Delete: exactly the key given is no longer tracked", func(p *Path, e *Event, fail func(m string, a ...any)) {
			if p.Has("ins") {
				fail("a removal tracks a key")
			}
			switch {
			case p.Has("hasnot"):
				if p.Has("del") && p.Vars["dk"].key != dk.key || p.Has("len-") {
					fail("removing an unknown key drops another")
				}
			case p.Has("has"):
				if !p.Has("del") {
					fail("the key is still tracked")
				} else if p.Vars["dk"].key != dk.key {
					fail("another key is dropped")
				}
				if p.Has("slot/taken") {
					fail("a slot is overwritten")
				}
				if t.slots != "" && (p.Vars["slot0"] == nil || p.Vars["E"] == nil || p.Vars["slot0"].key != p.Vars["E"].key) {
					fail("the slot of the key is not emptied")
				}
			default:
				fail("it does not look whether the key is tracked")
			}
		})
		run(ev, nil, t.typ+".Evict: one tracked key is dropped and named, none only when there is none", func(p *Path, e *Event, fail func(m string, a ...any)) {
			if p.Has("ins") {
				fail("an eviction tracks a key")
			}
			k, ok := e.Args[0], e.Args[1]
			splitBool(Outcome{Path: p}, ok, func(q *Path, found bool) {
				if found {
					if !q.Has("del") {
						fail("a key is named but still tracked")
					} else if q.Vars["dk"].key != k.key {
						fail("the key named is not the one dropped")
					} else if !t.isVictimKey(k) {
						fail("the key is not that of a node")
					}
				} else {
					if q.Has("del") {
						fail("a key is dropped but not named")
					}
					if !q.Has("cap0") && !q.Has("empty") && !q.Has("H0") {
						fail("nothing is evicted though keys may be tracked")
					}
				}
			})
		})
		t.ctorRule(c)
	}
}

// ctorRule: a negative capacity is refused, and any other is used as given,
// over an empty index.
func (t tracker) ctorRule(c *Ctx) {
	name := "New" + t.typ
	if t.typ == "LRU" {
		name = "NewLRUAlgorithm"
	}
	f := c.NeedF(relEvict, name)
	if f == nil {
		return
	}
	k := name + ": the capacity given, an empty index; a negative one is refused"
	c.Oblige(k)
	n := rootParam(f, 0)
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind != "return" {
			return
		}
		fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
		r, er := e.Args[0], e.Args[1]
		neg := p.Decide(lt(n, tInt(0)))
		if !p.KnownNil(er) {
			if neg != yes {
				fail("a capacity that is not negative is refused")
			}
			if !wrapsSentinel(er, "internal/sentinel.ErrInvalidCapacity") {
				fail("the error does not say that the capacity is invalid")
			}
			return
		}
		if neg != no {
			fail("a negative capacity is accepted")
		}
		if v := p.x.fieldByName(p, r, t.capacity); v == nil || v.key != n.key {
			fail("the capacity is not the one given")
		}
		if v := p.x.fieldByName(p, r, t.items); v == nil || v.op != "makemap" {
			fail("there is no index")
		}
		if t.slots != "" {
			if v := p.x.fieldByName(p, r, t.slots); v == nil || v.op != "makeslice" || v.attr[0].key != n.key {
				fail("there are not as many slots as the capacity")
			}
		}
		if t.length != "" {
			if v := p.x.fieldByName(p, r, t.length); v == nil || !isZeroVal(v) {
				fail("the length is not zero")
			}
		}
	}
	c.Explore(x, nil)
}

// countsLength: v is the given counter plus or minus a constant.
func countsLength(v *Term, field string) bool {
	for v.op == "bin" && (v.name == "+" || v.name == "-") {
		if _, ok := v.args[0].intConst(); ok {
			v = v.args[1]
		} else {
			v = v.args[0]
		}
	}
	return v.isLoadOf(field)
}

// baseOf: the object a value was loaded from; nil if it was not.
func baseOf(t *Term) *Term {
	if t = t.unbox(); t == nil || t.op != "load" && t.op != "fld" || t.op == "load" && len(t.args[0].args) == 0 {
		return tNil
	}
	return loadBase(t)
}
