package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relBus = "internal/eventbus"

func init() {
	register(&Property{ID: "E01", Level: "proof", MinObl: 12, Run: runE01,
		Explain: "Every path of a publication is followed (all orders of full/non-full subscribers, per loop iteration): each subscriber found in the table is offered the event exactly once without waiting, a refused offer raises the loss counter by exactly one, nothing else touches that counter, and no entry point of the bus waits on anything while it holds the lock publications need."})
	register(&Property{ID: "E02", Level: "proof", MinObl: 8, Run: runE02,
		Explain: "On every path of a publication the version is the result of one atomic increment, is the version carried by the event and the value returned, and number assignment and delivery to all subscribers happen in one exclusive critical section, so no later version can be enqueued first; content fields are the publisher's."})
	register(&Property{ID: "E03", Level: "proof", MinObl: 10, Run: runE03,
		Explain: "Subscribe, its returned cancel function and the context watcher are followed on every path: registration under a fresh id in the exclusive section, removal and close exactly once (once-guarded), close only after removal, sends only to registered channels under the lock, so no send on a closed channel and no double close."})
}

// fromTable: the channel belongs to an entry of the bus's subscriber table.
func fromTable(t *Term, field string) bool {
	b := t.unbox()
	if b.op == "load" && b.args[0].op == "field" && b.typ != nil {
		if _, ok := b.typ.Underlying().(*types.Chan); ok {
			b = b.args[0].args[0].unbox()
		}
	}
	switch b.op {
	case "mapval", "mapkey":
		return len(b.attr) > 0 && b.attr[0].isLoadOf(field)
	case "lookup":
		return b.args[0].isLoadOf(field)
	}
	return false
}

func isMuOf(field string) func(*Term) bool {
	return func(t *Term) bool { return t.isFieldAddr(field) }
}

func runE01(c *Ctx) {
	pub := c.NeedM(relBus, "Bus", "Publish")
	if pub == nil {
		return
	}
	for _, k := range []string{"offer is non-blocking", "every subscriber offered once", "loss counted once", "all subscribers visited", "no waiting", "offered event is the published one"} {
		c.Oblige("publish: " + k)
	}
	x := newEngine(c.P, pub)
	sends := 0
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("publish: "+k, e.Pos(), p.Trace(), f, a...)
	}
	end := func(p *Path, e *Event) {
		if !p.Has("iter") {
			return
		}
		if p.Has("sent") == p.Has("full") {
			fail("every subscriber offered once", p, e, "a subscriber is passed over, or offered the event twice")
		}
		for k := range p.Flags {
			if id, ok := strings.CutPrefix(k, "cnt/"); ok {
				// a local counter is exact when it grew in this turn just for a refused offer
				if p.Has("inc/"+id) != p.Has("full") {
					p.Set("inexact/" + id)
				}
				p.Clear("inc/" + id)
			}
		}
		if p.Has("full") && !p.Has("drop1") {
			p.Set("owed")
		}
		if p.Has("sent") && p.Has("drop1") {
			fail("loss counted once", p, e, "a delivered event is counted as dropped")
		}
		for _, f := range []string{"iter", "sent", "full", "drop1"} {
			p.Clear(f)
		}
	}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "prenext":
			end(p, e)
		case "advance":
			id := e.Addr.key
			if !e.Truth {
				if n, ok := e.Val.intConst(); ok && n == 0 {
					p.Set("cnt/" + id)
				}
				return
			}
			switch v := e.Val; {
			case v.key == e.Addr.key:
				p.Clear("inc/" + id)
			case v.op == "bin" && v.name == "+" && v.args[0].key == e.Addr.key && isOneInt(v.args[1]):
				p.Set("inc/" + id)
			default:
				p.Set("inexact/" + id)
			}
		case "branch":
			if e.Val.op == "nextok" && e.Val.attr[0].isLoadOf("Bus.subscribers") {
				if e.Truth {
					p.Set("iter")
				} else {
					p.Set("all")
				}
			}
			if v := e.Val; isCmp(v, "==") && v.args[1].key == tInt(0).key && v.args[0].op == "len" && v.args[0].args[0].isLoadOf("Bus.subscribers") && e.Truth && p.HeldRW(isMuOf("Bus.mu")) {
				p.Set("all")
			}
			// a branch that says that an exact counter is zero
			if v := e.Val; p.Has("all") {
				if isCmp(v, "<") && isZeroInt(v.args[0]) && !e.Truth && p.Has("cnt/"+v.args[1].key) {
					p.Set("zero/" + v.args[1].key)
				}
				if isCmp(v, "==") && isZeroInt(v.args[1]) && e.Truth && p.Has("cnt/"+v.args[0].key) {
					p.Set("zero/" + v.args[0].key)
				}
			}
		case "send":
			sends++
			if e.Blocking {
				fail("offer is non-blocking", p, e, "the publisher waits for a subscriber")
			}
			if !fromTable(e.Addr, "Bus.subscribers") {
				fail("every subscriber offered once", p, e, "event sent to %s, which is not a registered subscriber", short(e.Addr))
			}
			if len(e.Args) > 1 {
				fail("every subscriber offered once", p, e, "one select offers the event to several channels")
			}
			if p.Has("sent") || p.Has("full") {
				fail("every subscriber offered once", p, e, "second offer to one subscriber")
			}
			p.Set("sent")
		case "recv":
			fail("no waiting", p, e, "publishing receives from a channel")
		case "seldefault":
			if p.Has("sent") || p.Has("full") {
				fail("every subscriber offered once", p, e, "second offer to one subscriber")
			}
			p.Set("full")
		case "call":
			if strings.HasPrefix(e.Name, "sync/atomic.") && len(e.Args) > 0 && e.Args[0].isFieldAddr("Bus.dropped") {
				if id := e.Args[1].strip().key; strings.HasSuffix(e.Name, ".Add") && p.Has("cnt/"+id) {
					if p.Has("inexact/"+id) || !p.Has("all") || p.Has("iter") || p.Has("settled") {
						fail("loss counted once", p, e, "loss counter raised by %s, which is not the number of refused offers", short(e.Args[1]))
					}
					p.Set("settled")
					return
				}
				if !strings.HasSuffix(e.Name, ".Add") || !e.Args[1].isConst() || p.Has("drop1") {
					fail("loss counted once", p, e, "loss counter changed by %s", e.Name)
				} else if v, ok := e.Args[1].intConst(); !ok || v != 1 {
					fail("loss counted once", p, e, "loss counter raised by %s", short(e.Args[1]))
				}
				if !p.Has("iter") {
					fail("loss counted once", p, e, "loss counted outside a delivery")
				}
				p.Set("single")
				p.Set("drop1")
			}
			if blockingCall(e.Name) || strings.HasPrefix(e.Name, "dyn:") {
				fail("no waiting", p, e, "publishing calls %s", e.Name)
			}
		case "go":
			fail("every subscriber offered once", p, e, "delivery is handed to another goroutine: it may run after Publish returned or after the channel was closed")
		case "return":
			end(p, e)
			zero := false
			for k := range p.Flags {
				if id, ok := strings.CutPrefix(k, "zero/"); ok && p.Has("cnt/"+id) && !p.Has("inexact/"+id) {
					zero = true // contradicts a refused offer
				}
			}
			if p.Has("owed") && !p.Has("settled") && !zero {
				fail("loss counted once", p, e, "an event is dropped without being counted")
			}
			if p.Has("single") && p.Has("settled") {
				fail("loss counted once", p, e, "losses are counted twice")
			}
			if !p.Has("all") {
				fail("all subscribers visited", p, e, "Publish returns before every subscriber was offered the event")
			}
		}
	}
	c.Explore(x, nil)
	c.Check("publish: sends present", sends > 0, pub.Pos(), "Publish never sends")
	// the loss counter is touched by nobody else
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relBus || f.Synthetic != "" {
			continue
		}
		onlyPub := c.calledOnlyFrom(f, map[*ssa.Function]bool{pub: true})
		eachFieldAddr(f, "Bus.dropped", func(fa *ssa.FieldAddr) {
			ok := onlyPub
			if !ok {
				ok = true
				for _, r := range *fa.Referrers() {
					if cl, isC := r.(ssa.CallInstruction); isC {
						if n := calleeName(cl.Common().StaticCallee()); !strings.HasSuffix(n, ".Load") {
							ok = false
						}
					} else if _, d := r.(*ssa.DebugRef); !d {
						ok = false
					}
				}
			}
			c.Check("loss counter use in "+calleeName(f), ok, fa.Pos(), "%s changes the loss counter", calleeName(f))
		})
	}
	c.atomicGetter(relBus, "Bus", "Dropped", "Bus.dropped")
	// nothing waits while holding the lock Publish needs
	c.runLocks(relBus, append(c.exportedRoots(relBus), c.goRoots(relBus)...), lockRules{
		Guards:     []guard{{Field: "Bus.subscribers", Lock: "Bus.mu"}, {Field: "Bus.nextID", Lock: "Bus.mu"}},
		NoCallback: true, NoBlock: true,
	})
	// buffered channel
	sub := c.NeedM(relBus, "Bus", "Subscribe")
	if sub == nil {
		return
	}
	c.Oblige("subscriber channel is buffered")
	y := newEngine(c.P, sub)
	y.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "mapupdate" && e.Addr.isLoadOf("Bus.subscribers") {
			ok := false
			if ch := tableChan(y, p, e); ch != nil && ch.op == "makechan" {
				n, isC := ch.attr[0].intConst()
				ok = isC && n >= 1
			}
			if !ok {
				c.Fail("subscriber channel is buffered", e.Pos(), p.Trace(), "a subscriber's channel has no buffer: every event not awaited at that instant is lost")
			}
		}
	}
	c.Explore(y, nil)
	// subscriber count is the table's size
	cnt := c.NeedM(relBus, "Bus", "SubscriberCount")
	if cnt != nil {
		c.Oblige("subscriber count")
		for _, o := range c.Explore(newEngine(c.P, cnt), nil) {
			if r := o.Res[0]; !(r.op == "len" && r.args[0].isLoadOf("Bus.subscribers")) {
				c.Fail("subscriber count", cnt.Pos(), o.Trace(), "SubscriberCount returns %s", short(r))
			}
		}
	}
}

// atomicGetter: every path returns exactly one atomic load of the field.
func (c *Ctx) atomicGetter(rel, typ, m, field string) {
	f := c.NeedM(rel, typ, m)
	if f == nil {
		return
	}
	k := "getter " + typ + "." + m
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "sync/atomic.") && strings.HasSuffix(e.Name, ".Load") && e.Args[0].isFieldAddr(field) {
			p.Vars["ld"] = e.Res
		}
		if e.Kind == "return" {
			r := e.Args[0]
			for r.op == "conv" {
				r = r.args[0]
			}
			if p.Vars["ld"] == nil || r.key != p.Vars["ld"].key {
				c.Fail(k, e.Pos(), p.Trace(), "%s returns %s instead of the current %s", m, short(e.Args[0]), field)
			}
		}
	}
	c.Explore(x, nil)
}

func eachFieldAddr(f *ssa.Function, field string, fn func(*ssa.FieldAddr)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			st := structOf(derefT(fa.X.Type()))
			if st != nil && fieldName(st.Field(fa.Field), derefT(fa.X.Type())) == field {
				fn(fa)
			}
		}
	}
}

// structField picks a named field out of a struct-valued term.
func structField(t *Term, name string) *Term {
	st := structOf(t.typ)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != name {
			continue
		}
		if t.op == "struct" && i < len(t.args) {
			return t.args[i]
		}
		if t.op == "zero" {
			return zeroTerm(st.Field(i).Type())
		}
		return mk(&Term{op: "fld", name: fieldName(st.Field(i), t.typ), args: []*Term{t}, fld: st.Field(i), typ: st.Field(i).Type()})
	}
	return nil
}

func isParamField(t *Term, prm *Term, name string) bool {
	return t != nil && t.op == "fld" && strings.HasSuffix(t.name, "."+name) && t.args[0].key == prm.key
}

func runE02(c *Ctx) {
	pub := c.NeedM(relBus, "Bus", "Publish")
	if pub == nil {
		return
	}
	for _, k := range []string{"one number per event", "event carries its number", "number returned", "numbered and delivered in one exclusive section", "content unchanged", "timestamp only filled when missing"} {
		c.Oblige("version: " + k)
	}
	evt := rootParam(pub, 1)
	x := newEngine(c.P, pub)
	isMu := isMuOf("Bus.mu")
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("version: "+k, e.Pos(), p.Trace(), f, a...)
	}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if strings.HasPrefix(e.Name, "sync/atomic.") && len(e.Args) > 0 && e.Args[0].isFieldAddr("Bus.version") {
				if !strings.HasSuffix(e.Name, ".Add") {
					if !strings.HasSuffix(e.Name, ".Load") {
						fail("one number per event", p, e, "version counter changed by %s", e.Name)
					}
					return
				}
				if v, ok := e.Args[1].intConst(); !ok || v < 1 {
					fail("one number per event", p, e, "version advanced by %s", short(e.Args[1]))
				}
				if p.Vars["ver"] != nil {
					fail("one number per event", p, e, "two version numbers taken for one event")
				}
				p.Vars["ver"] = e.Res
				p.Clear("left")
				if !p.HeldW(isMu) {
					fail("numbered and delivered in one exclusive section", p, e, "the version is assigned without exclusive access: another publisher can deliver a later version first")
				}
			}
		case "store":
			if !e.Addr.isFieldAddr("Bus.version") {
				return
			}
			v := e.Val
			if n, ok := int64(0), false; v.op == "bin" && v.name == "+" && v.args[0].isLoadOf("Bus.version") {
				if n, ok = v.args[1].intConst(); !ok || n < 1 {
					fail("one number per event", p, e, "version advanced by %s", short(v.args[1]))
				}
			} else {
				fail("one number per event", p, e, "version set to %s", short(v))
			}
			if p.Vars["ver"] != nil {
				fail("one number per event", p, e, "two version numbers taken for one event")
			}
			p.Vars["ver"] = v
			p.Clear("left")
			if !p.HeldW(isMu) {
				fail("numbered and delivered in one exclusive section", p, e, "the version is assigned without exclusive access: another publisher can deliver a later version first")
			}
		case "unlock":
			if isMu(e.Addr) {
				p.Set("left")
			}
		case "send":
			v := p.Vars["ver"]
			if v == nil || p.Has("left") || !p.HeldW(isMu) {
				fail("numbered and delivered in one exclusive section", p, e, "delivery happens outside the exclusive section in which the version was assigned: subscribers can see versions out of order")
			}
			sv := structField(e.Val, "Version")
			if v != nil && (sv == nil || sv.key != v.key) {
				fail("event carries its number", p, e, "the delivered event carries version %s", short(sv))
			}
			for _, n := range []string{"Type", "Payload"} {
				if t := structField(e.Val, n); !isParamField(t, evt, n) {
					fail("content unchanged", p, e, "delivered %s is %s", n, short(t))
				}
			}
			ts := structField(e.Val, "Timestamp")
			own := isParamField(ts, evt, "Timestamp")
			zero := mk(&Term{op: "pcall", name: "time.(Time).IsZero", args: []*Term{mk(&Term{op: "fld", name: "Event.Timestamp", args: []*Term{evt}})}})
			if own && !p.IsFalse(zero) || !own && !p.IsTrue(zero) {
				fail("timestamp only filled when missing", p, e, "delivered timestamp is %s", short(ts))
			}
		case "return":
			v := p.Vars["ver"]
			if v == nil || e.Args[0].key != v.key {
				fail("number returned", p, e, "Publish returns %s, not the version of the event", short(e.Args[0]))
			}
		}
	}
	c.Explore(x, nil)
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relBus || f.Synthetic != "" {
			continue
		}
		if c.calledOnlyFrom(f, map[*ssa.Function]bool{pub: true}) {
			continue
		}
		eachFieldAddr(f, "Bus.version", func(fa *ssa.FieldAddr) {
			ok := true
			for _, r := range *fa.Referrers() {
				if cl, isC := r.(ssa.CallInstruction); isC {
					if n := calleeName(cl.Common().StaticCallee()); !strings.HasSuffix(n, ".Load") {
						ok = false
					}
				}
				if _, isS := r.(*ssa.Store); isS {
					ok = false
				}
			}
			c.Check("version counter use in "+calleeName(f), ok, fa.Pos(), "%s changes the version counter", calleeName(f))
		})
	}
	// nobody else puts events on a subscriber channel
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relBus || f.Synthetic != "" || c.calledOnlyFrom(f, map[*ssa.Function]bool{pub: true}) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := false
				switch in := in.(type) {
				case *ssa.Send:
					bad = chanOfEvents(in.Chan.Type())
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly && chanOfEvents(s.Chan.Type()) {
							bad = true
						}
					}
				}
				if bad {
					c.Fail("version: only Publish delivers", in.Pos(), "", "%s puts events on subscriber channels", calleeName(f))
				}
			}
		}
	}
	c.Oblige("version: only Publish delivers")
}

func chanOfEvents(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(typeStr(ch.Elem()), "eventbus.Event")
}

func runE03(c *Ctx) {
	sub := c.NeedM(relBus, "Bus", "Subscribe")
	if sub == nil {
		return
	}
	for _, k := range []string{"registered before return", "fresh id", "returned channel is the registered one", "cancel removes", "cancel closes once", "close only after removal", "context watcher", "watcher waits for the context"} {
		c.Oblige("subscribe: " + k)
	}
	isMu := isMuOf("Bus.mu")
	isTab := func(t *Term) bool { return t != nil && t.isLoadOf("Bus.subscribers") }
	x := newEngine(c.P, sub)
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("subscribe: "+k, e.Pos(), p.Trace(), f, a...)
	}
	ctxT := rootParam(sub, 1)
	// follow a cancel function
	guard1 := ""
	ends := map[string]bool{} // channels a cancel closes to announce the end
	type wake struct {
		ch, trace string
		pos       token.Pos
	}
	var wakes []wake // what else ends the watcher's wait
	follow := func(p *Path, fn *Term, args []*Term, id, ch *Term) (closes bool) {
		any := false
		for _, o := range evalEvents(x, p, fn, args, func(q *Path, e *Event) {
			switch e.Kind {
			case "recv":
				if !isDoneOf(e.Addr, ctxT) {
					wakes = append(wakes, wake{e.Addr.key, q.Trace(), e.Pos()})
					q.Set("skipped")
				} else {
					q.Clear("skipped")
				}
			case "onceenter":
				q.Set("inonce")
				q.Vars["once"] = e.Addr
			case "oncedone":
				q.Set("skipped")
			case "onceexit":
				q.Clear("inonce")
			case "delete":
				if isTab(e.Addr) {
					if e.Args[1].key != id.key {
						fail("cancel removes", q, e, "cancel removes %s, not its own subscription", short(e.Args[1]))
					}
					if !q.HeldW(isMu) {
						fail("cancel removes", q, e, "subscription removed without exclusive access")
					}
					q.Set("removed")
				}
			case "branch":
				if e.Val.op == "has" && isTab(e.Val.args[0]) && e.Val.args[1].key == id.key && q.HeldW(isMu) {
					if e.Truth {
						q.Set("present")
					} else {
						q.Set("skipped")
					}
				}
			case "unlock":
				if isMu(e.Addr) && !q.Has("removed") {
					q.Clear("present")
				}
			case "close":
				any = true
				if e.Addr.key != ch.key {
					if e.Addr.typ == nil || chanOfEvents(e.Addr.typ) || e.Addr.op != "makechan" {
						fail("cancel closes once", q, e, "cancel closes %s, not its own channel", short(e.Addr))
					}
					if q.Has("closed/"+e.Addr.key) || !q.Has("inonce") && !q.Has("present") {
						fail("cancel closes once", q, e, "%s may be closed twice", short(e.Addr))
					}
					q.Set("closed/" + e.Addr.key)
					ends[e.Addr.key] = true
					return
				}
				if q.Has("closed") {
					fail("cancel closes once", q, e, "channel closed twice")
				}
				q.Set("closed")
				if q.Has("inonce") && !q.Has("present") {
					if o := q.Vars["once"].key; guard1 == "" {
						guard1 = o
					} else if guard1 != o {
						fail("cancel closes once", q, e, "the cancel function and the watcher use different guards: the channel can be closed twice")
					}
				}
				if !q.Has("removed") {
					if !(q.HeldW(isMu) && q.Has("present")) {
						fail("close only after removal", q, e, "the channel is closed while a publisher can still find it: send on closed channel")
					} else {
						q.Set("mustremove")
					}
				}
				if !q.Has("inonce") && !q.Has("present") {
					fail("cancel closes once", q, e, "nothing keeps a second cancel (or the context watcher) from closing the channel again")
				}
			}
		}) {
			if o.Has("skipped") {
				continue
			}
			if !o.Has("removed") {
				c.Fail("subscribe: cancel removes", sub.Pos(), o.Trace(), "a cancel path leaves the subscription registered")
			}
			if !o.Has("closed") {
				c.Fail("subscribe: cancel closes once", sub.Pos(), o.Trace(), "a cancel path leaves the channel open")
			}
		}
		return any
	}
	watch := 0
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "mapupdate":
			if isTab(e.Addr) {
				if !p.HeldW(isMu) {
					fail("registered before return", p, e, "subscription registered without exclusive access")
				}
				p.Vars["id"] = e.Args[1]
				p.Vars["ch"] = tableChan(x, p, e)
				p.Set("registered")
				id := e.Args[1]
				if id.op == "alloc" {
					p.Set("idbumped") // the subscription object itself is the identity
				} else if !(id.isLoadOf("Bus.nextID") || id.op == "bin" && id.name == "+" && id.args[0].isLoadOf("Bus.nextID") || id.op == "call" && strings.HasPrefix(id.name, "sync/atomic.") && strings.HasSuffix(id.name, ".Add")) {
					fail("fresh id", p, e, "subscription id %s is not taken from the id counter", short(id))
				}
			}
		case "store":
			if e.Addr.isFieldAddr("Bus.nextID") {
				if !(e.Val.op == "bin" && e.Val.name == "+" && e.Val.args[0].isLoadOf("Bus.nextID") && e.Val.args[1].isConst()) || !p.HeldW(isMu) {
					fail("fresh id", p, e, "id counter set to %s", short(e.Val))
				} else if v, _ := e.Val.args[1].intConst(); v < 1 {
					fail("fresh id", p, e, "id counter set to %s", short(e.Val))
				}
				p.Set("idbumped")
			}
		case "call":
			if strings.HasPrefix(e.Name, "sync/atomic.") && strings.HasSuffix(e.Name, ".Add") && len(e.Args) > 0 && e.Args[0].isFieldAddr("Bus.nextID") {
				p.Set("idbumped")
			}
			if e.Name == "context.AfterFunc" && e.Args[0].key == ctxT.key {
				watch++
				p.Set("watched")
				checkWatch(c, x, p, e, e.Args[1], nil, follow, nil)
			}
		case "go":
			watch++
			p.Set("watched")
			checkWatch(c, x, p, e, e.Args[0], e.Args[1:], follow, ctxT)
		case "close":
			fail("cancel closes once", p, e, "Subscribe itself closes a channel")
		case "return":
			if !p.Has("registered") {
				fail("registered before return", p, e, "a path returns without registering the subscription")
				return
			}
			if !p.Has("idbumped") {
				fail("fresh id", p, e, "the id counter is not advanced: the next subscriber replaces this one")
			}
			if !p.Has("watched") {
				fail("context watcher", p, e, "nothing cancels the subscription when its context ends")
			}
			ch := p.Vars["ch"]
			if ch == nil || e.Args[0].key != ch.key {
				fail("returned channel is the registered one", p, e, "Subscribe returns %s", short(e.Args[0]))
				return
			}
			if !follow(p, e.Args[1], nil, p.Vars["id"], ch) {
				fail("cancel closes once", p, e, "the returned cancel function never closes the channel")
			}
		}
	}
	c.Explore(x, nil)
	for _, k := range wakes {
		if !ends[k.ch] {
			c.Fail("subscribe: watcher waits for the context", k.pos, k.trace, "the watcher stops waiting for the context for another reason")
		}
	}
	c.Check("subscribe: watcher present", watch > 0, sub.Pos(), "no context watcher is started")
	// no other close of event channels
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relBus || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bt, ok := cl.Common().Value.(*ssa.Builtin); ok && bt.Name() == "close" && chanOfEvents(cl.Common().Args[0].Type()) {
					ok := c.calledOnlyFrom(f, map[*ssa.Function]bool{sub: true})
					c.Check("close site in "+calleeName(f), ok, in.Pos(), "%s closes subscriber channels", calleeName(f))
				}
			}
		}
	}
	// sends happen under the lock to registered channels
	if pub := c.NeedM(relBus, "Bus", "Publish"); pub != nil {
		c.Oblige("send only to registered channels under the lock")
		y := newEngine(c.P, pub)
		y.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "send" && (!p.HeldRW(isMu) || !fromTable(e.Addr, "Bus.subscribers")) {
				c.Fail("send only to registered channels under the lock", e.Pos(), p.Trace(), "send to %s while the lock is not held: the channel may be closed", short(e.Addr))
			}
		}
		c.Explore(y, nil)
	}
}

// tableChan is the channel of the subscription just put into the table.
func tableChan(x *Engine, p *Path, e *Event) *Term {
	for _, s := range []*Term{e.Val, e.Args[1]} {
		if s == nil || s.typ == nil {
			continue
		}
		if _, ok := s.typ.Underlying().(*types.Chan); ok {
			return s
		}
		if st := structOf(derefT(s.typ)); st != nil && st.NumFields() > 0 {
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
					if s.op == "struct" {
						return s.args[i]
					}
					return x.Load(p, fieldAddr(s, derefT(s.typ), st.Field(i)), st.Field(i).Type())
				}
			}
		}
	}
	return nil
}

func isDoneOf(t, ctx *Term) bool {
	return t.op == "pcall" && t.name == "context.Context.Done" && t.args[0].key == ctx.key
}

func checkWatch(c *Ctx, x *Engine, p *Path, e *Event, fn *Term, args []*Term, follow func(*Path, *Term, []*Term, *Term, *Term) bool, ctxT *Term) {
	id, ch := p.Vars["id"], p.Vars["ch"]
	if id == nil || ch == nil {
		c.Fail("subscribe: context watcher", e.Pos(), p.Trace(), "the context is watched before the subscription exists")
		return
	}
	waited := ctxT == nil
	save := x.OnEvent
	if ctxT != nil {
		evalEvents(x, p, fn, args, func(q *Path, ev *Event) {
			if ev.Kind == "recv" {
				if isDoneOf(ev.Addr, ctxT) {
					waited = true
				}
				q.Set("waited")
			}
			if (ev.Kind == "delete" || ev.Kind == "close") && !q.Has("waited") {
				c.Fail("subscribe: watcher waits for the context", ev.Pos(), q.Trace(), "the subscription is cancelled although its context is still live")
			}
		})
	}
	x.OnEvent = save
	if !waited {
		c.Fail("subscribe: watcher waits for the context", e.Pos(), p.Trace(), "the watcher does not wait for the context to end")
	}
	if !follow(p, fn, args, id, ch) {
		c.Fail("subscribe: context watcher", e.Pos(), p.Trace(), "the watcher never closes the subscription")
	}
}

func isZeroInt(t *Term) bool {
	n, ok := t.intConst()
	return ok && n == 0
}

func isOneInt(t *Term) bool {
	n, ok := t.intConst()
	return ok && n == 1
}
