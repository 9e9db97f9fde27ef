package main

// rep names a node of a list by what is known about it: X is the node the
// operation is about (the entry of the key, or else the last node), H and T the
// first and last one as the operation found them.
func (t tracker) rep(p *Path, v *Term) string {
	if v == nil {
		return "?"
	}
	v = v.unbox()
	if v.isNil() || v.op == "zero" {
		return "nil"
	}
	switch {
	case p.Has("has") && t.isEntry(p, v):
		return "X"
	case v.isLoadOf(t.head):
		switch {
		case p.Has("H0"):
			return "nil"
		case p.Has("XH+"):
			return "X"
		}
		return "H"
	case v.isLoadOf(t.tail):
		switch {
		case p.Has("H0"):
			return "nil"
		case p.Has("sole") || p.Has("XT+"):
			return "X"
		}
		return "T"
	case v.isLoadOf(t.prev):
		switch b := t.rep(p, baseOf(v)); {
		case b == "H" || b == "X" && p.Has("XH+"):
			return "nil"
		default:
			return b + ".prev"
		}
	case v.isLoadOf(t.next):
		switch b := t.rep(p, baseOf(v)); {
		case b == "T" || b == "X" && (p.Has("XT+") || p.Has("sole")):
			return "nil"
		default:
			return b + ".next"
		}
	}
	return v.key
}

// shape follows the list: what is known of the place of X, and what is written.
func (t tracker) shape(p *Path, e *Event, key *Term) {
	if t.head == "" {
		return
	}
	learn := func(f string, truth bool) {
		on, off := f+"+", f+"-"
		if !truth {
			on, off = off, on
		}
		if p.Has(off) {
			p.Dead = true
		}
		p.Set(on)
	}
	sole := p.Has("hasnot") || key == nil // X is the last node
	if sole {
		p.Set("sole")
	}
	switch e.Kind {
	case "branch":
		v, truth := e.Val, e.Truth
		for v.op == "not" {
			v, truth = v.args[0], !truth
		}
		if !isCmp(v, "==") {
			return
		}
		if sole && isStringT(v.args[0].typ) && p.Has("hasnot") && truth {
			// the key of a node is tracked, the one looked up is not
			for i := 0; i < 2; i++ {
				if v.args[i].isLoadOf(t.key) && v.args[1-i].op == "param" {
					p.Dead = true
				}
			}
			return
		}
		a, b := t.rep(p, v.args[0]), t.rep(p, v.args[1])
		if a == b {
			if !truth && a != "?" && (t.isNode(v.args[0]) || t.isNode(v.args[1])) {
				p.Dead = true
			}
			return
		}
		for i := 0; i < 2; i++ {
			switch a + " " + b {
			case "X H":
				learn("XH", truth)
			case "X T":
				learn("XT", truth)
			case "H T":
				if truth {
					learn("XH", true)
					learn("XT", true)
				} else {
					p.Set("HT-")
				}
			case "X.prev nil":
				learn("XH", truth)
			case "X.next nil":
				learn("XT", truth)
			case "H nil", "T nil":
				if truth {
					p.Set("H0")
				} else {
					p.Set("H+")
				}
			case "X nil":
				switch {
				case p.Has("has") || p.Has("H+"):
					if truth {
						p.Dead = true
					}
				case truth:
					p.Set("H0")
				default:
					p.Set("H+")
				}
			}
			a, b = b, a
		}
	case "store":
		a := e.Addr
		switch {
		case a.isFieldAddr(t.head):
			p.Vars["w@head"] = e.Val
		case a.isFieldAddr(t.tail):
			p.Vars["w@tail"] = e.Val
		case a.isFieldAddr(t.prev):
			p.Vars["w|"+t.rep(p, a.args[0])+"|prev"] = e.Val
		case a.isFieldAddr(t.next):
			p.Vars["w|"+t.rep(p, a.args[0])+"|next"] = e.Val
		}
	}
	if sole {
		p.Set("XT+")
	}
	if !p.Has("changed") && (p.Has("has") || p.Has("some") || p.Has("full") && p.Has("cap+")) {
		p.Set("H+")
	}
	if p.Has("H+") && p.Has("H0") {
		p.Dead = true
	}
	if p.Has("HT-") && p.Has("XH+") && p.Has("XT+") {
		p.Dead = true
	}
	if p.Has("HT-") && p.Has("XH+") {
		p.Set("XT-")
	}
	if p.Has("HT-") && p.Has("XT+") && !p.Has("H0") {
		p.Set("XH-")
	}
}

func (t tracker) isNode(v *Term) bool {
	return v.isLoadOf(t.head) || v.isLoadOf(t.tail) || v.isLoadOf(t.prev) || v.isLoadOf(t.next)
}

// now is what a field holds at the end.
func (t tracker) now(p *Path, node, field string) string {
	if node == "" {
		if v := p.Vars["w@"+field]; v != nil {
			return t.rep(p, v)
		}
		switch {
		case p.Has("H0"):
			return "nil"
		case field == "head" && p.Has("XH+"), field == "tail" && p.Has("XT+"):
			return "X"
		case field == "head":
			return "H"
		}
		return "T"
	}
	if v := p.Vars["w|"+node+"|"+field]; v != nil {
		return t.rep(p, v)
	}
	switch node + "." + field {
	case "X.prev":
		if p.Has("XH+") {
			return "nil"
		}
		return "X.prev"
	case "X.next":
		if p.Has("XT+") {
			return "nil"
		}
		return "X.next"
	case "X.prev.next", "X.next.prev":
		return "X"
	case "H.prev":
		return "nil"
	}
	return "nil" // a node from the pool is blank
}

// unlinked: X is no longer in the list, which is whole.
func (t tracker) unlinked(p *Path) string {
	if m := t.placed(p); m != "" {
		return m
	}
	before, after := "X.prev", "X.next"
	if p.Has("XH+") {
		before = "nil"
	}
	if p.Has("XT+") {
		after = "nil"
	}
	switch {
	case p.Has("XH+") && t.now(p, "", "head") != after:
		return "the node after the one taken out is not the first now"
	case !p.Has("XH+") && t.now(p, "", "head") != "H":
		return "the first node changes"
	case p.Has("XT+") && t.now(p, "", "tail") != before:
		return "the node before the one taken out is not the last now"
	case !p.Has("XT+") && t.now(p, "", "tail") != "T":
		return "the last node changes"
	case before != "nil" && t.now(p, before, "next") != after:
		return "the node before the one taken out does not lead to the one after it"
	case after != "nil" && t.now(p, after, "prev") != before:
		return "the node after the one taken out does not lead back to the one before it"
	}
	return ""
}

func (t tracker) placed(p *Path) string {
	switch {
	case !p.Has("XH+") && !p.Has("XH-"):
		return "it does not look whether the node is the first of the list"
	case !p.Has("XT+") && !p.Has("XT-"):
		return "it does not look whether the node is the last of the list"
	}
	return ""
}

// moved: X is the first node now, and the others follow in their order.
func (t tracker) moved(p *Path) string {
	if t.now(p, "", "head") != "X" {
		return "the node is not the first now"
	}
	if p.Has("XH+") {
		if p.Vars["w@head"] == nil && p.Vars["w@tail"] == nil && p.Vars["w|X|next"] == nil && p.Vars["w|X|prev"] == nil {
			return ""
		}
		if m := t.placed(p); m != "" {
			return m
		}
		after := "X.next"
		if p.Has("XT+") {
			after = "nil"
		}
		switch {
		case t.now(p, "X", "next") != after, t.now(p, "X", "prev") != "nil":
			return "the first node no longer leads to the second"
		case p.Has("XT+") && t.now(p, "", "tail") != "X", !p.Has("XT+") && t.now(p, "", "tail") != "T":
			return "the last node changes"
		case after != "nil" && t.now(p, after, "prev") != "X":
			return "the second node does not lead back to the first"
		}
		return ""
	}
	if m := t.placed(p); m != "" {
		return m
	}
	after := "X.next"
	if p.Has("XT+") {
		after = "nil"
	}
	switch {
	case t.now(p, "X", "prev") != "nil":
		return "the first node leads back to another"
	case t.now(p, "X", "next") != "H":
		return "the node does not lead to the one that was first"
	case t.now(p, "H", "prev") != "X":
		return "the node that was first does not lead back to the new first"
	case t.now(p, "X.prev", "next") != after:
		return "the node before it does not lead to the one after it"
	case after == "nil" && t.now(p, "", "tail") != "X.prev":
		return "the node before it is not the last now"
	case after != "nil" && t.now(p, after, "prev") != "X.prev":
		return "the node after it does not lead back to the one before it"
	case after != "nil" && t.now(p, "", "tail") != "T":
		return "the last node changes"
	}
	return ""
}

// added: the new node is the first one; X, the last one, is gone if a key was dropped.
func (t tracker) added(p *Path, n string) string {
	if t.now(p, "", "head") != n {
		return "the new node is not the first now"
	}
	if t.now(p, n, "prev") != "nil" {
		return "the first node leads back to another"
	}
	alone := p.Has("H0")
	if p.Has("del") {
		if !p.Has("XH+") && !p.Has("XH-") {
			return "it does not look whether the node it drops is the only one"
		}
		alone = p.Has("XH+")
	} else if !p.Has("H0") && !p.Has("H+") {
		return "it does not look whether the list is empty"
	}
	switch {
	case alone && t.now(p, "", "tail") != n:
		return "the only node is not the last"
	case alone && t.now(p, n, "next") != "nil":
		return "the only node leads to another"
	case alone:
		return ""
	case t.now(p, n, "next") != "H" && !(t.now(p, n, "next") == "X" && p.Has("XH+") && !p.Has("del")):
		return "the new node does not lead to the one that was first"
	}
	first := "H"
	if p.Has("XH+") {
		first = "X"
	}
	switch {
	case t.now(p, first, "prev") != n:
		return "the node that was first does not lead back to the new one"
	case !p.Has("del") && t.now(p, "", "tail") != "X":
		return "the last node changes"
	case p.Has("del") && t.now(p, "", "tail") != "X.prev":
		return "the node before the one dropped is not the last now"
	case p.Has("del") && t.now(p, "X.prev", "next") != "nil":
		return "the last node leads on to the one dropped"
	}
	return ""
}

func runV03(c *Ctx) {
	for _, t := range trackers {
		switch {
		case t.head != "":
			t.listRule(c)
		case t.heap:
			t.heapRule(c)
		default:
			t.clockRule(c)
		}
	}
	c.lessRule()
}

func (t tracker) listRule(c *Ctx) {
	for _, name := range []string{"Set", "Get", "Delete", "Evict"} {
		f := c.NeedM(relEvict, t.typ, name)
		if f == nil {
			continue
		}
		want := map[string]string{
			"Set":    "the key is the most recent, the rest keep their order; the least recent is dropped",
			"Get":    "the key is the most recent, the rest keep their order",
			"Delete": "the rest keep their order",
			"Evict":  "the least recent is dropped, the rest keep their order",
		}[name]
		k := t.typ + "." + name + ": " + want
		kp := t.typ + "." + name + ": a node goes to the pool unlinked, once it is out of the list"
		c.Oblige(k)
		c.Oblige(kp)
		var key *Term
		if name != "Evict" {
			key = rootParam(f, 1)
		}
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			t.watch(p, e, key)
			t.shape(p, e, key)
			if p.Dead {
				return
			}
			if e.Kind == "mapupdate" && t.isIndex(e.Args[0]) {
				p.Set("ins")
				p.Set("changed")
				p.Vars["iv"] = e.Args[2]
			}
			if e.Kind == "delete" && t.isIndex(e.Args[0]) {
				p.Set("del")
				p.Set("changed")
				if name != "Delete" {
					b := baseOf(e.Args[1].unbox())
					if !e.Args[1].isLoadOf(t.key) || !b.isLoadOf(t.tail) {
						c.Fail(k, e.Pos(), p.Trace(), "the key dropped is not that of the last node")
					}
				}
			}
			if e.Kind == "precall" && e.Name == "sync.(*Pool).Put" {
				r := t.rep(p, e.Args[1].unbox())
				if r != "X" {
					c.Fail(kp, e.Pos(), p.Trace(), "another node than the one taken out goes to the pool")
				} else if t.now(p, "X", "next") != "nil" || t.now(p, "X", "prev") != "nil" {
					c.Fail(kp, e.Pos(), p.Trace(), "it goes to the pool with a link to another node")
				}
				if m := t.unlinked(p); m != "" && !p.Has("ins") {
					c.Fail(kp, e.Pos(), p.Trace(), "%s", m)
				}
			}
			if e.Kind != "return" {
				return
			}
			m := ""
			switch {
			case name != "Evict" && p.Has("has") && name != "Delete":
				m = t.moved(p)
			case p.Has("ins"):
				m = t.added(p, t.rep(p, p.Vars["iv"]))
			case p.Has("del"):
				m = t.unlinked(p)
			default:
				if p.Vars["w@head"] != nil || p.Vars["w@tail"] != nil {
					m = "the list changes though nothing is tracked or dropped"
				}
			}
			if m != "" {
				c.Fail(k, e.Pos(), p.Trace(), "%s", m)
			}
		}
		c.Explore(x, nil)
	}
}

// heapRule: every use makes a node's count one more and its last use the
// newest, and the heap is told; what is dropped is what the heap gives.
func (t tracker) heapRule(c *Ctx) {
	isHeap := func(v *Term) bool { return v.unbox().isLoadOf(t.typ + ".freqs") }
	for _, name := range []string{"Set", "Get", "Delete", "Evict"} {
		f := c.NeedM(relEvict, t.typ, name)
		if f == nil {
			continue
		}
		want := map[string]string{
			"Set":    "a use is counted and dated, and the heap is told; the least used is dropped",
			"Get":    "a use is counted and dated, and the heap is told",
			"Delete": "exactly the node of the key leaves the heap",
			"Evict":  "exactly the least used leaves the heap",
		}[name]
		k := t.typ + "." + name + ": " + want
		c.Oblige(k)
		var key *Term
		if name != "Evict" {
			key = rootParam(f, 1)
		}
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			t.watch(p, e, key)
			if p.Dead {
				return
			}
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			count := func(s string) {
				if p.Has(s) {
					fail("the heap is told twice")
				}
				p.Set(s)
			}
			switch e.Kind {
			case "mapupdate":
				if t.isIndex(e.Args[0]) {
					p.Set("ins")
					p.Set("changed")
					p.Vars["iv"] = e.Args[2]
				}
			case "delete":
				if t.isIndex(e.Args[0]) {
					p.Set("del")
					p.Set("changed")
					if name != "Delete" {
						if b := baseOf(e.Args[1].unbox()); !b.unbox().mentionsCall("container/heap.Pop") {
							fail("the key dropped is not that of the node the heap gave")
						}
					}
				}
			case "store":
				a := e.Addr
				switch {
				case a.isFieldAddr(t.typ + ".seq"):
					if !isPlusOne(e.Val, func(v *Term) bool { return v.isLoadOf(t.typ + ".seq") }) {
						fail("the clock of uses does not go up by one")
					}
					p.Vars["seq"] = e.Val
					p.Set("tick")
				case a.isFieldAddr("Node.last"):
					if !p.Has("tick") || p.Vars["seq"] == nil || e.Val.key != p.Vars["seq"].key {
						fail("a use is not dated with a new date")
					}
					p.Vars["dated"] = a.args[0]
					if p.Has("told") {
						fail("a use is dated after the heap was told")
					}
				case a.isFieldAddr("Node.count"):
					switch {
					case t.isEntry(p, a.args[0]):
						if !isPlusOne(e.Val, func(v *Term) bool { return v.isLoadOf("Node.count") && t.isEntry(p, baseOf(v)) }) {
							fail("a use does not make the count one more")
						}
						if p.Has("told") {
							fail("a use is counted after the heap was told")
						}
						if p.Has("counted") {
							fail("a use is counted twice")
						}
						p.Set("counted")
					case freshBase(a):
						if !isOneInt(e.Val) {
							fail("a new node does not start with one use")
						}
						p.Set("one")
					default:
						fail("the count of another node changes")
					}
				}
			case "precall":
				switch e.Name {
				case "container/heap.Fix":
					count("told")
					b := e.Args[1].unbox()
					if !isHeap(e.Args[0]) || !b.isLoadOf(t.pos) || !t.isEntry(p, baseOf(b)) {
						fail("the heap is told about another node")
					}
				case "container/heap.Push":
					count("pushed")
					p.Vars["pushed"] = e.Args[1].unbox()
					if !isHeap(e.Args[0]) {
						fail("the node goes to another heap")
					}
					if p.Vars["dated"] == nil || p.Vars["dated"].key != e.Args[1].unbox().key || !p.Has("one") {
						fail("the new node has no count or date when the heap takes it")
					}
				case "container/heap.Pop":
					count("popped")
				case "container/heap.Remove":
					count("removed")
					b := e.Args[1].unbox()
					if !isHeap(e.Args[0]) || !b.isLoadOf(t.pos) || !t.isEntry(p, baseOf(b)) {
						fail("another node is taken out of the heap")
					}
				case "container/heap.Init":
				}
			case "return":
				has := p.Has("has")
				use := has && (name == "Set" || name == "Get")
				switch {
				case use && (!p.Has("counted") || p.Vars["dated"] == nil || !t.isEntry(p, p.Vars["dated"])):
					fail("a use is not counted and dated")
				case use && !p.Has("told"):
					fail("the heap is not told of a use")
				case !use && p.Has("told"):
					fail("the heap is told of a use there was not")
				case p.Has("ins") != p.Has("pushed"):
					fail("the index and the heap do not hold the same nodes")
				case p.Has("ins") && p.Vars["pushed"].key != p.Vars["iv"].key:
					fail("the node in the heap is not the one in the index")
				case name == "Delete" && p.Has("del") != p.Has("removed"), name != "Delete" && p.Has("del") != p.Has("popped"):
					fail("a node is dropped from the index or the heap only")
				}
			}
		}
		c.Explore(x, nil)
	}
}

// mentionsCall: t is a result of the given call, maybe asserted to a type.
func (t *Term) mentionsCall(name string) bool {
	for t != nil {
		if t.isCall(name) {
			return true
		}
		if (t.op == "as" || t.op == "iface" || t.op == "ext") && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		return false
	}
	return false
}

// lessRule: the heap is ordered by use count, then by the date of the last
// use; and it keeps every node's position up to date.
func (c *Ctx) lessRule() {
	if f := c.NeedM(relEvict, "FrequencyHeap", "Less"); f != nil {
		const k = "FrequencyHeap.Less: fewer uses first, then the older last use"
		c.Oblige(k)
		i, j := rootParam(f, 1), rootParam(f, 2)
		x := newEngine(c.P, f)
		at := func(v *Term, field string, ix *Term) bool {
			if !v.isLoadOf(field) {
				return false
			}
			_, k, ok := elemOf(baseOf(v))
			return ok && k.key == ix.key
		}
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "branch" && e.Val.op == "bin" && len(e.Val.args) == 2 {
				for n, a := range e.Val.args {
					b := e.Val.args[1-n]
					for _, f := range []string{"count", "last"} {
						if at(a, "Node."+f, i) && at(b, "Node."+f, j) {
							p.Vars[f+"i"], p.Vars[f+"j"] = a, b
						}
					}
				}
			}
			if e.Kind != "return" {
				return
			}
			v := e.Args[0]
			if v.op == "bin" && len(v.args) == 2 {
				for n, a := range v.args {
					b := v.args[1-n]
					for _, f := range []string{"count", "last"} {
						if at(a, "Node."+f, i) && at(b, "Node."+f, j) {
							p.Vars[f+"i"], p.Vars[f+"j"] = a, b
						}
					}
				}
			}
			splitBool(Outcome{Path: p}, v, func(q *Path, truth bool) {
				ci, cj, li, lj := q.Vars["counti"], q.Vars["countj"], q.Vars["lasti"], q.Vars["lastj"]
				if ci == nil {
					c.Fail(k, e.Pos(), p.Trace(), "the counts are not compared")
					return
				}
				less, same, more := q.Decide(lt(ci, cj)), q.Decide(mkEq(ci, cj)), q.Decide(lt(cj, ci))
				if same == unknown && less == no && more == no {
					same = yes
				}
				ll := unknown
				if li != nil {
					ll = q.Decide(lt(li, lj))
				}
				if truth && !(less == yes || same == yes && ll == yes) {
					c.Fail(k, e.Pos(), p.Trace(), "a node comes first that is used more, or as much and later")
				}
				if !truth && !(more == yes || less == no && same == no || same == yes && ll == no) {
					c.Fail(k, e.Pos(), p.Trace(), "a node does not come first that is used less, or as much and earlier")
				}
			})
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relEvict, "FrequencyHeap", "Swap"); f != nil {
		const k = "FrequencyHeap.Swap: the two nodes change places and know it"
		c.Oblige(k)
		i, j := rootParam(f, 1), rootParam(f, 2)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			switch e.Kind {
			case "store":
				switch {
				case e.Addr.op == "idx":
					_, ix, ok := elemOf(e.Val)
					if !ok {
						fail("something else than a node of the heap is stored")
						return
					}
					switch {
					case e.Addr.args[1].key == i.key && ix.key == j.key:
						p.Vars["i"] = e.Val
					case e.Addr.args[1].key == j.key && ix.key == i.key:
						p.Vars["j"] = e.Val
					default:
						fail("a node moves to another place than the other's")
					}
				case e.Addr.isFieldAddr("Node.index"):
					n := e.Addr.args[0]
					a, b := p.Vars["i"], p.Vars["j"]
					if _, ix, ok := elemOf(n); ok && a != nil && b != nil && n.key != a.key && n.key != b.key {
						if ix.key == i.key { // loaded after the change of places
							n = a
						} else if ix.key == j.key {
							n = b
						}
					}
					p.Vars["at|"+n.key] = e.Val
				}
			case "return":
				a, b := p.Vars["i"], p.Vars["j"]
				if a == nil || b == nil {
					fail("the nodes do not change places")
					return
				}
				if v := p.Vars["at|"+a.key]; v == nil || v.key != i.key {
					fail("a node does not know its new place")
				}
				if v := p.Vars["at|"+b.key]; v == nil || v.key != j.key {
					fail("a node does not know its new place")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relEvict, "FrequencyHeap", "Push"); f != nil {
		const k = "FrequencyHeap.Push: the node goes to the end and knows it"
		c.Oblige(k)
		n := rootParam(f, 1)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			isIt := func(v *Term) bool { v = v.unbox(); return v.op == "as" && v.args[0].key == n.key }
			switch e.Kind {
			case "branch":
				if e.Val.op == "is" && !e.Truth {
					p.Dead = true // the heap is given nodes only
				}
			case "append":
				p.Vars["app"] = e.Res
				if len(e.Args) < 2 || e.Args[0].op != "load" {
					fail("it does not add to what the heap holds")
				} else {
					p.Vars["old"] = e.Args[0]
					p.Set("app")
				}
				ok := false
				for _, a := range e.Args[1:] {
					if els := p.x.Elems(p, a); len(els) == 1 && isIt(els[0]) || isIt(a) {
						ok = true
					}
				}
				if !ok {
					fail("it adds something else than the node")
				}
			case "store":
				switch {
				case e.Addr.isFieldAddr("Node.index") && isIt(e.Addr.args[0]):
					p.Vars["ix"] = e.Val
				case e.Addr.op == "param":
					p.Vars["new"] = e.Val
				}
			case "return":
				if p.Vars["new"] == nil || p.Vars["app"] == nil || p.Vars["new"].key != p.Vars["app"].key {
					fail("the heap does not hold the node")
					return
				}
				if ix := p.Vars["ix"]; ix == nil || ix.op != "len" || ix.args[0].op != "load" || ix.args[0].args[0].op != "param" {
					fail("the node does not know its place")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relEvict, "FrequencyHeap", "Pop"); f != nil {
		const k = "FrequencyHeap.Pop: the last node, and the heap is one shorter"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			last := func(v *Term) bool {
				m, n := linear(v)
				if n != -1 || len(m) != 1 {
					return false
				}
				return true
			}
			switch e.Kind {
			case "store":
				if e.Addr.op == "param" {
					p.Vars["new"] = e.Val
				}
			case "return":
				v := p.Vars["new"]
				if v == nil || v.op != "slice" || !last(v.args[2]) || !(v.args[1].op == "none" || isZeroInt(v.args[1])) {
					fail("the heap does not become one shorter at its end")
				}
				_, ix, ok := elemOf(e.Args[0].unbox())
				if !ok || !last(ix) {
					fail("it does not give the last node")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relEvict, "FrequencyHeap", "Len"); f != nil {
		const k = "FrequencyHeap.Len: how many nodes it holds"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "return" && !isLenOf(e.Args[0], rootParam(f, 0)) {
				c.Fail(k, e.Pos(), p.Trace(), "another number is given")
			}
		}
		c.Explore(x, nil)
	}
}

// hand follows the hand of the clock: free and taken are the slots it was
// seen to stand at, lap says that it went around without passing a free one.
func (t tracker) hand(p *Path, e *Event) {
	if t.slots == "" {
		return
	}
	slotAt := func(v *Term) *Term {
		s, ix, ok := elemOf(v)
		if ok && s.isLoadOf(t.typ+"."+t.slots) {
			return ix
		}
		return nil
	}
	switch e.Kind {
	case "branch":
		v, truth := e.Val, e.Truth
		for v.op == "not" {
			v, truth = v.args[0], !truth
		}
		if isCmp(v, "<") && isPlusOne(v.args[0], t.isHand) && t.isCap(v.args[1]) {
			p.Set(map[bool]string{true: "hand/in", false: "hand/end"}[truth])
		}
		if p.Has("half") && (isCmp(v, "<") && t.isHand(v.args[0]) && t.isCap(v.args[1]) || isCmp(v, "<=") && t.isHand(v.args[1]) && t.isCap(v.args[0])) {
			p.Clear("half")
			if (v.name == "<") != truth {
				p.Set("half/end")
			}
		}
		if isCmp(v, "==") {
			for i := 0; i < 2; i++ {
				a, b := v.args[i], v.args[1-i]
				if t.isCap(b) && isPlusOne(a, t.isHand) {
					p.Set(map[bool]string{true: "hand/end", false: "hand/in"}[truth])
				}
				if p.Has("half") && t.isCap(b) && t.isHand(a) {
					p.Clear("half")
					if truth {
						p.Set("half/end")
					}
				}
				if ix := slotAt(a); ix != nil && b.isNil() {
					if truth {
						p.Vars["free"] = ix
					} else {
						p.Vars["taken"] = ix
						p.Set("taken")
					}
				}
				if truth && a.isLoadOf("ClockAlgorithm.hand") && b.op == "out" && !p.Has("gap") {
					p.Set("lap")
				}
			}
		}
	case "delete":
		if t.isIndex(e.Args[0]) {
			if b := e.Args[1].unbox(); b.isLoadOf(t.key) {
				p.Vars["dslot"] = slotAt(baseOf(b))
				if p.Vars["dslot"] == nil {
					delete(p.Vars, "dslot")
				}
			}
		}
	case "store":
		a := e.Addr
		switch {
		case a.isFieldAddr("ClockAlgorithm.hand"):
			if p.Has("half/end") && isZeroInt(e.Val) {
				p.Clear("half/end")
				return
			}
			if isPlusOne(e.Val, t.isHand) && !p.Has("hand/in") {
				p.Set("half")
			}
			p.Clear("hand/in")
			p.Clear("hand/end")
			if x := p.Vars["taken"]; x == nil || !(x.isLoadOf("ClockAlgorithm.hand") || x.op == "out") {
				p.Set("gap")
			}
			delete(p.Vars, "free")
			delete(p.Vars, "taken")
		case a.op == "idx" && a.args[0].isLoadOf(t.typ+"."+t.slots) && !e.Val.isNil():
			ix := a.args[1].key
			if f := p.Vars["free"]; f != nil && f.key == ix {
				p.Set("slot/free")
			} else if d := p.Vars["dslot"]; d == nil || d.key != ix {
				p.Set("slot/taken")
			}
		}
	}
}

// clockRule: a use gives a second chance, the hand takes one away from each it
// passes and stops at the first that has none.
func (t tracker) clockRule(c *Ctx) {
	for _, name := range []string{"Set", "Get", "Delete", "Evict"} {
		f := c.NeedM(relEvict, t.typ, name)
		if f == nil {
			continue
		}
		k := t.typ + "." + name + ": a use gives a second chance; the hand passes only those that have one, and takes it"
		c.Oblige(k)
		var key *Term
		if name != "Evict" {
			key = rootParam(f, 1)
		}
		isHand := t.isHand
		atHand := func(n *Term) bool {
			s, ix, ok := elemOf(n)
			return ok && s.isLoadOf(t.typ+"."+t.slots) && isHand(ix)
		}
		x := newEngine(c.P, f)
		x.NoInline = t.opaque
		x.OnEvent = func(p *Path, e *Event) {
			t.watch(p, e, key)
			if p.Dead {
				return
			}
			fail := func(m string) { c.Fail(k, e.Pos(), p.Trace(), "%s", m) }
			switch e.Kind {
			case "branch":
				v, truth := e.Val, e.Truth
				for v.op == "not" {
					v, truth = v.args[0], !truth
				}
				if len(v.args) != 2 {
					break
				}
				a, b := v.args[0], v.args[1]
				acc := func(v *Term) bool { return v.isLoadOf("Item.AccessCount") && atHand(baseOf(v)) }
				none := 0
				switch {
				case isCmp(v, "<") && isZeroInt(a) && acc(b):
					none = map[bool]int{true: -1, false: 1}[truth]
				case isCmp(v, "<=") && isZeroInt(b) && acc(a), isCmp(v, "<") && isOneInt(b) && acc(a):
					none = map[bool]int{true: 1, false: -1}[truth]
				case isCmp(v, "==") && (acc(a) && isZeroInt(b) || acc(b) && isZeroInt(a)):
					none = map[bool]int{true: 1, false: -1}[truth]
				}
				if none == 1 {
					p.Set("none")
					p.Clear("one")
				} else if none == -1 {
					p.Set("one")
					p.Clear("none")
				}
			case "store":
				a := e.Addr
				switch {
				case a.isFieldAddr("ClockAlgorithm.hand"):
					if p.Has("half/end") && isZeroInt(e.Val) {
						break // the second half of a step
					}
					if !p.Has("ins") && !p.Has("del") {
						switch x := p.Vars["free"]; {
						case x != nil && isHand(x):
						case p.Has("one") && !p.Has("aged"):
							fail("the hand passes a node without taking its second chance")
						case p.Has("one"):
						case p.Vars["taken"] != nil && name == "Set" && !p.Has("lap"):
							// still looking for a free slot
						default:
							fail("the hand passes a node that has no second chance")
						}
					}
					if !t.stepOfHand(p, e.Val, isHand) {
						fail("the hand does not move on by one slot")
					}
					p.Clear("one")
					p.Clear("none")
					p.Clear("aged")
					if p.Has("ins") || p.Has("del") {
						if p.Has("moved") {
							fail("the hand moves twice after a change")
						}
						p.Set("moved")
					}
				case a.isFieldAddr("Item.AccessCount"):
					n := a.args[0]
					up := isPlusOne(e.Val, func(v *Term) bool { return v.isLoadOf("Item.AccessCount") && baseOf(v).key == n.key })
					m, d := linear(e.Val)
					down := len(m) == 1 && d == -1 && countsLength(e.Val, "Item.AccessCount")
					switch {
					case t.isEntry(p, n):
						if !up {
							fail("a use does not give a second chance")
						}
						p.Set("used")
					case atHand(n):
						if !down || p.Has("aged") || !p.Has("one") {
							fail("the hand does not take exactly one second chance")
						}
						p.Set("aged")
					default: // a new node
						p.Vars["acc|"+n.key] = e.Val
					}
				case a.op == "idx" && a.args[0].isLoadOf(t.typ+"."+t.slots) && !e.Val.isNil():
					p.Vars["new"] = e.Val
				}
			case "mapupdate":
				if t.isIndex(e.Args[0]) {
					p.Set("ins")
					p.Set("changed")
				}
			case "delete":
				if t.isIndex(e.Args[0]) {
					if name != "Delete" {
						b := e.Args[1].unbox()
						if !b.isLoadOf(t.key) || !atHand(baseOf(b)) {
							fail("the key dropped is not that of the slot at the hand")
						} else if !p.Has("none") {
							fail("a key is dropped that may have a second chance")
						}
					}
					p.Set("del")
					p.Set("changed")
				}
			case "return":
				if (name == "Set" || name == "Get") && p.Has("has") && !p.Has("used") {
					fail("a use does not give a second chance")
				}
				if n := p.Vars["new"]; p.Has("ins") && n != nil {
					v := p.Vars["acc|"+n.key]
					if v == nil || !isOneInt(v) {
						fail("a new key does not start with one second chance")
					}
				}
			}
			t.hand(p, e)
			if p.Has("half") && (e.Kind == "index" || e.Kind == "return") || p.Has("half/end") && e.Kind == "index" {
				fail("the hand may stand past the last slot")
			}
		}
		t.calm(x)
		c.Explore(x, nil)
	}
}

func (t tracker) isHand(v *Term) bool {
	return v.isLoadOf("ClockAlgorithm.hand") || v.op == "out" && v.name == "hand"
}

// stepOfHand: v is the slot after the one the hand stands at.
func (t tracker) stepOfHand(p *Path, v *Term, isHand func(*Term) bool) bool {
	next := func(v *Term) bool { return isPlusOne(v, isHand) }
	if v.op == "bin" && v.name == "%" {
		return next(v.args[0]) && (t.isCap(v.args[1]) || v.args[1].op == "len" && v.args[1].args[0].isLoadOf(t.typ+"."+t.slots))
	}
	if next(v) {
		return true // past the end: set to the first slot before it is used
	}
	return isZeroInt(v) && p.Has("hand/end")
}
