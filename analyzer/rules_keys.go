package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "Q06", Level: "proof", MinObl: 14, Run: runQ06,
		Explain: "The cluster-wide listing is followed from the call to the merge: one task for every alive peer of the membership, each of which hands its peer's keys to the shared result or names the peer as missing, never both and never neither, and never fails the group; the result is read only after all tasks. Each piece is checked on all paths: which members are asked, which keys of a node match, how the result takes keys up to its cap, and how a remote listing is put together from pages.",
		Assume:  []string{"errgroup, slices.Sort, strings and path.Match behave as documented; a peer's server answers as checked under H02"}})
}

const accT = "listKeysAccumulator"

func runQ06(c *Ctx) {
	c.listKeysRule()
	c.accRules()
	c.alivePeersRule()
	c.localKeysRule()
	c.matcherRule()
	c.remoteKeysRule()
	c.clusterKeysRule()
}

func accM(n string) string { return relBackend + ".(*" + accT + ")." + n }

func (c *Ctx) listKeysRule() {
	f := c.NeedM(relBackend, dmT, "ListKeys")
	if f == nil {
		return
	}
	const (
		kt = "listing: every alive peer gets one task"
		ko = "listing: a task adds its peer's keys or names it as missing"
		kw = "listing: the result is read after every task"
		kc = "listing: the cap is the one asked for, or the default"
		ke = "listing: a bad pattern is an error"
	)
	for _, k := range []string{kt, ko, kw, kc, ke} {
		c.Oblige(k)
	}
	dm := relBackend + ".(*" + dmT + ")."
	opaque := map[string]bool{dm + "alivePeerIDs": true, dm + "localMatchingKeys": true, dm + "loadTransport": true, relBackend + ".buildKeyMatcher": true}
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool {
		n := calleeName(g)
		return opaque[n] || strings.HasPrefix(n, relBackend+".(*"+accT+").")
	}
	pattern, limit := rootParam(f, 2), rootParam(f, 3)
	loop := &turns{tag: "pr", over: func(p *Path, s *Term) bool { return s.isCall(dm + "alivePeerIDs") }, end: func(p *Path, e *Event) {
		if !p.Has("pr/go") {
			c.Fail(kt, e.Pos(), p.Trace(), "a peer of the membership gets no task")
		}
	}}
	tasks := 0
	task := func(p *Path, e *Event, fn *Term) {
		iv, peers := p.Vars["pr"], p.Vars["peers"]
		isPeer := func(t *Term) bool {
			t = stripConv(t)
			return iv != nil && t.op == "load" && t.args[0].op == "idx" && t.args[0].args[0].key == peers.key && t.args[0].args[1].key == iv.key
		}
		outs := evalEvents(x, p, fn, nil, func(q *Path, ev *Event) {
			bad := func(m string, a ...any) { c.Fail(ko, ev.Pos(), q.Trace(), m, a...) }
			switch ev.Kind {
			case "branch":
				if isCmp(ev.Val, "==") && q.Decide(ev.Val) != unknown {
					a, b := ev.Val.args[0], ev.Val.args[1]
					if isPeer(b) {
						a, b = b, a
					}
					if isPeer(a) && b.isLoadOf("Node.ID") {
						q.Set(map[bool]string{true: "self", false: "other"}[q.Decide(ev.Val) == yes])
					}
				}
			case "call":
				switch {
				case ev.Name == dm+"localMatchingKeys":
					setVar(q, "local", ev.Res)
					if m := p.Vars["matcher"]; m == nil || ev.Args[1].key != resAt(m, 0).key {
						bad("the local keys are matched by %v", ev.Args[1])
					}
				case strings.HasSuffix(ev.Name, transpT+".ListKeys"):
					setVar(q, "remote", ev.Res)
					if !isPeer(ev.Args[2]) || ev.Args[3].key != pattern.key {
						bad("the peer asked is %v, for %v", ev.Args[2], ev.Args[3])
					}
				case ev.Name == accM("tryAdd") || ev.Name == accM("markPartial"):
					if q.Has("done") {
						bad("a peer is accounted for twice")
					}
					q.Set("done")
					if a := p.Vars["acc"]; a == nil || ev.Args[0].key != a.key {
						bad("a task adds to %v, not to this listing's result", ev.Args[0])
					}
					l, r := q.Vars["local"], q.Vars["remote"]
					if ev.Name == accM("markPartial") {
						if !isPeer(ev.Args[1]) {
							bad("the peer named as missing is %v", ev.Args[1])
						}
						if l != nil || r != nil && !q.KnownNonNil(resAt(r, 1)) {
							bad("a peer whose keys are there is named as missing")
						}
						return
					}
					switch {
					case l != nil && ev.Args[1].key == l.key:
						if !q.Has("self") {
							bad("another peer's keys are taken from this node")
						}
					case r != nil && ev.Args[1].key == resAt(r, 0).key:
						if !q.KnownNil(resAt(r, 1)) {
							bad("a failed peer's keys are added as if they were all")
						}
					default:
						bad("what is added is %v", ev.Args[1])
					}
				}
			}
		})
		for _, o := range outs {
			tasks++
			if !o.Path.Has("done") {
				c.Fail(ko, e.Pos(), o.Path.Trace(), "a peer's keys are neither added nor is it named as missing")
			}
			for _, r := range o.Res {
				if !o.Path.KnownNil(r) {
					c.Fail(ko, e.Pos(), o.Path.Trace(), "one peer's failure ends the whole listing")
				}
			}
		}
	}
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[1].op == "len" && loop.over(p, e.Val.args[1].args[0]) {
			setVar(p, "peers", e.Val.args[1].args[0])
		}
		if loop.step(p, e) {
			return
		}
		switch e.Kind {
		case "store":
			if e.Addr.isFieldAddr(accT + ".maxKeys") {
				setVar(p, "acc", e.Addr.args[0])
				pos := p.Decide(lt(tInt(0), limit))
				if !(pos == yes && e.Val.key == limit.key || pos == no && isConstInt(e.Val, 10000)) {
					c.Fail(kc, e.Pos(), p.Trace(), "the cap is %v", e.Val)
				}
			}
			if e.Addr.isFieldAddr(accT+".dedup") && e.Val.op != "makemap" {
				c.Fail(kc, e.Pos(), p.Trace(), "the listing starts with %v", e.Val)
			}
		case "call":
			switch {
			case e.Name == relBackend+".buildKeyMatcher":
				setVar(p, "matcher", e.Res)
				if e.Args[0].key != pattern.key {
					c.Fail(ke, e.Pos(), p.Trace(), "the pattern matched is %v", e.Args[0])
				}
			case strings.HasSuffix(e.Name, ").Wait"):
				p.Set("waited")
			case strings.HasSuffix(e.Name, ").Go") && len(e.Args) == 2:
				if !p.Has("pr") || p.Has("pr/go") {
					c.Fail(kt, e.Pos(), p.Trace(), "a task too many")
				}
				p.Set("pr/go")
				task(p, e, e.Args[1])
			case e.Name == accM("result"):
				if !p.Has("waited") || !p.Has("pr.all") {
					c.Fail(kw, e.Pos(), p.Trace(), "the result is read before every task was given out and has ended")
				}
				if a := p.Vars["acc"]; a == nil || e.Args[0].key != a.key {
					c.Fail(kw, e.Pos(), p.Trace(), "the result is that of %v", e.Args[0])
				}
				setVar(p, "res", e.Res)
			}
		case "return":
			m := p.Vars["matcher"]
			if m == nil {
				c.Fail(ke, e.Pos(), p.Trace(), "the pattern is not looked at")
				return
			}
			if p.KnownNonNil(resAt(m, 1)) {
				if !p.KnownNonNil(e.Args[1]) {
					c.Fail(ke, e.Pos(), p.Trace(), "a bad pattern is answered without an error")
				}
				return
			}
			if r := p.Vars["res"]; !p.KnownNil(resAt(m, 1)) || r == nil || e.Args[0].key != r.key || !p.KnownNil(e.Args[1]) {
				c.Fail(kw, e.Pos(), p.Trace(), "the answer is %v, %v", e.Args[0], e.Args[1])
			}
		}
	}
	c.Explore(x, nil)
	c.Check("listing: tasks followed", tasks > 2, f.Pos(), "the tasks of the listing cannot be followed")
}

func (c *Ctx) accRules() {
	locked := func(p *Path, self *Term) bool {
		return p.HeldW(func(t *Term) bool { return t.isFieldAddr(accT+".mu") && t.args[0].key == self.key })
	}
	if f := c.NeedM(relBackend, accT, "tryAdd"); f != nil {
		const k = "merge: every key is taken, unless the cap is reached and that is said"
		const kl = "merge: under its lock"
		c.Oblige(k)
		c.Oblige(kl)
		x := newEngine(c.P, f)
		self, keys := rootParam(f, 0), rootParam(f, 1)
		room := func(p *Path) int {
			n, m := p.Vars["n"], p.Vars["m"]
			if n == nil {
				return unknown
			}
			return p.Decide(lt(n, m))
		}
		atTurn := func(p *Path, t *Term) bool {
			iv := p.Vars["k"]
			return iv != nil && t.op == "load" && t.args[0].op == "idx" && t.args[0].args[1].key == iv.key
		}
		loop := &turns{tag: "k", over: func(p *Path, s *Term) bool { return s.key == keys.key }, end: func(p *Path, e *Event) {
			if !p.Has("k/put") && !p.Has("k/cut") && !p.Has("k/there") {
				c.Fail(k, e.Pos(), p.Trace(), "a key is left out without a word")
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			if loop.step(p, e) {
				return
			}
			switch e.Kind {
			case "branch":
				if e.Val.op == "has" && e.Truth && e.Val.args[0].isLoadOf(accT+".dedup") && atTurn(p, e.Val.args[1]) {
					p.Set("k/there")
				}
				if isCmp(e.Val, "<") && e.Val.args[0].op == "len" && e.Val.args[0].any(func(t *Term) bool { return t.isLoadOf(accT + ".dedup") }) && e.Val.args[1].isLoadOf(accT+".maxKeys") {
					setVar(p, "n", e.Val.args[0])
					setVar(p, "m", e.Val.args[1])
				}
			case "mapupdate":
				if !e.Args[0].isLoadOf(accT + ".dedup") {
					return
				}
				p.Set("k/put")
				if !locked(p, self) {
					c.Fail(kl, e.Pos(), p.Trace(), "the shared set is changed without its lock")
				}
				if !atTurn(p, e.Args[1]) {
					c.Fail(k, e.Pos(), p.Trace(), "the key taken is %v", e.Args[1])
				}
				if room(p) != yes {
					c.Fail(k, e.Pos(), p.Trace(), "a key is taken without a look at the cap")
				}
				delete(p.Vars, "n")
			case "store":
				if !e.Addr.isFieldAddr(accT + ".truncated") {
					return
				}
				p.Set("k/cut")
				p.Set("cut")
				if e.Val.key != tTrue.key || room(p) != no {
					c.Fail(k, e.Pos(), p.Trace(), "the cut flag becomes %v although there may be room", e.Val)
				}
				if !locked(p, self) {
					c.Fail(kl, e.Pos(), p.Trace(), "the cut flag is set without the lock")
				}
			case "return":
				if !p.Has("k.all") && !p.Has("cut") {
					c.Fail(k, e.Pos(), p.Trace(), "keys are left out without a word")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relBackend, accT, "markPartial"); f != nil {
		const k = "merge: a missing peer is remembered"
		c.Oblige(k)
		x := newEngine(c.P, f)
		self, peer := rootParam(f, 0), rootParam(f, 1)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "append":
				if e.Args[0].isLoadOf(accT+".partial") && len(e.Args) == 2 && stripConv(e.Args[1]).key == peer.key {
					setVar(p, "list", e.Res)
				}
			case "store":
				if e.Addr.isFieldAddr(accT + ".partial") {
					l := p.Vars["list"]
					if l == nil || e.Val.key != l.key || !locked(p, self) {
						c.Fail(k, e.Pos(), p.Trace(), "the missing peers become %v", e.Val)
					}
					p.Set("kept")
				}
			case "return":
				if !p.Has("kept") {
					c.Fail(k, e.Pos(), p.Trace(), "the peer is not remembered")
				}
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relBackend, accT, "result"); f != nil {
		const k = "merge: the result has every key once, in order, and both flags"
		c.Oblige(k)
		x := newEngine(c.P, f)
		bad := func(p *Path, e *Event, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "next":
				if e.Args[0].isLoadOf(accT + ".dedup") {
					if p.Has("in") && !p.Has("took") {
						bad(p, e, "a key is left out")
					}
					p.Clear("took")
					p.Set("in")
					setVar(p, "cur", e.Args[1])
				}
			case "branch":
				if e.Val.op == "nextok" && !e.Truth {
					if p.Has("in") {
						p.Set("all")
					}
					p.Clear("in")
				}
			case "append":
				if typeStr(e.Res.typ) != "[]string" {
					return
				}
				if cur := p.Vars["cur"]; cur == nil || !p.Has("in") || p.Has("took") || len(e.Args) != 2 || e.Args[1].key != cur.key {
					bad(p, e, "%v is added to the keys", e.Args[1])
				}
				p.Set("took")
				p.Clear("sorted")
				setVar(p, "list", e.Res)
			case "call":
				if e.Name == "slices.Sort" || e.Name == "sort.Strings" {
					p.Set("sorted")
					setVar(p, "sortlist", e.Args[0])
				}
				if e.Name == "slices.Sorted" || e.Name == "slices.Collect" {
					if e.Args[0].isCall("maps.Keys") && e.Args[0].callArgs()[0].isLoadOf(accT+".dedup") {
						p.Set("all")
						setVar(p, "list", e.Res)
						if e.Name == "slices.Sorted" {
							p.Set("sorted")
							setVar(p, "sortlist", e.Res)
						}
					}
				}
			case "return":
				r := e.Args[0]
				keys := orNil(valField(x, r, "Keys"))
				s := p.Vars["sortlist"]
				if !p.Has("all") || !p.Has("sorted") || s == nil || s.key != keys.key {
					bad(p, e, "the keys are %v, not all of them in order", keys)
				}
				if l := p.Vars["list"]; l != nil && l.key != keys.key {
					bad(p, e, "the keys are %v", keys)
				}
				if v := orNil(valField(x, r, "Truncated")); !v.isLoadOf(accT + ".truncated") {
					bad(p, e, "the cut flag is %v", v)
				}
				if v := orNil(valField(x, r, "PartialNodes")); !v.any(func(t *Term) bool { return t.isLoadOf(accT + ".partial") }) {
					bad(p, e, "the missing peers are %v", v)
				}
			}
		}
		c.Explore(x, nil)
	}
}

func (c *Ctx) alivePeersRule() {
	f := c.NeedM(relBackend, dmT, "alivePeerIDs")
	if f == nil {
		return
	}
	const k = "peers asked: exactly the alive members"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == relCluster+".(*Membership).List" }
	alive := func(p *Path, n *Term) int { return p.Decide(eq(x.fieldByName(p, n, "State"), tInt(0))) }
	over := func(p *Path, s *Term) bool { return s.isCall(relCluster + ".(*Membership).List") }
	cur := func(p *Path) *Term {
		if iv, l := p.Vars["n"], p.Vars["nodes"]; iv != nil && l != nil {
			return mk(&Term{op: "load", args: []*Term{mk(&Term{op: "idx", args: []*Term{l, iv}})}, typ: l.typ.Underlying().(*types.Slice).Elem()})
		}
		return nil
	}
	loop := &turns{tag: "n", over: over, end: func(p *Path, e *Event) {
		if n := cur(p); n != nil && !p.Has("n/app") && !p.KnownNil(n) && alive(p, n) != no {
			c.Fail(k, e.Pos(), p.Trace(), "a member that may be alive is not asked")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[1].op == "len" && over(p, e.Val.args[1].args[0]) {
			setVar(p, "nodes", e.Val.args[1].args[0])
		}
		if loop.step(p, e) {
			return
		}
		switch e.Kind {
		case "append":
			n := cur(p)
			if n == nil {
				return
			}
			if p.Has("n/app") || len(e.Args) != 2 || e.Args[1].key != x.fieldByName(p, n, "ID").key {
				c.Fail(k, e.Pos(), p.Trace(), "%v is asked", e.Args[1])
			}
			if alive(p, n) != yes {
				c.Fail(k, e.Pos(), p.Trace(), "a member that is not alive is asked")
			}
			p.Set("n/app")
			setVar(p, "out", e.Res)
		case "return":
			if p.Vars["nodes"] != nil && !p.Has("n.all") {
				c.Fail(k, e.Pos(), p.Trace(), "not every member is looked at")
			}
			if o := p.Vars["out"]; o != nil && e.Args[0].key != o.key {
				c.Fail(k, e.Pos(), p.Trace(), "the peers are %v", e.Args[0])
			}
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) localKeysRule() {
	f := c.NeedM(relBackend, dmT, "localMatchingKeys")
	if f == nil {
		return
	}
	const k = "keys of this node: every matching key of every shard"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return strings.HasPrefix(calleeName(g), cmapT+".") }
	match := rootParam(f, 1)
	loop := &turns{tag: "s", over: func(p *Path, s *Term) bool { return s.isLoadOf("DistMemory.shards") }, end: func(p *Path, e *Event) {
		if !p.Has("s/walk") && !p.Has("s/nil") {
			c.Fail(k, e.Pos(), p.Trace(), "a shard is left out")
		}
	}}
	n := 0
	x.OnEvent = func(p *Path, e *Event) {
		if loop.step(p, e) {
			return
		}
		switch {
		case e.Kind == "branch" && p.Has("s") && isCmp(e.Val, "==") && e.Val.args[1].isNil() && e.Truth:
			p.Set("s/nil")
		case e.Kind == "return" && !p.Has("s.all"):
			c.Fail(k, e.Pos(), p.Trace(), "the listing ends before the last shard")
		case e.Kind == "call" && strings.HasPrefix(e.Name, "dyn:") && e.Addr.isCall(cmapT+".All") && len(e.Args) == 1:
			p.Set("s/walk")
			if b := e.Addr.callArgs()[0]; !b.isFieldAddr("distShard.items") || p.Vars["s"] == nil || !b.contains(p.Vars["s"]) {
				c.Fail(k, e.Pos(), p.Trace(), "the keys come from %s", short(b))
			}
			fn := e.Args[0].unbox()
			var args []*Term
			for i := 0; fn.fn != nil && i < len(fn.fn.Params); i++ {
				args = append(args, mk(&Term{op: "param", name: "it" + string(rune('0'+i)), typ: fn.fn.Params[i].Type()}))
			}
			for _, o := range evalEvents(x, p, fn, args, func(q *Path, ev *Event) {
				switch {
				case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn:") && ev.Addr.key == match.key:
					setVar(q, "m", ev.Res)
					if ev.Args[0].key != args[0].key {
						c.Fail(k, ev.Pos(), q.Trace(), "the filter is asked about %s", short(ev.Args[0]))
					}
				case ev.Kind == "append":
					if m := q.Vars["m"]; m == nil || !q.IsTrue(m) || q.Has("added") || len(ev.Args) != 2 || ev.Args[1].key != args[0].key {
						c.Fail(k, ev.Pos(), q.Trace(), "%v is listed", ev.Args[1])
					}
					q.Set("added")
				}
			}) {
				n++
				q := o.Path
				if m := q.Vars["m"]; m == nil || q.Has("added") != q.IsTrue(m) {
					c.Fail(k, e.Pos(), q.Trace(), "a matching key is left out")
				}
				if len(o.Res) != 1 || !q.IsTrue(o.Res[0]) {
					c.Fail(k, e.Pos(), q.Trace(), "the walk over a shard ends early")
				}
			}
		}
	}
	c.Explore(x, nil)
	c.Check(k+" (followed)", n > 1, f.Pos(), "the walk over a shard cannot be followed")
}

func (c *Ctx) matcherRule() {
	f := c.NeedF(relBackend, "buildKeyMatcher")
	if f == nil {
		return
	}
	const k = "pattern: all, prefix or glob, and a bad glob is an error"
	c.Oblige(k)
	x := newEngine(c.P, f)
	pat := rootParam(f, 0)
	runs := 0
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if e.Name == "strings.ContainsAny" && e.Args[0].key == pat.key {
				setVar(p, "glob", e.Res)
				if s := strOf(e.Args[1]); !strings.Contains(s, "*") || !strings.Contains(s, "?") || !strings.Contains(s, "[") {
					c.Fail(k, e.Pos(), p.Trace(), "globs are told by %q", s)
				}
			}
			if e.Name == "path.Match" && e.Args[0].key == pat.key {
				setVar(p, "valid", e.Res)
			}
		case "branch":
			e.Val.any(func(t *Term) bool {
				if t.op == "pcall" && t.name == "strings.ContainsAny" && t.args[0].key == pat.key {
					setVar(p, "glob", t)
				}
				return false
			})
		case "return":
			v := p.Vars["valid"]
			empty := p.Decide(eq(pat, tStr("")))
			if v != nil && p.KnownNonNil(resAt(v, 1)) {
				if !p.KnownNonNil(e.Args[1]) {
					c.Fail(k, e.Pos(), p.Trace(), "a malformed glob is accepted")
				}
				return
			}
			if !p.KnownNil(e.Args[1]) {
				c.Fail(k, e.Pos(), p.Trace(), "a well-formed pattern is refused")
				return
			}
			fn := e.Args[0].unbox()
			key := mk(&Term{op: "param", name: "key", typ: types.Typ[types.String]})
			g := p.Vars["glob"]
			for _, o := range evalEvents(x, p, fn, []*Term{key}, func(q *Path, ev *Event) {
				if ev.Kind == "call" && ev.Name == "path.Match" {
					setVar(q, "m", ev.Res)
					if ev.Args[0].key != pat.key || ev.Args[1].key != key.key {
						c.Fail(k, ev.Pos(), q.Trace(), "%v is matched against %v", ev.Args[1], ev.Args[0])
					}
				}
			}) {
				runs++
				q := o.Path
				bad := func(m string, a ...any) { c.Fail(k, e.Pos(), q.Trace(), m, a...) }
				r := o.Res[0]
				switch {
				case empty == yes:
					if !q.IsTrue(r) {
						bad("without a pattern a key may be left out")
					}
				case empty == no && g != nil && p.Decide(g) == no:
					if !r.any(func(t *Term) bool {
						return t.name == "strings.HasPrefix" && len(t.callArgs()) == 2 && t.callArgs()[0].key == key.key && t.callArgs()[1].key == pat.key
					}) {
						bad("a prefix is matched by %v", r)
					}
				case g != nil && p.Decide(g) == yes:
					m := q.Vars["m"]
					if v == nil {
						bad("a glob is not validated")
					}
					if m == nil {
						bad("a glob is matched by %v", r)
						break
					}
					if !(r.key == resAt(m, 0).key && (q.KnownNil(resAt(m, 1)) || true) || q.IsFalse(r) && (q.KnownNonNil(resAt(m, 1)) || q.IsFalse(resAt(m, 0))) || q.IsTrue(r) && q.IsTrue(resAt(m, 0))) {
						bad("a glob's verdict is %v", r)
					}
				default:
					bad("the kind of the pattern is not looked at")
				}
			}
		}
	}
	c.Explore(x, nil)
	c.Check(k+" (followed)", runs > 2, f.Pos(), "the filters cannot be followed")
}

func (c *Ctx) remoteKeysRule() {
	if f := c.NeedM(relBackend, "InProcessTransport", "ListKeys"); f != nil {
		const k = "in-process peer: its matching keys, or an error"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.NoInline = func(g *ssa.Function) bool {
			n := calleeName(g)
			return n == relBackend+".buildKeyMatcher" || n == relBackend+".(*"+dmT+").localMatchingKeys"
		}
		id, pat := rootParam(f, 2), rootParam(f, 3)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "lookup":
				if e.Args[1].key == id.key {
					p.Set("looked")
				}
			case "call":
				switch {
				case e.Name == relBackend+".buildKeyMatcher":
					setVar(p, "m", e.Res)
					if e.Args[0].key != pat.key {
						c.Fail(k, e.Pos(), p.Trace(), "the pattern is %v", e.Args[0])
					}
				case strings.HasSuffix(e.Name, ".localMatchingKeys"):
					setVar(p, "keys", e.Res)
					if m := p.Vars["m"]; m == nil || !p.KnownNil(resAt(m, 1)) || e.Args[1].key != resAt(m, 0).key || !e.Args[0].contains(id) {
						c.Fail(k, e.Pos(), p.Trace(), "the keys are those of %v matching %v", e.Args[0], e.Args[1])
					}
				}
			case "return":
				ks := p.Vars["keys"]
				if p.KnownNil(e.Args[1]) {
					if ks == nil || e.Args[0].key != ks.key {
						c.Fail(k, e.Pos(), p.Trace(), "the keys are %v", e.Args[0])
					}
				} else if !p.KnownNonNil(e.Args[1]) || ks != nil {
					c.Fail(k, e.Pos(), p.Trace(), "the error is %v", e.Args[1])
				}
			}
		}
		c.Explore(x, nil)
	}
	f := c.NeedM(relBackend, "DistHTTPTransport", "ListKeys")
	if f == nil {
		return
	}
	const k = "remote peer: every page to the last, or an error"
	c.Oblige(k)
	x := newEngine(c.P, f)
	page := relBackend + ".(*DistHTTPTransport).listKeysPage"
	x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == page }
	if c.NeedM(relBackend, "DistHTTPTransport", "listKeysPage") == nil {
		return
	}
	id, pat := rootParam(f, 2), rootParam(f, 3)
	last := func(p *Path) *Term {
		if r := p.Vars["page"]; r != nil {
			return valField(x, resAt(r, 0), "NextCursor")
		}
		return nil
	}
	bad := func(p *Path, pos token.Pos, m string, a ...any) { c.Fail(k, pos, p.Trace(), m, a...) }
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "precall":
			if e.Name != page {
				return
			}
			if e.Args[2].key != id.key || e.Args[4].key != pat.key {
				bad(p, e.Pos(), "the page asked for is of %v, matching %v", e.Args[2], e.Args[4])
			}
			cur := e.Args[3]
			if n := last(p); n == nil {
				if s, ok := cur.strConst(); !ok || s != "" {
					bad(p, e.Pos(), "the first page starts at %v", cur)
				}
			} else {
				if cur.key != n.key && cur.op != "wide" {
					bad(p, e.Pos(), "the next page starts at %v", cur)
				}
				if !p.Has("kept") {
					bad(p, e.Pos(), "a page's keys are dropped")
				}
			}
			p.Clear("kept")
		case "call":
			if e.Name == page {
				setVar(p, "page", e.Res)
			}
		case "append":
			if r := p.Vars["page"]; r != nil && len(e.Args) == 2 && e.Args[1].op == "spread" && e.Args[1].contains(resAt(r, 0)) {
				if p.Has("kept") {
					bad(p, e.Pos(), "a page's keys are added twice")
				}
				p.Set("kept")
			}
		case "return":
			if p.KnownNonNil(e.Args[1]) {
				return
			}
			if n := last(p); !p.KnownNil(e.Args[1]) || n == nil || p.Decide(eq(n, tStr(""))) != yes {
				bad(p, e.Pos(), "the listing may end before the last page and yet report success")
			} else if !p.Has("kept") {
				bad(p, e.Pos(), "the last page's keys are dropped")
			}
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) clusterKeysRule() {
	f := c.NeedM("", "HyperCache", "ClusterKeys")
	if f == nil {
		return
	}
	const k = "the cache hands the listing on"
	c.Oblige(k)
	x := newEngine(c.P, f)
	list := relBackend + ".(*" + dmT + ").ListKeys"
	x.NoInline = func(g *ssa.Function) bool { return calleeName(g) == list }
	pat, limit := rootParam(f, 2), rootParam(f, 3)
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if e.Name == list {
				setVar(p, "r", e.Res)
				if e.Args[2].key != pat.key || e.Args[3].key != limit.key {
					c.Fail(k, e.Pos(), p.Trace(), "what is listed is %v, %v", e.Args[2], e.Args[3])
				}
			}
		case "return":
			r := p.Vars["r"]
			switch {
			case r == nil:
				if !p.KnownNil(e.Args[0]) || !p.KnownNil(e.Args[1]) {
					c.Fail(k, e.Pos(), p.Trace(), "without a listing the answer is %v", e.Args[0])
				}
			case p.KnownNonNil(resAt(r, 1)):
				if !carries(e.Args[1], resAt(r, 1)) {
					c.Fail(k, e.Pos(), p.Trace(), "a failed listing is reported as %v", e.Args[1])
				}
			case p.KnownNil(resAt(r, 1)):
				if v := x.Load(p, e.Args[0], derefT(e.Args[0].typ)); !p.KnownNil(e.Args[1]) || v.key != resAt(r, 0).key {
					c.Fail(k, e.Pos(), p.Trace(), "the listing handed on is %v, %v", v, e.Args[1])
				}
			default:
				c.Fail(k, e.Pos(), p.Trace(), "the listing's error is not looked at")
			}
		}
	}
	c.Explore(x, nil)
}
