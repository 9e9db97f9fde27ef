package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relCmap = "pkg/cache/v2"
	cmT     = "ConcurrentMap"
	shT     = "ConcurrentMapShard"
)

func init() {
	register(&Property{ID: "M01", Level: "proof", MinObl: 60, Run: runM01,
		Explain: "All paths of every method of the sharded map, for an arbitrary key: the shard used is the same function of the key in all of them and in range; entries and count are touched under that shard's own lock, released on every path; at every release the count has moved by exactly the change of membership; and the effect and answer of each method is that of a map."})
	register(&Property{ID: "M02", Level: "proof", MinObl: 12, Run: runM02,
		Explain: "All paths of the item's methods and of its pool: validity and expiry decisions with the fields they rest on, what a touch changes, the size recorded for each kind of value and its failure, and that an item given back to the pool keeps nothing."})
}

var siteRE = regexp.MustCompile(`@[0-9]+'*`)

// cmapWatch follows one shard's entries and count along a path.
type cmapWatch struct {
	c    *Ctx
	m    string
	x    *Engine
	key  *Term
	form map[string]string // normal form of the shard index -> method
}

func (w *cmapWatch) fail(k string, p *Path, e *Event, f string, a ...any) {
	w.c.Fail(w.m+": "+k, e.Pos(), p.Trace(), f, a...)
}

// shardOfItems: the shard whose entries t is.
func shardOfItems(t *Term) *Term {
	if t != nil && t.isLoadOf(shT+".items") {
		return loadBase(t)
	}
	return nil
}

func (w *cmapWatch) held(p *Path, sh *Term, write bool) bool {
	is := func(t *Term) bool { return t.isFieldAddr(shT+".RWMutex") && t.args[0].unbox().key == sh.unbox().key }
	if write {
		return p.HeldW(is)
	}
	return p.HeldRW(is)
}

// shardIdx: the index under which a shard is taken from the map's list.
func shardIdx(sh *Term) *Term {
	if sh.op == "load" && sh.args[0].op == "idx" && sh.args[0].args[0].isLoadOf(cmT+".shards") {
		return sh.args[0].args[1]
	}
	return nil
}

// keyed: the shard is the key's.
func (w *cmapWatch) keyed(p *Path, e *Event, sh *Term) {
	ix := shardIdx(sh)
	if ix == nil {
		w.fail("the key's shard", p, e, "it uses the shard %s", short(sh))
		return
	}
	n := siteRE.ReplaceAllString(ix.key, "")
	bad := false
	hashes := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if h := p.Vars["hash|"+t.key]; h != nil {
			hashes++
			if h.key != w.key.key {
				bad = true
			}
			return
		}
		switch t.op {
		case "bin", "conv", "not", "neg", "const":
		default:
			bad = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(ix)
	if bad || hashes == 0 {
		w.fail("the key's shard", p, e, "the shard index %s is not a function of the key's hash alone", short(ix))
		return
	}
	u := ix
	for u.op == "conv" {
		u = u.args[0]
	}
	lim := int64(-1)
	if u.op == "bin" && len(u.args) == 2 {
		for i := 0; i < 2; i++ {
			if v, ok := u.args[i].intConst(); ok && v >= 0 {
				if u.name == "&" {
					lim = v
				} else if u.name == "%" && i == 1 {
					lim = v - 1
				}
			}
		}
	}
	w.form[fmt.Sprintf("%s|%d", n, lim)] = w.m
}

func (w *cmapWatch) delta(p *Path) int64 {
	if d := p.Vars["d"]; d != nil {
		n, _ := d.intConst()
		return n
	}
	return 0
}

func (w *cmapWatch) add(p *Path, n int64) {
	p.Vars["d"] = tInt(w.delta(p) + n)
}

// pend: the entry changed before it is known whether it was there; settle
// counts the change once that is known.
func (w *cmapWatch) pend(p *Path, f string) {
	p.Set("sync")
	if s := p.Vars["seen"]; s != nil && p.Vars["cond"] == nil {
		p.Vars["cond"] = s
		p.Set(f)
	}
}

func (w *cmapWatch) settle(p *Path) {
	cd := p.Vars["cond"]
	if cd == nil {
		return
	}
	d := p.Decide(cd)
	if d == unknown {
		return
	}
	if p.Has("put?") && d == no {
		w.add(p, 1)
	}
	if p.Has("del?") && d == yes {
		w.add(p, -1)
	}
	p.Clear("put?")
	p.Clear("del?")
	p.Clear("sync")
	delete(p.Vars, "cond")
}

func (w *cmapWatch) on(p *Path, e *Event) {
	const kc, kl = "count moves with membership", "only under the shard's lock"
	switch e.Kind {
	case "call":
		switch {
		case e.Name == relCmap+".Hash" && e.Res != nil && len(e.Args) == 1:
			p.Vars["hash|"+e.Res.key] = e.Args[0]
		case strings.HasPrefix(e.Name, "sync/atomic.(*Int64).") && e.Args[0].isFieldAddr(shT+".count"):
			m := strings.TrimPrefix(e.Name, "sync/atomic.(*Int64).")
			if m == "Load" {
				return
			}
			sh := e.Args[0].args[0].unbox()
			if !w.held(p, sh, true) {
				w.fail(kl, p, e, "the count of %s is changed without its lock", short(sh))
			}
			switch m {
			case "Add":
				n, ok := e.Args[1].intConst()
				if !ok {
					w.fail(kc, p, e, "the count changes by %s", short(e.Args[1]))
					return
				}
				w.add(p, -n)
			case "Store":
				v := e.Args[1]
				for v.op == "conv" {
					v = v.args[0]
				}
				if n, ok := v.intConst(); ok && n == 0 {
					p.Set("zeroed")
					return
				}
				if v.op == "len" && shardOfItems(v.args[0]) != nil && shardOfItems(v.args[0]).key == sh.key && !p.Has("moved") {
					p.Vars["d"] = tInt(0)
					p.Clear("sync")
					p.Set("counted")
					return
				}
				w.fail(kc, p, e, "the count becomes %s", short(v))
			default:
				w.fail(kc, p, e, "the count is changed by %s", m)
			}
		}
	case "lookup", "next":
		if sh := shardOfItems(e.Args[0]); sh != nil {
			if !w.held(p, sh, false) {
				w.fail(kl, p, e, "entries of %s are read without its lock", short(sh))
			}
			if e.Kind == "lookup" {
				if w.key != nil {
					w.keyed(p, e, sh)
					if e.Args[1].key != w.key.key {
						w.fail("the key's entry", p, e, "it looks up %s", short(e.Args[1]))
					}
				}
				p.Vars["seen"] = mk(&Term{op: "has", args: e.Res.args, typ: types.Typ[types.Bool]})
				p.Vars["item"] = e.Res
			}
		}
	case "load":
		lk := e.Addr
		if lk.op == "field" {
			lk = lk.args[0]
		}
		if lk.op == "lookup" {
			if sh := shardOfItems(lk.args[0]); lk.op == "lookup" && sh != nil && !w.held(p, sh, false) {
				w.fail(kl, p, e, "an entry is read after its shard's lock is released")
			}
		}
	case "store":
		if e.Addr.isFieldAddr(shT + ".items") {
			if freshBase(e.Addr) {
				return
			}
			sh := e.Addr.args[0].unbox()
			if !w.held(p, sh, true) {
				w.fail(kl, p, e, "the entries of %s are replaced without its lock", short(sh))
			}
			if e.Val.op != "makemap" {
				w.fail(kc, p, e, "the entries become %s", short(e.Val))
			}
			p.Set("emptied")
		}
	case "mapupdate", "delete", "clear":
		sh := shardOfItems(e.Args[0])
		if sh == nil {
			return
		}
		if !w.held(p, sh, true) {
			w.fail(kl, p, e, "entries of %s are changed without its lock", short(sh))
		}
		if e.Kind == "clear" {
			p.Set("emptied")
			return
		}
		if w.key != nil {
			w.keyed(p, e, sh)
			if e.Args[1].key != w.key.key {
				w.fail("the key's entry", p, e, "it changes the entry %s", short(e.Args[1]))
			}
		}
		p.Set(e.Kind)
		st := unknown
		if s := p.Vars["seen"]; s != nil {
			st = p.Decide(s)
		}
		if e.Kind == "mapupdate" {
			p.Vars["put"] = e.Args[2]
			switch st {
			case no:
				w.add(p, 1)
			case unknown:
				w.pend(p, "put?")
			}
		} else {
			switch st {
			case yes:
				w.add(p, -1)
			case unknown:
				w.pend(p, "del?")
			}
		}
	case "branch":
		w.settle(p)
	case "lock":
		for _, v := range []string{"d", "seen", "cond"} {
			delete(p.Vars, v)
		}
		for _, f := range []string{"sync", "put?", "del?", "emptied", "zeroed", "counted", "moved"} {
			p.Clear(f)
		}
	case "unlock":
		if !e.Addr.isFieldAddr(shT + ".RWMutex") {
			return
		}
		w.settle(p)
		if p.Has("emptied") != p.Has("zeroed") && !p.Has("counted") {
			w.fail(kc, p, e, "entries and count are not emptied together")
		}
		if !p.Has("emptied") && (w.delta(p) != 0 || p.Has("sync")) {
			w.fail(kc, p, e, "the lock is released with a count that does not match the entries (off by %d)", w.delta(p))
		}
		delete(p.Vars, "seen")
		delete(p.Vars, "d")
		p.Clear("sync")
		p.Set("released")
	}
}

func runM01(c *Ctx) {
	hash := c.NeedF(relCmap, "Hash")
	if hash == nil {
		return
	}
	var roots []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg == hash.Pkg && f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	c.runLocks(relCmap, roots, lockRules{NoBlock: true})
	form := map[string]string{}
	noHash := func(g *ssa.Function) bool { return g == hash }
	type judge func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any))
	keyed := func(m string, extra func(w *cmapWatch, p *Path, e *Event), j judge) {
		f := c.NeedM(relCmap, cmT, m)
		if f == nil {
			return
		}
		for _, k := range []string{"the key's shard", "the key's entry", "only under the shard's lock", "count moves with membership", "effect and answer"} {
			c.Oblige(m + ": " + k)
		}
		x := newEngine(c.P, f)
		x.NoInline = noHash
		w := &cmapWatch{c: c, m: m, x: x, form: form}
		x.OnEvent = func(p *Path, e *Event) {
			w.on(p, e)
			if extra != nil {
				extra(w, p, e)
			}
			switch e.Kind {
			case "return":
				if p.Vars["seen"] == nil && p.Vars["item"] == nil && !p.Has("mapupdate") && !p.Has("delete") {
					w.fail("effect and answer", p, e, "it returns without looking at the key's entry")
					return
				}
				j(w, p, e, e.Args, func(f2 string, a ...any) { w.fail("effect and answer", p, e, f2, a...) })
			case "panic":
				w.fail("effect and answer", p, e, "it panics")
			case "go":
				w.fail("effect and answer", p, e, "it starts a goroutine")
			}
		}
		c.Explore(x, func(p *Path, in []*Term) {
			w.key = in[1]
			if !isStringT(w.key.typ) {
				c.failAt("anchor "+m, c.P.pos(f.Pos()), "", "its first argument is not a key")
			}
		})
	}
	// has: the outcome of the last look at the key's entry
	has := func(p *Path) int {
		if it := p.Vars["item"]; it != nil {
			return p.Decide(mk(&Term{op: "has", args: it.args, typ: types.Typ[types.Bool]}))
		}
		return unknown
	}
	isHas := func(p *Path, t *Term) bool {
		it := p.Vars["item"]
		return it != nil && t.op == "has" && t.args[1].key == it.args[1].key
	}
	okIs := func(p *Path, t *Term) bool {
		if isHas(p, t) {
			return true
		}
		switch has(p) {
		case yes:
			return p.IsTrue(t)
		case no:
			return p.IsFalse(t)
		}
		return false
	}
	unchanged := func(p *Path, fail func(f string, a ...any)) {
		if p.Has("mapupdate") || p.Has("delete") || p.Has("emptied") {
			fail("a reader changes the entries")
		}
	}
	keyed("Set", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		if v := p.Vars["put"]; v == nil || v.key != rootParam(w.x.Root, 2).key {
			fail("the entry becomes %s", short(v))
		}
		if p.Has("delete") {
			fail("the entry is removed")
		}
	})
	keyed("Get", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		unchanged(p, fail)
		it := p.Vars["item"]
		if has(p) == no && r[0].isNil() && p.IsFalse(r[1]) {
			return
		}
		if it == nil || r[0].key != it.key || !okIs(p, r[1]) {
			fail("it answers (%s, %s)", short(r[0]), short(r[1]))
		}
	})
	keyed("GetCopy", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		unchanged(p, fail)
		it := p.Vars["item"]
		switch has(p) {
		case no:
			if !r[0].isNil() || !p.IsFalse(r[1]) {
				fail("an absent key is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case yes:
			if !p.IsTrue(r[1]) || r[0].op != "alloc" {
				fail("a present key is answered with (%s, %s), not a private copy", short(r[0]), short(r[1]))
				return
			}
			st := structOf(derefT(r[0].typ))
			for i := 0; st != nil && i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				v := w.x.fieldByName(p, r[0], n)
				if !v.fieldOf("Item."+n, it) {
					fail("%s of the copy is %s", n, short(v))
				}
			}
		default:
			fail("it answers without knowing whether the key is there")
		}
	})
	keyed("Has", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		unchanged(p, fail)
		if !okIs(p, r[0]) {
			fail("it answers %s", short(r[0]))
		}
	})
	keyed("Pop", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		it := p.Vars["item"]
		switch has(p) {
		case no:
			if !r[0].isNil() || !okIs(p, r[1]) || p.Has("mapupdate") {
				fail("an absent key is answered with (%s, %s)", short(r[0]), short(r[1]))
			}
		case yes:
			if r[0].key != it.key || !okIs(p, r[1]) || !p.Has("delete") || p.Has("mapupdate") {
				fail("a present key is answered with (%s, %s), removed: %v", short(r[0]), short(r[1]), p.Has("delete"))
			}
		default:
			if r[0].key != it.key || !isHas(p, r[1]) || !p.Has("delete") || p.Has("mapupdate") {
				fail("it answers (%s, %s), removed: %v", short(r[0]), short(r[1]), p.Has("delete"))
			}
		}
	})
	keyed("Remove", nil, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		if p.Has("mapupdate") || !p.Has("delete") && has(p) != no {
			fail("the entry is not removed")
		}
	})
	keyed("Touch", func(w *cmapWatch, p *Path, e *Event) {
		if e.Kind != "store" || e.Addr.op != "field" {
			return
		}
		it := p.Vars["item"]
		if it == nil || e.Addr.args[0].key != it.key {
			if e.Addr.root().op != "alloc" {
				w.fail("effect and answer", p, e, "it writes %s", short(e.Addr))
			}
			return
		}
		if sh := shardOfItems(it.args[0]); sh == nil || !w.held(p, sh, true) {
			w.fail("only under the shard's lock", p, e, "the entry is changed without its shard's lock")
		}
		f := strings.TrimPrefix(e.Addr.name, "Item.")
		switch {
		case f == "LastAccess" && e.Val.isCall("time.Now"):
			p.Set("la")
		case f == "AccessCount" && isPlusOne(e.Val, func(t *Term) bool { return t.isLoadOf("Item.AccessCount") && loadBase(t).key == it.key }) && !p.Has("ac"):
			p.Set("ac")
		default:
			w.fail("effect and answer", p, e, "%s becomes %s", f, short(e.Val))
		}
	}, func(w *cmapWatch, p *Path, e *Event, r []*Term, fail func(f string, a ...any)) {
		unchanged(p, fail)
		switch has(p) {
		case yes:
			if !p.IsTrue(r[0]) && !isHas(p, r[0]) || !p.Has("la") || !p.Has("ac") {
				fail("a present key: answer %s, last access renewed: %v, access counted: %v", short(r[0]), p.Has("la"), p.Has("ac"))
			}
		case no:
			if !p.IsFalse(r[0]) && !isHas(p, r[0]) || p.Has("la") || p.Has("ac") {
				fail("an absent key is answered with %s", short(r[0]))
			}
		default:
			fail("it answers without knowing whether the key is there")
		}
	})
	// one function from key to shard, in range
	c.Oblige("one shard per key in every method")
	if len(form) > 1 {
		c.Fail("one shard per key in every method", hash.Pos(), "", "methods disagree about the shard of a key: %s", strings.Join(sortedKeys(form), " / "))
	}
	n := c.shardCount()
	c.Oblige("shard index in range")
	for _, f := range sortedKeys(form) {
		var lim int64
		fmt.Sscanf(f[strings.LastIndex(f, "|")+1:], "%d", &lim)
		if lim < 0 || n <= 0 || lim >= n {
			c.Fail("shard index in range", hash.Pos(), "", "the index %s can reach %d and there are %d shards", f, lim, n)
		}
	}
	c.cmapClear(form)
	c.cmapCount()
	c.cmapAll()
}

func isPlusOne(t *Term, of func(*Term) bool) bool {
	if t.op != "bin" || t.name != "+" {
		return false
	}
	return of(t.args[0]) && isOneInt(t.args[1]) || of(t.args[1]) && isOneInt(t.args[0])
}

// shardCount: how many shards a new map has; every one of them is made.
func (c *Ctx) shardCount() int64 {
	f := c.NeedF(relCmap, "New")
	if f == nil {
		return 0
	}
	k := "New: every shard is made, empty"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "store":
			switch {
			case e.Addr.isFieldAddr(shT + ".items"):
				if e.Val.op != "makemap" || e.Addr.args[0].op != "alloc" {
					c.Fail(k, e.Pos(), p.Trace(), "a shard's entries are %s", short(e.Val))
					return
				}
				p.Set("has|" + e.Addr.args[0].key)
			case e.Addr.op == "idx" && e.Val.typ != nil && strings.HasSuffix(typeStr(e.Val.typ), shT):
				if e.Val.op != "alloc" || !p.Has("has|"+e.Val.key) {
					p.Vars["late|"+e.Val.key] = e.Val
				}
				if !isIv(e.Addr.args[1]) {
					c.Fail(k, e.Pos(), p.Trace(), "shard %s is set", short(e.Addr.args[1]))
				}
				p.Set("set")
			}
		case "mapupdate":
			c.Fail(k, e.Pos(), p.Trace(), "a new map has entries")
		case "append":
			p.Set("append")
		case "branch":
			if isCmp(e.Val, "<") && (isIv(e.Val.args[0]) || e.Val.args[0].op == "bin") {
				if p.Has("turn") && !p.Has("set") && !p.Has("append") {
					c.Fail(k, e.Pos(), p.Trace(), "a shard is left out")
				}
				p.Clear("turn")
				p.Clear("set")
				for v, t := range p.Vars {
					if strings.HasPrefix(v, "late|") {
						if !p.Has("has|" + t.key) {
							c.Fail(k, e.Pos(), p.Trace(), "a shard has no entries map")
						}
						delete(p.Vars, v)
					}
				}
				if e.Truth {
					p.Set("turn")
				}
				p.Vars["bound"] = e.Val.args[1]
			}
		case "call":
			if strings.HasPrefix(e.Name, "sync/atomic.(*Int64).") && e.Args[0].isFieldAddr(shT+".count") && !strings.HasSuffix(e.Name, ".Load") {
				if n, ok := e.Args[len(e.Args)-1].intConst(); !ok || n != 0 {
					c.Fail(k, e.Pos(), p.Trace(), "a new shard counts %s", short(e.Args[len(e.Args)-1]))
				}
			}
		}
	}
	var n int64
	for _, o := range c.Explore(x, nil) {
		v := o.Res[0]
		if v.op == "load" {
			v = v.args[0]
		}
		var sl *Term
		if o.Res[0].op == "struct" {
			sl = o.Res[0].args[0]
		} else {
			sl = x.fieldByName(o.Path, v, "shards")
		}
		if sl == nil {
			c.Fail(k, f.Pos(), o.Path.Trace(), "the shards of %s are not known", short(o.Res[0]))
			continue
		}
		m := int64(-1)
		switch {
		case sl.op == "slice" && len(sl.args) == 1 && sl.args[0].op == "alloc":
			if at, ok := derefT(sl.args[0].typ).Underlying().(*types.Array); ok {
				m = at.Len()
			}
		case sl.op == "makeslice" && len(sl.attr) > 0:
			if v, ok := sl.attr[0].intConst(); ok {
				m = v
			}
		case o.Path.Has("append") && o.Path.Vars["bound"] != nil:
			if v, ok := o.Path.Vars["bound"].intConst(); ok {
				m = v
			}
		}
		if m < 0 || n != 0 && n != m {
			c.Fail(k, f.Pos(), o.Path.Trace(), "a new map has the shards %s", short(sl))
			continue
		}
		n = m
	}
	return n
}

// cmapClear: every shard is emptied.
func (c *Ctx) cmapClear(form map[string]string) {
	f := c.NeedM(relCmap, cmT, "Clear")
	if f == nil {
		return
	}
	for _, k := range []string{"only under the shard's lock", "count moves with membership", "every shard is emptied"} {
		c.Oblige("Clear: " + k)
	}
	x := newEngine(c.P, f)
	w := &cmapWatch{c: c, m: "Clear", x: x, form: form}
	tr := &turns{tag: "s", over: overShards, end: func(p *Path, e *Event) {
		if !p.Has("s/emptied") {
			w.fail("every shard is emptied", p, e, "a shard is left as it is")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		tr.step(p, e)
		w.on(p, e)
		switch e.Kind {
		case "store":
			if e.Addr.isFieldAddr(shT+".items") && w.cur(p, e.Addr.args[0]) {
				p.Set("s/emptied")
			}
		case "clear":
			if sh := shardOfItems(e.Args[0]); sh != nil && w.cur(p, sh) {
				p.Set("s/emptied")
			}
		case "return":
			if !p.Has("s.all") {
				w.fail("every shard is emptied", p, e, "it returns before all shards are emptied")
			}
		case "panic":
			w.fail("every shard is emptied", p, e, "it panics")
		}
	}
	c.Explore(x, nil)
}

func overShards(p *Path, s *Term) bool { return s.isLoadOf(cmT + ".shards") }

// cur: sh is the shard of the loop's present turn.
func (w *cmapWatch) cur(p *Path, sh *Term) bool {
	ix := shardIdx(sh.unbox())
	return ix != nil && p.Vars["s"] != nil && ix.key == p.Vars["s"].key
}

// cmapCount: the sum of the shards' counts.
func (c *Ctx) cmapCount() {
	f := c.NeedM(relCmap, cmT, "Count")
	if f == nil {
		return
	}
	k := "Count: the sum over all shards"
	c.Oblige(k)
	x := newEngine(c.P, f)
	w := &cmapWatch{c: c, m: "Count", x: x}
	tr := &turns{tag: "s", over: overShards, end: func(p *Path, e *Event) {
		if !p.Has("s/added") {
			c.Fail(k, e.Pos(), p.Trace(), "a shard is not counted")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		tr.step(p, e)
		switch e.Kind {
		case "call":
			if e.Name == "sync/atomic.(*Int64).Load" && e.Args[0].isFieldAddr(shT+".count") && w.cur(p, e.Args[0].args[0]) {
				p.Vars["s/count"] = e.Res
			}
		case "advance":
			if e.Addr.op != "ivz" && e.Addr.op != "ivp" && e.Addr.op != "wide" {
				return
			}
			if !e.Truth {
				if n, ok := e.Val.intConst(); ok && n == 0 {
					p.Set("sum|" + e.Addr.key)
				}
				return
			}
			if !p.Has("sum|" + e.Addr.key) {
				return
			}
			n := p.Vars["s/count"]
			v := e.Val
			strip := func(t *Term) *Term {
				for t.op == "conv" {
					t = t.args[0]
				}
				return t
			}
			if n != nil && v.op == "bin" && v.name == "+" &&
				(strip(v.args[0]).key == n.key && v.args[1].key == e.Addr.key || strip(v.args[1]).key == n.key && v.args[0].key == e.Addr.key) {
				if p.Has("s/added") {
					c.Fail(k, e.Pos(), p.Trace(), "a shard is counted twice")
				}
				p.Set("s/added")
				return
			}
			c.Fail(k, e.Pos(), p.Trace(), "the sum becomes %s", short(v))
		case "return":
			v := e.Args[0]
			for v.op == "conv" {
				v = v.args[0]
			}
			if !p.Has("s.all") || !p.Has("sum|"+v.key) {
				c.Fail(k, e.Pos(), p.Trace(), "it answers %s (all shards added: %v)", short(v), p.Has("s.all"))
			}
		}
	}
	c.Explore(x, nil)
}

// cmapAll: the iterator visits every entry once and stops when told to.
func (c *Ctx) cmapAll() {
	f := c.NeedM(relCmap, cmT, "All")
	if f == nil {
		return
	}
	ks := []string{"every shard and entry", "each entry as it is, once", "stops when told to", "under the shard's lock"}
	for _, k := range ks {
		c.Oblige("All: " + k)
	}
	x := newEngine(c.P, f)
	w := &cmapWatch{c: c, m: "All", x: x}
	var recv *Term
	yield := mk(&Term{op: "param", name: "yield", typ: types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "k", types.Typ[types.String])), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)})
	tr := &turns{tag: "s", over: overShards, end: func(p *Path, e *Event) {
		if !p.Has("s/done") {
			w.fail(ks[0], p, e, "a shard is not (fully) visited")
		}
	}}
	for _, o := range c.Explore(x, func(p *Path, in []*Term) { recv = in[0] }) {
		_ = recv
		outs := evalEvents(x, o.Path, o.Res[0], []*Term{yield}, func(p *Path, e *Event) {
			tr.step(p, e)
			switch e.Kind {
			case "next":
				if sh := shardOfItems(e.Args[0]); sh != nil {
					if !w.held(p, sh, false) {
						w.fail(ks[3], p, e, "entries are walked without the shard's lock")
					}
					if !w.cur(p, sh) {
						w.fail(ks[0], p, e, "the entries of %s are walked", short(sh))
					}
					p.Vars["s/k"], p.Vars["s/v"] = e.Args[1], e.Args[2]
				}
			case "branch":
				if y := p.Vars["y"]; y != nil && e.Val.key == y.key {
					if e.Truth {
						p.Set("go on")
						p.Clear("stop")
					} else {
						p.Set("stop")
					}
				}
				if e.Val.op == "nextok" && len(e.Val.attr) > 0 && shardOfItems(e.Val.attr[0]) != nil {
					if p.Has("entry") && !p.Has("yielded") {
						w.fail(ks[0], p, e, "an entry is skipped")
					}
					if p.Has("stop") || p.Has("yielded") && !p.Has("go on") {
						w.fail(ks[2], p, e, "it goes on after the consumer stopped it")
					}
					for _, q := range []string{"entry", "yielded", "go on"} {
						p.Clear(q)
					}
					if e.Truth {
						p.Set("entry")
					} else {
						p.Set("s/done")
					}
				}
				if isCmp(e.Val, "==") && e.Truth {
					for i := 0; i < 2; i++ {
						if e.Val.args[i].op == "len" && overShards(p, e.Val.args[i].args[0]) && isZeroInt(e.Val.args[1-i]) {
							p.Set("none")
						}
					}
				}
			case "precall":
				if e.Name != "dyn:param:yield" {
					return
				}
				if p.Has("stop") || p.Has("yielded") {
					w.fail(ks[2], p, e, "it yields again")
				}
				k, v := p.Vars["s/k"], p.Vars["s/v"]
				if !p.Has("entry") || k == nil || e.Args[0].key != k.key || e.Args[1].key != v.key {
					w.fail(ks[1], p, e, "it yields (%s, %s)", short(e.Args[0]), short(e.Args[1]))
				}
			case "call":
				if e.Name == "dyn:param:yield" {
					p.Set("yielded")
					p.Vars["y"] = e.Res
				}
			case "panic":
				if !p.Has("none") {
					w.fail(ks[0], p, e, "it panics")
				}
			}
		})
		for _, q := range outs {
			if !q.Path.Has("stop") && !q.Path.Has("s.all") {
				c.Fail("All: "+ks[0], f.Pos(), q.Path.Trace(), "it ends before all shards are visited")
			}
		}
	}
}

// fieldOf: t is the value of the field in the object base.
func (t *Term) fieldOf(field string, base *Term) bool {
	if t == nil {
		return false
	}
	t = t.unbox()
	switch {
	case t.op == "fld" && t.name == field:
		b := t.args[0]
		return b.key == base.key || b.op == "load" && b.args[0].key == base.key
	case t.op == "load" && t.args[0].op == "field" && t.args[0].name == field:
		return t.args[0].args[0].key == base.key
	}
	return false
}

func runM02(c *Ctx) {
	self := func(f *ssa.Function) *Term { return rootParam(f, 0) }
	// validity
	if f := c.NeedM(relCmap, "Item", "Valid"); f != nil {
		k, kw := "Valid: refuses exactly blank keys, nil values and negative expirations", "Valid: changes nothing but a refused negative expiration, to none"
		c.Oblige(k)
		c.Oblige(kw)
		x := newEngine(c.P, f)
		it := self(f)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "call":
				if e.Name == "strings.TrimSpace" && e.Args[0].fieldOf("Item.Key", it) {
					p.Vars["trim"] = e.Res
				}
			case "branch":
				if u, ok := isEmptyTest(e.Val); ok && p.Vars["trim"] != nil && u.key == p.Vars["trim"].key {
					p.Set(fmt.Sprintf("blank=%v", e.Truth))
				}
				if isCmp(e.Val, "==") {
					for i := 0; i < 2; i++ {
						if e.Val.args[i].isNil() && e.Val.args[1-i].fieldOf("Item.Value", it) {
							p.Set(fmt.Sprintf("nil=%v", e.Truth))
						}
					}
				}
				if e.Val.op == "bin" && (e.Val.name == "<" || e.Val.name == "<=") {
					for i := 0; i < 2; i++ {
						if !e.Val.args[i].fieldOf("Item.Expiration", it) {
							continue
						}
						q := p.fork()
						lo, hi := q.interval(e.Val.args[i])
						if hi != nil && *hi < 0 {
							p.Set("neg=true")
						} else if lo != nil && *lo >= 0 {
							p.Set("neg=false")
						}
					}
				}
			case "store":
				if e.Addr.root().key != it.key {
					return
				}
				if e.Addr.isFieldAddr("Item.Expiration") && isZeroInt(e.Val) && p.Has("neg=true") {
					p.Set("reset")
					return
				}
				c.Fail(kw, e.Pos(), p.Trace(), "it writes %s", short(e.Addr))
			case "return":
				r := e.Args[0]
				bad := func(w string) { c.Fail(k, e.Pos(), p.Trace(), "it answers %s %s", short(r), w) }
				switch {
				case wrapsSentinel(r, "internal/sentinel.ErrInvalidKey"):
					if !p.Has("blank=true") {
						bad("for a key that may not be blank")
					}
				case wrapsSentinel(r, "internal/sentinel.ErrNilValue"):
					if !p.Has("nil=true") {
						bad("for a value that may not be nil")
					}
				case wrapsSentinel(r, "internal/sentinel.ErrInvalidExpiration"):
					if !p.Has("neg=true") {
						bad("for an expiration that may not be negative")
					}
					if !p.Has("reset") {
						c.Fail(kw, e.Pos(), p.Trace(), "the negative expiration stays")
					}
				case r.isNil():
					if !p.Has("blank=false") || !p.Has("nil=false") || !p.Has("neg=false") {
						bad("for an item that may not be valid")
					}
				default:
					bad("")
				}
			case "panic":
				c.Fail(k, e.Pos(), p.Trace(), "it panics")
			}
		}
		c.Explore(x, nil)
	}
	// expiry
	if f := c.NeedM(relCmap, "Item", "Expired"); f != nil {
		c.expiryRule("Expired: exactly when a positive expiration has passed since the last access", f, self(f))
	}
	// touch
	if f := c.NeedM(relCmap, "Item", "Touch"); f != nil {
		k := "Touch: renews the access time and counts the access, and no more"
		c.Oblige(k)
		x := newEngine(c.P, f)
		it := self(f)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "store":
				if e.Addr.root().key != it.key {
					return
				}
				switch {
				case e.Addr.isFieldAddr("Item.LastAccess") && e.Val.isCall("time.Now"):
					p.Set("la")
				case e.Addr.isFieldAddr("Item.AccessCount") && !p.Has("ac") && isPlusOne(e.Val, func(t *Term) bool { return t.fieldOf("Item.AccessCount", it) }):
					p.Set("ac")
				default:
					c.Fail(k, e.Pos(), p.Trace(), "%s becomes %s", short(e.Addr), short(e.Val))
				}
			case "return":
				if !p.Has("la") || !p.Has("ac") {
					c.Fail(k, e.Pos(), p.Trace(), "access time renewed: %v, access counted: %v", p.Has("la"), p.Has("ac"))
				}
			}
		}
		c.Explore(x, nil)
	}
	c.itemSize()
	for m, d := range map[string]float64{"SizeKB": 1024, "SizeMB": 1024 * 1024} {
		f := c.NeedM(relCmap, "Item", m)
		if f == nil {
			continue
		}
		k := m + ": the recorded size in that unit"
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, nil) {
			v, div := o.Res[0], 1.0
			for v.op == "bin" && v.name == "/" {
				n, ok := floatConst(v.args[1])
				if !ok {
					break
				}
				div *= n
				v = v.args[0]
			}
			if v.op == "conv" && typeStr(v.typ) == "float64" {
				v = v.args[0]
			} else {
				div = 0
			}
			if div != d || !v.fieldOf("Item.Size", self(f)) {
				c.Fail(k, f.Pos(), o.Path.Trace(), "it answers %s", short(o.Res[0]))
			}
		}
	}
	// pool
	if f := c.NeedM(relCmap, "ItemPoolManager", "Put"); f != nil {
		k := "pool Put: a given-back item keeps nothing, nil is ignored"
		c.Oblige(k)
		x := newEngine(c.P, f)
		it := rootParam(f, 1)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "store":
				if e.Addr.key == it.key && e.Val.op == "zero" {
					p.Set("zeroed")
				} else if e.Addr.root().key == it.key {
					if isZeroVal(e.Val) && e.Addr.op == "field" {
						p.Set("z|" + strings.TrimPrefix(e.Addr.name, "Item."))
						return
					}
					p.Clear("zeroed")
				}
			case "precall":
				if e.Name != "sync.(*Pool).Put" {
					return
				}
				if e.Args[1].unbox().key != it.key || p.Has("put") || p.Decide(mkEq(it, tNil)) != no {
					c.Fail(k, e.Pos(), p.Trace(), "it puts %s into the pool", short(e.Args[1]))
				}
				p.Set("put")
				all := p.Has("zeroed")
				if !all {
					all = true
					st := structOf(derefT(it.typ))
					for i := 0; i < st.NumFields(); i++ {
						all = all && p.Has("z|"+st.Field(i).Name())
					}
				}
				if !all {
					c.Fail(k, e.Pos(), p.Trace(), "the item still holds its contents")
				}
			case "return":
				if !p.Has("put") && p.Decide(mkEq(it, tNil)) != yes {
					c.Fail(k, e.Pos(), p.Trace(), "the item is dropped")
				}
			case "panic":
				c.Fail(k, e.Pos(), p.Trace(), "it panics")
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relCmap, "ItemPoolManager", "Get"); f != nil {
		k := "pool Get: always an empty or a given-back item"
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, nil) {
			r := o.Res[0]
			ok := r.op == "alloc" && strings.HasSuffix(typeStr(derefT(r.typ)), ".Item")
			if r.op == "as" && r.args[0].isCall("sync.(*Pool).Get") {
				for _, is := range o.Path.isFacts(r.args[0]) {
					ok = ok || is.v && is.name == typeStr(r.typ)
				}
			}
			if !ok {
				c.Fail(k, f.Pos(), o.Path.Trace(), "it answers %s", short(r))
			}
		}
	}
}

// itemSize: the recorded size for each kind of value.
func (c *Ctx) itemSize() {
	f := c.NeedM(relCmap, "Item", "SetSize")
	if f == nil {
		return
	}
	ks := []string{"SetSize: the length of the value's own bytes or encoding", "SetSize: a failed encoding is an error and sets nothing", "SetSize: the pooled buffer is emptied before use and not given back while in use"}
	for _, k := range ks {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	it := rootParam(f, 0)
	isVal := func(t *Term) bool { return t.unbox().fieldOf("Item.Value", it) }
	isV := func(t *Term) bool { // the value, or the value as some type
		t = t.unbox()
		return isVal(t) || t.op == "as" && isVal(t.args[0])
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(i int, f2 string, a ...any) { c.Fail(ks[i], e.Pos(), p.Trace(), f2, a...) }
		switch e.Kind {
		case "call":
			switch {
			case strings.HasSuffix(e.Name, "BinaryMarshaler.MarshalBinary") && isV(e.Args[0]):
				p.Vars["bytes"], p.Vars["err"] = e.Res.args[0], e.Res.args[1]
			case strings.HasSuffix(e.Name, "Sizer.SizeBytes") && isV(e.Args[0]):
				p.Vars["n"] = e.Res
			case e.Name == "bytes.(*Buffer).Reset":
				p.Vars["clean"] = e.Args[0].unbox()
				p.Clear("encoded")
			case strings.HasSuffix(e.Name, "codec.NewEncoder"):
				b := e.Args[0].unbox()
				p.Vars["buf"] = b
				if cl := p.Vars["clean"]; b.op != "alloc" && (cl == nil || cl.key != b.key || p.Has("encoded")) {
					fail(2, "it encodes into a buffer that is not empty")
				}
				if p.Has("given back") {
					fail(2, "it encodes into a buffer that was given back")
				}
			case strings.HasSuffix(e.Name, ".Encode"):
				if !isV(e.Args[1]) || p.Has("encoded") {
					fail(0, "it encodes %s", short(e.Args[1]))
				}
				p.Set("encoded")
				p.Vars["err"] = e.Res
			case e.Name == "bytes.(*Buffer).Len" || e.Name == "bytes.(*Buffer).Bytes":
				if b := p.Vars["buf"]; b != nil && e.Args[0].unbox().key == b.key && p.Has("encoded") && !p.Has("given back") {
					if strings.HasSuffix(e.Name, "Len") {
						p.Vars["n"] = e.Res
					} else {
						p.Vars["bytes"] = e.Res
					}
				}
			case e.Name == "sync.(*Pool).Put":
				if p.Has("given back") {
					fail(2, "the buffer is given back twice")
				}
				p.Set("given back")
			}
		case "store":
			if !e.Addr.isFieldAddr("Item.Size") {
				if e.Addr.root().key == it.key {
					fail(0, "it writes %s", short(e.Addr))
				}
				return
			}
			if er := p.Vars["err"]; er != nil && p.Decide(mkEq(er, tNil)) != yes {
				fail(1, "the size is set although the encoding may have failed")
			}
			v := e.Val
			for v.op == "conv" {
				v = v.args[0]
			}
			ok := p.Vars["n"] != nil && v.key == p.Vars["n"].key
			if v.op == "len" {
				u := v.args[0]
				ok = ok || p.Vars["bytes"] != nil && u.key == p.Vars["bytes"].key
				ok = ok || u.op == "as" && isVal(u.args[0]) && (u.name == "[]byte" || u.name == "string")
				ok = ok || u.op == "conv" && u.args[0].op == "as" && isVal(u.args[0].args[0])
			}
			if !ok {
				fail(0, "the size becomes %s", short(e.Val))
			}
			p.Set("sized")
		case "return":
			r := e.Args[0]
			if r.isNil() || p.KnownNil(r) {
				if !p.Has("sized") {
					fail(0, "it succeeds without recording a size")
				}
				return
			}
			if p.Has("sized") {
				fail(1, "it records a size and answers %s", short(r))
			}
			er := p.Vars["err"]
			if er == nil || p.Decide(mkEq(er, tNil)) != no || !wrapsSentinel(r, "internal/sentinel.ErrInvalidSize") {
				fail(1, "it answers %s", short(r))
			}
		case "panic":
			fail(1, "it panics")
		}
	}
	c.Explore(x, nil)
}

// expiryRule: the predicate f holds of item it exactly when it is expired.
func (c *Ctx) expiryRule(k string, f *ssa.Function, it *Term) {
	c.Oblige(k)
	x := newEngine(c.P, f)
	isExp := func(t *Term) bool { return t.fieldOf("Item.Expiration", it) }
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if e.Name == "time.Since" && e.Args[0].fieldOf("Item.LastAccess", it) || e.Name == "time.(Time).Sub" && e.Args[0].isCall("time.Now") && e.Args[1].fieldOf("Item.LastAccess", it) {
				p.Vars["age"] = e.Res
			}
			if e.Name == "time.(Time).Add" && e.Args[0].fieldOf("Item.LastAccess", it) && isExp(e.Args[1]) {
				p.Vars["end"] = e.Res
			}
			if v := p.Vars["end"]; v != nil && (e.Name == "time.(Time).After" && e.Args[0].isCall("time.Now") && e.Args[1].key == v.key || e.Name == "time.(Time).Before" && e.Args[1].isCall("time.Now") && e.Args[0].key == v.key) {
				p.Vars["past"] = e.Res
			}
		case "store":
			if e.Addr.root().key == it.key {
				c.Fail(k, e.Pos(), p.Trace(), "it changes the item")
			}
		case "panic":
			c.Fail(k, e.Pos(), p.Trace(), "it panics")
		}
	}
	for _, o := range c.Explore(x, nil) {
		splitBool(o, o.Res[0], func(p *Path, v bool) {
			exp := x.fieldByName(p, it, "Expiration")
			lo, hi := p.interval(exp)
			pos, notPos := lo != nil && *lo >= 1, hi != nil && *hi <= 0
			old := unknown
			if a := p.Vars["age"]; a != nil {
				old = p.Decide(mk(&Term{op: "bin", name: "<", args: []*Term{exp, a}, typ: types.Typ[types.Bool]}))
				if old == unknown && p.Decide(mk(&Term{op: "bin", name: "<=", args: []*Term{exp, a}, typ: types.Typ[types.Bool]})) == yes {
					old = yes
				}
			}
			if a := p.Vars["past"]; a != nil {
				old = p.Decide(a)
			}
			if v && (!pos || old != yes) {
				c.Fail(k, f.Pos(), p.Trace(), "an item is expired that need not be")
			}
			if !v && !notPos && old != no {
				c.Fail(k, f.Pos(), p.Trace(), "an item that may be past its expiration is not expired")
			}
		})
	}
}
