package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newest follows what the program learns about which of two items, a and b,
// is the newer: the one of higher version, of equal versions the one of
// smaller origin.
type newest struct{ tag string }

func (n newest) reset(p *Path) {
	for k := range p.Flags {
		if strings.HasPrefix(k, n.tag+"!") {
			p.Clear(k)
		}
	}
}

// step takes in what a branch says of the two.
func (n newest) step(p *Path, e *Event, a, b *Term) {
	if e.Kind != "branch" || a == nil || b == nil {
		return
	}
	v := e.Val
	if v.op != "bin" || len(v.args) != 2 {
		return
	}
	for _, f := range []string{"Version", "Origin"} {
		of := func(t, it *Term) bool { return t.isLoadOf("Item."+f) && loadBase(t).unbox().key == it.unbox().key }
		l, r := v.args[0], v.args[1]
		sw := false
		switch {
		case of(l, a) && of(r, b):
		case of(l, b) && of(r, a):
			sw = true
		default:
			continue
		}
		var poss string // which of a<b, a=b, a>b remain
		switch v.name {
		case "<":
			poss = "<"
		case "<=":
			poss = "<="
		case "==":
			poss = "="
		default:
			return
		}
		if !e.Truth {
			rest := ""
			for _, c := range "<=>" {
				if !strings.ContainsRune(poss, c) {
					rest += string(c)
				}
			}
			poss = rest
		}
		for _, c := range "<=>" {
			d := c
			if sw && c == '<' {
				d = '>'
			} else if sw && c == '>' {
				d = '<'
			}
			if !strings.ContainsRune(poss, d) {
				p.Set(n.tag + "!" + f + string(c))
			}
		}
	}
}

// learn takes in what this path knows of the two.
func (n newest) learn(p *Path, a, b *Term) {
	if a == nil || b == nil || a.key == b.key {
		return
	}
	for _, f := range []string{"Version", "Origin"} {
		va, vb := itemField(p, a, f), itemField(p, b, f)
		if va == nil || vb == nil {
			continue
		}
		if d := p.Decide(lt(va, vb)); d == yes {
			p.Set(n.tag + "!" + f + "=")
			p.Set(n.tag + "!" + f + ">")
		} else if d == no {
			p.Set(n.tag + "!" + f + "<")
		}
		if d := p.Decide(lt(vb, va)); d == yes {
			p.Set(n.tag + "!" + f + "=")
			p.Set(n.tag + "!" + f + "<")
		} else if d == no {
			p.Set(n.tag + "!" + f + ">")
		}
	}
}

// admits: on all that is known, a (or b) may be taken for the newer.
func (n newest) admits(p *Path) (a, b bool) {
	a, b = true, true
	for _, v := range "<=>" {
		if p.Has(n.tag + "!Version" + string(v)) {
			continue
		}
		switch v {
		case '<':
			a = false
		case '>':
			b = false
		case '=':
			for _, o := range "<=>" {
				if p.Has(n.tag + "!Origin" + string(o)) {
					continue
				}
				switch o {
				case '<':
					b = false
				case '>':
					a = false
				}
			}
		}
	}
	return a, b
}

const (
	enqueueFn  = relBackend + ".(*repairQueue).enqueue"
	applySetFn = relBackend + ".(*DistMemory).applySet"
)

// applySetContract: told not to replicate, applySet stores one copy of the
// item it is given under the item's key, and does nothing else.
func applySetContract(c *Ctx) {
	f := c.P.method(relBackend, dmT, "applySet")
	if f == nil {
		return // then nobody takes it as given
	}
	const k = "applySet: without replicating it stores one copy of the item under its key"
	c.Oblige(k)
	x := newEngine(c.P, f)
	x.NoInline = distOpaque()
	var item *Term
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "precall":
			switch {
			case e.Name == cmapT+".Set" && len(e.Args) > 2:
				if p.Has("stored") {
					c.Fail(k, e.Pos(), p.Trace(), "it stores twice")
				}
				p.Set("stored")
				switch m := sameItem(p, e.Args[2], item); {
				case !isItemKey(e.Args[1], item):
					c.Fail(k, e.Pos(), p.Trace(), "it stores under %s", short(e.Args[1]))
				case m != "":
					c.Fail(k, e.Pos(), p.Trace(), "what it stores differs in its %s", m)
				case e.Args[2].unbox().key == item.key:
					c.Fail(k, e.Pos(), p.Trace(), "it stores the item itself, not a copy")
				case !keyedShard(e.Args[0], item):
					c.Fail(k, e.Pos(), p.Trace(), "it stores in the shard %s", short(e.Args[0]))
				}
			case e.Name == cmapT+".Remove", e.Name == queueHint, strings.HasPrefix(e.Name, transpT+"."):
				c.Fail(k, e.Pos(), p.Trace(), "it calls %s", e.Name)
			}
		case "store":
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Item.") && e.Addr.args[0].op != "alloc" {
				c.Fail(k, e.Pos(), p.Trace(), "it changes an item in place")
			}
		case "return":
			if !p.Has("stored") {
				c.Fail(k, e.Pos(), p.Trace(), "it returns without storing the item")
			}
		}
	}
	c.Explore(x, func(p *Path, ps []*Term) {
		for i, prm := range f.Params {
			if isBoolT(prm.Type()) {
				p.Assume(rootParam(f, i), false)
			}
			if typeStr(derefT(prm.Type())) == relCmap+".Item" {
				item = rootParam(f, i)
			}
		}
	})
}

func init() {
	register(&Property{ID: "Q02", Level: "proof", MinObl: 9, Run: runQ02,
		Explain: "All paths of a distributed read, for any list of owners, both ways of reading several owners: whom it asks for which key, that the answer is the first hit or the newest of the hits counted, how that count relates to what the level asks, that a miss follows only when every owner had its turn, and what is written where to repair stale copies.",
		Assume:  []string{"a transport that answers a read with a hit hands over an item"}})
}

func runQ02(c *Ctx) {
	f := c.NeedM(relBackend, dmT, "Get")
	if f == nil {
		return
	}
	const (
		ka = "Get: each owner is asked for the key, once, this node from its own copy"
		kh = "Get: at level one the first hit is the answer"
		kn = "Get: otherwise the newest of the hits is the answer"
		kq = "Get: and there are as many hits as the level asks"
		km = "Get: a miss only after every owner had its turn, and no (or too few) hits"
		kr = "Get: then every owner is repaired with the answer"
		ks = "Get: this node's copy is only replaced when missing or older"
		kc = "Get: each asked in parallel answers once, with what it found, and is never stuck"
		ke = "Get: nothing else is changed"
	)
	for _, k := range []string{ka, kh, kn, kq, km, kr, ks, kc, ke} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = distOpaque(enqueueFn, applySetFn)
	x.KeepWide = true
	x.MaxSteps = 4000000
	applySetContract(c)
	x.InlineGo = func(fn *ssa.Function) bool { return fn != nil && strings.HasPrefix(fnPkgPath(fn), modPath) }
	x.Track = func(t *Term) bool { // what flags keep, or nothing depends on
		return !isIv(t) && !t.any(func(t *Term) bool {
			return t.isLoadOf("Item.Version") || t.isLoadOf("Item.Origin") || t.op == "pcall" && t.name == "errors.Is"
		})
	}
	dm, key := rootParam(f, 0), rootParam(f, 2)
	tl := newTally("acks")
	cmpHits, cmpLocal := newest{"hits"}, newest{"local"}
	on := func(p *Path) *Term { return p.Vars["O"] }
	one := func(p *Path) int { return p.Decide(eq(p.Vars["level"], intLike(p.Vars["level"], 0))) }
	isKey := func(t *Term) bool {
		t = t.unbox()
		if t.op == "pcall" && t.name == "strings.Clone" {
			t = t.args[0]
		}
		return t.key == key.key
	}
	// settle decides between the best hit so far and the one that came in
	// last; false: it is not known which of them is newer.
	settle := func(p *Path) bool {
		cand := p.Vars["cand"]
		if cand == nil {
			return true
		}
		a, b := cmpHits.admits(p)
		if !a && !b {
			return false
		}
		delete(p.Vars, "alt")
		switch {
		case !a:
			p.Vars["best"] = cand
		case b:
			p.Vars["alt"] = cand
		}
		delete(p.Vars, "cand")
		cmpHits.reset(p)
		return true
	}
	hit := func(p *Path, e *Event, it *Term) {
		it = it.unbox()
		p.Assume(mkEq(it, tNil), false)
		tl.hit(p)
		p.Clear("met")
		p.Clear("short")
		if p.Vars["best"] == nil {
			p.Vars["best"] = it
			return
		}
		if !settle(p) {
			c.Fail(kn, e.Pos(), p.Trace(), "another hit is taken in before it is known which of two is newer")
			delete(p.Vars, "cand")
		}
		cmpHits.reset(p)
		p.Vars["cand"] = it
	}
	// isBest: it is the answer so far.
	isBest := func(p *Path, it *Term) bool {
		if !settle(p) || p.Vars["best"] == nil {
			return false
		}
		k := it.unbox().key
		return k == p.Vars["best"].key || p.Vars["alt"] != nil && k == p.Vars["alt"].key
	}
	turns := ownerTurns("f", func(p *Path) *Term {
		if p.Has("met") {
			return nil
		}
		return on(p)
	}, func(p *Path, e *Event) {
		if !p.Has("f/asked") && !p.Has("f/got") && !p.Has("f/other") {
			c.Fail(ka, e.Pos(), p.Trace(), "an owner is passed over")
		}
	})
	rep := ownerTurns("rep", func(p *Path) *Term {
		if !p.Has("met") {
			return nil
		}
		return on(p)
	}, func(p *Path, e *Event) {
		switch {
		case p.Has("rep/sent"), p.Has("rep/stored"), p.Has("rep/other"):
		case p.Has("rep/self"):
			if a, _ := cmpLocal.admits(p); !a || p.Vars["local"] == nil {
				c.Fail(kr, e.Pos(), p.Trace(), "this node's own copy is not brought up to date")
			}
		default:
			c.Fail(kr, e.Pos(), p.Trace(), "an owner is passed over")
		}
	})
	itemOf := func(p *Path, w *Term) *Term {
		st := structOf(w.typ)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			fl := st.Field(i)
			if pt, ok := fl.Type().Underlying().(*types.Pointer); ok && typeStr(pt.Elem()) == relCmap+".Item" {
				return x.fieldOf(w, fl, fieldName(fl, w.typ), fl.Type())
			}
		}
		return nil
	}
	// keep: this node stores it.
	keep := func(p *Path, e *Event, it *Term) {
		if !settle(p) || p.Vars["best"] == nil {
			c.Fail(ks, e.Pos(), p.Trace(), "this node stores something before it has an answer")
		} else if m := sameItem(p, it, p.Vars["best"]); m != "" {
			c.Fail(ks, e.Pos(), p.Trace(), "what this node stores differs from the answer in its %s", m)
		} else if it.unbox().key == p.Vars["best"].key {
			c.Fail(ks, e.Pos(), p.Trace(), "the answer itself is stored, not a copy")
		}
		if _, b := cmpLocal.admits(p); !p.Has("missing") && (p.Vars["local"] == nil || !b) {
			c.Fail(ks, e.Pos(), p.Trace(), "this node's copy is replaced although it is not known to be missing or older")
		}
		p.Set("rep/stored")
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		ft := turns.step(p, e)
		rt := rep.step(p, e)
		if ft && !e.Truth {
			if p.Has("launched") {
				p.Set("received")
			}
			p.Set("launched")
		}
		if ft || rt {
			delete(p.Vars, "ask")
			delete(p.Vars, "localok")
		}
		if rt {
			cmpLocal.reset(p)
			delete(p.Vars, "local")
			p.Clear("missing")
			if !p.Has("repairing") {
				p.Set("repairing")
				tl.reset(p)
				for k := range p.Vars {
					if strings.HasPrefix(k, "wide") {
						delete(p.Vars, k)
					}
				}
			}
		}
		if e.Kind == "advance" || e.Kind == "store" {
			tl.step(p, e)
		}
		asked := func() {
			if p.Has("cancelled") {
				fail(ka, "an owner is asked after the asking was called off")
			}
			if one(p) == yes && p.Vars["best"] != nil {
				fail(kh, "it asks on although it has the item")
			}
			if !p.Has("f") {
				return
			}
			if p.Has("f/asked") {
				fail(ka, "an owner is asked twice")
			}
			p.Set("f/asked")
		}
		switch e.Kind {
		case "branch":
			v := e.Val
			cmpHits.step(p, e, p.Vars["best"], p.Vars["cand"])
			cmpHits.step(p, e, p.Vars["alt"], p.Vars["cand"])
			cmpLocal.step(p, e, p.Vars["local"], p.Vars["best"])
			cmpLocal.step(p, e, p.Vars["local"], p.Vars["alt"])
			if p.Vars["cand"] != nil {
				cmpHits.learn(p, p.Vars["best"], p.Vars["cand"])
				cmpHits.learn(p, p.Vars["alt"], p.Vars["cand"])
				settle(p)
			}
			if isCmp(v, "==") && e.Truth && (v.args[0].isLoadOf(dmT+".ring") && v.args[1].isNil() || v.args[1].isLoadOf(dmT+".ring") && v.args[0].isNil()) {
				p.Set("noring")
			}
			if noTransport(v, e.Truth) {
				p.Set("f/other")
				p.Set("rep/other")
			}
			if a := p.Vars["ask"]; a != nil && v.key == resAt(a, 1).key {
				if e.Truth && p.Has("ingo") {
					p.Set("g.hit")
				} else if e.Truth {
					if one(p) != yes && !p.Has("f") {
						fail(kq, "a hit counts that is of no owner's turn")
					}
					hit(p, e, resAt(a, 0))
				}
				if !p.Has("ingo") {
					delete(p.Vars, "ask")
				}
			}
			if g := p.Vars["got"]; g != nil && v.op == "fld" && v.args[0].key == g.key && isBoolT(v.typ) {
				if e.Truth {
					if it := itemOf(p, g); it != nil {
						hit(p, e, it)
					}
				}
				delete(p.Vars, "got")
			}
			if l := p.Vars["localok"]; l != nil && v.key == l.key {
				if !e.Truth {
					p.Set("missing")
				}
				delete(p.Vars, "localok")
			}
			if isCmp(v, "==") {
				for i := 0; i < 2; i++ {
					if w := ownerElem(p, v.args[i], on(p)); w != "" && w != "first" && isLocalID(v.args[1-i]) && p.Has("rep") && e.Truth {
						p.Set("rep/self")
					}
				}
			}
			if isCmp(v, "<") && !ft && !rt {
				for i := 0; i < 2; i++ {
					if d, ok := tl.diff(p, v.args[i]); ok && on(p) != nil && ackGoal(p, v.args[1-i], p.Vars["level"], on(p)) {
						switch {
						case i == 0 && d == 0 && e.Truth, i == 1 && d == -1 && !e.Truth:
							p.Set("short")
						case i == 0 && d == 0, i == 1 && d == -1:
							if p.Vars["best"] == nil { // none, and one at least is asked for
								p.Dead = true
								return
							}
							p.Set("met")
							for k := range p.Flags { // what no longer matters
								switch k {
								case "f", "parallel", "launched", "received", "short":
									p.Clear(k)
								}
								for _, pre := range []string{"f/", "f.", "g.", "rep"} {
									if strings.HasPrefix(k, pre) {
										p.Clear(k)
									}
								}
							}
						default:
							fail(kq, "it compares the level's number with the hits and %d", d)
						}
						break
					}
				}
			}
		case "recv":
			if !isResults(e.Addr) {
				return
			}
			if !p.Has("launched") {
				fail(kc, "it waits for answers before every owner was asked")
			}
			if p.Has("cancelled") {
				fail(kc, "it takes answers after it called the asking off")
			}
			if p.Vars["got"] != nil {
				fail(kn, "an answer is dropped without a look whether it is a hit")
			}
			p.Vars["got"] = e.Val
			p.Set("f/got")
		case "go":
			if e.Fn == nil || !x.InlineGo(e.Fn) {
				return
			}
			p.Set("parallel")
			p.Set("ingo")
			p.Clear("launched")
			p.Clear("received")
			p.Clear("g.hit")
			p.Clear("g.sent")
			delete(p.Vars, "ask")
		case "goend":
			if !p.Has("g.sent") {
				fail(kc, "one asked in parallel sends no answer")
			}
			p.Clear("ingo")
			delete(p.Vars, "ask")
		case "send":
			if !p.Has("ingo") || !isResults(e.Addr) {
				return
			}
			if p.Has("g.sent") {
				fail(kc, "one asked in parallel answers twice")
			}
			p.Set("g.sent")
			ch := stripConv(e.Addr)
			if o := on(p); e.Blocking && (ch.op != "makechan" || o == nil || len(ch.attr) == 0 || ch.attr[0].key != lenTerm(o).key) {
				fail(kc, "the answers' channel %s has not room for one answer of each owner", short(ch))
			}
			w := e.Val
			st := structOf(w.typ)
			if st == nil {
				fail(kc, "it sends %s", short(w))
				return
			}
			ask := p.Vars["ask"]
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				fv := x.fieldOf(w, fl, fieldName(fl, w.typ), fl.Type())
				switch {
				case isBoolT(fl.Type()):
					b, known := boolOf(p, fv)
					switch {
					case ask != nil && fv.key == resAt(ask, 1).key:
					case !known || b && (ask == nil || !p.Has("g.hit")):
						fail(kc, "it answers %s, not whether there was a hit", short(fv))
					case !b && p.Has("g.hit") && !p.Has("g.gone"):
						fail(kc, "a hit is answered as a miss")
					}
				case typeStr(derefT(fl.Type())) == relCmap+".Item":
					if p.Has("g.hit") && ask != nil && fv.unbox().key != resAt(ask, 0).unbox().key {
						fail(kc, "it answers %s, not the item found", short(fv))
					}
				}
			}
		case "precall":
			switch e.Name {
			case transpT + ".ForwardSet":
				if len(e.Args) < 5 {
					return
				}
				if !isBest(p, e.Args[3]) {
					fail(kr, "an owner is sent %s, which is not the answer", short(e.Args[3]))
				}
				if b, known := boolOf(p, e.Args[4]); !known || b {
					fail(ke, "a repair is replicated onwards")
				}
			case enqueueFn:
				if len(e.Args) < 4 || !isBest(p, e.Args[3]) {
					fail(kr, "a repair is queued with something else than the answer")
				}
			case applySetFn:
				var it *Term
				for _, a := range e.Args[1:] {
					if b, known := boolOf(p, a); isBoolT(a.typ) && (!known || b) {
						fail(ke, "what this node stores is replicated onwards")
					}
					if typeStr(derefT(a.typ)) == relCmap+".Item" {
						it = a
					}
				}
				keep(p, e, it)
			case cmapT + ".Set":
				if len(e.Args) < 3 {
					return
				}
				if k := e.Args[1]; !isKey(k) && !(p.Vars["best"] != nil && isItemKey(k, p.Vars["best"])) {
					fail(ks, "this node stores it under %s", short(k))
				}
				keep(p, e, e.Args[2])
			}
		case "call":
			switch e.Name {
			case lookupFn:
				if on(p) == nil && e.Res != nil && len(e.Args) > 1 && isKey(e.Args[1]) {
					p.Vars["O"] = e.Res
				}
			case "context.WithCancel":
				if e.Res != nil {
					p.Vars["cancel"] = resAt(e.Res, 1)
				}
			case cmapT + ".GetCopy":
				if len(e.Args) < 2 || !isKey(e.Args[1]) {
					fail(ka, "this node's copy of %s is read", short(e.Args[1]))
					return
				}
				if p.Has("met") {
					p.Vars["local"], p.Vars["localok"] = resAt(e.Res, 0), resAt(e.Res, 1)
					p.Clear("missing")
					return
				}
				if p.Has("f") {
					asked()
				}
				p.Vars["ask"] = e.Res
			case cmapT + ".Get":
				if len(e.Args) < 2 || !isKey(e.Args[1]) {
					fail(ka, "this node's copy of %s is looked at", short(e.Args[1]))
				}
				p.Vars["local"], p.Vars["localok"] = resAt(e.Res, 0), resAt(e.Res, 1)
				p.Clear("missing")
				cmpLocal.reset(p)
			case transpT + ".ForwardGet":
				if len(e.Args) < 4 {
					return
				}
				if !isKey(e.Args[3]) {
					fail(ka, "an owner is asked for %s", short(e.Args[3]))
				}
				if w := ownerElem(p, e.Args[2], on(p)); w == "" || w == "first" && p.Has("f") {
					fail(ka, "it asks %s, which is not the owner whose turn it is", short(e.Args[2]))
				}
				if p.Decide(eqSame(e.Args[2], p.Vars["self"])) == yes {
					fail(ka, "it asks itself")
				}
				asked()
				p.Vars["ask"] = e.Res
			case transpT + ".ForwardSet":
				if len(e.Args) > 2 && (p.Has("rep/self") || p.Decide(eqSame(e.Args[2], p.Vars["self"])) == yes) {
					fail(kr, "it sends the repair to itself")
				}
				if w := ownerElem(p, e.Args[2], on(p)); w == "rest" || w == "full" {
					p.Set("rep/sent")
				}
			case enqueueFn:
				if w := ownerElem(p, e.Args[2], on(p)); w == "rest" || w == "full" {
					p.Set("rep/sent")
				}
			case cmapT + ".Remove", cmapT + ".Clear", cmapT + ".Pop", transpT + ".ForwardRemove", queueHint:
				fail(ke, "a read calls %s", e.Name)
			default:
				if cn := p.Vars["cancel"]; cn != nil && e.Addr != nil && e.Addr.key == cn.key {
					p.Set("cancelled")
				}
			}
		case "store":
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, "Item.") && e.Addr.args[0].op != "alloc" {
				fail(ke, "it changes an item in place")
			}
		case "return":
			if len(e.Args) < 2 {
				return
			}
			r, ok := e.Args[0], e.Args[1]
			b, known := boolOf(p, ok)
			k := kn
			if one(p) == yes {
				k = kh
			}
			switch {
			case !known:
				fail(k, "whether it is a hit, is not known: %s", short(ok))
			case b:
				if !isBest(p, r) {
					fail(k, "it answers %s", short(r))
				}
				if one(p) == yes {
					return
				}
				if !p.Has("met") {
					fail(kq, "it answers without enough owners having answered")
				}
				if !p.Has("rep.all") && !p.Has("notransport") {
					fail(kr, "it answers before every owner had its turn")
				}
			default:
				if !r.isNil() && !p.KnownNil(r) {
					fail(km, "a miss comes with %s", short(r))
				}
				o := on(p)
				if o == nil {
					if !p.Has("noring") {
						fail(km, "a miss is answered before the owners are known")
					}
					return
				}
				if p.Decide(eq(lenTerm(o), tInt(0))) == yes {
					if p.Vars["best"] != nil {
						fail(km, "a hit is answered as a miss")
					}
					return
				}
				if !p.Has("f.all") || p.Has("parallel") && !p.Has("received") {
					fail(km, "a miss is answered before every owner had its turn")
				}
				if p.Vars["best"] != nil && !p.Has("short") {
					fail(km, "a hit is answered as a miss")
				}
			}
		}
	}
	c.Explore(x, func(p *Path, ps []*Term) {
		p.Vars["level"] = x.fieldByName(p, dm, "readConsistency")
		p.Vars["self"] = x.fieldByName(p, x.fieldByName(p, dm, "localNode"), "ID")
	})
}

// isResults: a channel of answers: of values holding an item.
func isResults(ch *Term) bool {
	et := ch.chanElem()
	if et == nil {
		return false
	}
	st := structOf(et)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if typeStr(derefT(st.Field(i).Type())) == relCmap+".Item" {
			return true
		}
	}
	return false
}
