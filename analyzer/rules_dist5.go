package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	applyRemoveFn = relBackend + ".(*DistMemory).applyRemove"
	tombsField    = "distShard.tombs"
)

func init() {
	register(&Property{ID: "Q04", Level: "proof", Run: runQ04, MinObl: 18,
		Explain: "All paths of a distributed removal (Remove, and what a node does that applies one), of the pulling of a key from a peer and of the compaction of tombstones, and every place that writes or deletes a tombstone.",
		Assume:  []string{"versions stay below 2^64-1"}})
}

func runQ04(c *Ctx) {
	c.removeRule()
	c.applyRemoveRule()
	c.adoptRule()
	c.compactRule()
	c.tombWriters()
}

func isTombs(t *Term) bool { return t.isLoadOf(tombsField) }

// isNewVersion: v is more than the version of the item.
func isNewVersion(p *Path, v, ver *Term) bool {
	if isPlusOne(v, func(t *Term) bool { return t.key == ver.key }) || p.Decide(lt(ver, v)) == yes {
		return true
	}
	if v.op == "pcall" && v.name == "builtin.max" {
		for _, a := range v.args {
			if isNewVersion(p, a, ver) {
				return true
			}
		}
	}
	next := mk(&Term{op: "bin", name: "+", args: []*Term{ver, intLike(ver, 1)}, typ: ver.typ})
	return p.Decide(lt(next, v)) == yes || p.Decide(lt(v, next)) == no || p.IsTrue(lt(next, v))
}

// tombUpdate: a tombstone is written; its version is not below that of the one
// it replaces.
func tombUpdate(p *Path, e *Event) (what string) {
	v := valField(p.x, e.Args[2], "version")
	if v == nil {
		return "a tombstone without a version is recorded"
	}
	old := p.Vars["old|"+e.Args[1].key]
	if old == nil || !p.Has("looked|"+e.Args[1].key) {
		return "a tombstone is recorded without a look at the one it replaces"
	}
	if p.Has("none|" + e.Args[1].key) {
		return ""
	}
	ov := valField(p.x, old, "version")
	if v.op == "pcall" && v.name == "builtin.max" {
		for _, a := range v.args {
			if a.key == ov.key {
				return ""
			}
		}
	}
	if v.key == ov.key || p.Decide(lt(v, ov)) == no || p.Decide(lt(ov, v)) == yes {
		return ""
	}
	return "the version of a tombstone may go down"
}

// tombLook follows the looks at the tombstones.
func tombLook(p *Path, e *Event) {
	switch e.Kind {
	case "lookup":
		if isTombs(e.Args[0]) {
			k := e.Args[1].key
			p.Vars["old|"+k] = e.Res
			p.Set("looked|" + k)
			p.Clear("none|" + k)
			p.Clear("some|" + k)
		}
	case "branch":
		if v := e.Val; v.op == "has" && isTombs(v.args[0]) {
			if !e.Truth {
				p.Set("none|" + v.args[1].key)
			} else {
				p.Set("some|" + v.args[1].key)
			}
		}
	}
}

func (c *Ctx) tombWriters() {
	const (
		kd = "tombstones: forgotten only when compacted or when a newer item is pulled"
		kl = "tombstones: a version never goes down"
	)
	c.Oblige(kd)
	c.Oblige(kl)
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"fetchAndAdopt", "compactTombstones", "DebugInject"} {
		if f := c.P.method(relBackend, dmT, n); f != nil {
			allowed[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || !inModule(f) {
			continue
		}
		sets := false
		eachFieldAddr(f, tombsField, func(fa *ssa.FieldAddr) {
			for _, in := range escapes(fa) {
				if !c.freshShard(in, fa) {
					c.Fail(kd, in.Pos(), "", "%s replaces the tombstones", calleeName(f))
				}
			}
			for _, r := range *fa.Referrers() {
				u, ok := r.(*ssa.UnOp)
				if !ok {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.MapUpdate:
						sets = true
					case *ssa.Call:
						if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && !c.runsOnlyIn(f, allowed) {
							c.Fail(kd, r.Pos(), "", "%s forgets tombstones", calleeName(f))
						}
					}
				}
			}
		})
		if !sets {
			continue
		}
		x := newEngine(c.P, f)
		x.NoInline = distOpaque(applySetFn)
		x.OnEvent = func(p *Path, e *Event) {
			tombLook(p, e)
			if e.Kind == "mapupdate" && isTombs(e.Args[0]) {
				if m := tombUpdate(p, e); m != "" {
					c.Fail(kl, e.Pos(), p.Trace(), "%s", m)
				}
			}
			if e.Kind == "unlock" || e.Kind == "delete" && isTombs(e.Args[0]) {
				for k := range p.Flags {
					if strings.HasPrefix(k, "looked|") {
						p.Clear(k)
					}
				}
			}
		}
		c.Explore(x, nil)
	}
}

// freshShard: the shard the field belongs to was just made.
func (c *Ctx) freshShard(in ssa.Instruction, fa *ssa.FieldAddr) bool {
	_, ok := fa.X.(*ssa.Alloc)
	return ok
}

func (c *Ctx) removeRule() {
	f := c.NeedM(relBackend, dmT, "Remove")
	if f == nil {
		return
	}
	const (
		kg = "Remove: nothing is removed on a draining node"
		kt = "Remove: every key that has owners is removed here or forwarded"
		kp = "Remove: applied here only as first owner, or as a replica whose first owner failed, with replication"
		kf = "Remove: forwarded once, to the first owner, when that is another node"
		ke = "Remove: each error has its reason, and a failure is reported"
	)
	for _, k := range []string{kg, kt, kp, kf, ke} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = distOpaque(applyRemoveFn)
	x.MaxSteps = 2000000
	dm, keys := rootParam(f, 0), rootParam(f, 2)
	on := func(p *Path) *Term { return p.Vars["O"] }
	isKey := func(t *Term) bool {
		s, ix, ok := elemOf(t)
		return ok && s.key == keys.key && isIv(ix)
	}
	turn := &counted{tag: "t", over: func(p *Path, n *Term) bool { return linSame(n, lenTerm(keys)) }, end: func(p *Path, e *Event) {
		if !p.Has("t/done") && !p.Has("t/none") {
			c.Fail(kt, e.Pos(), p.Trace(), "a key is passed over")
		}
	}}
	scan := ownerTurns("scan", on, nil)
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		if turn.step(p, e) {
			for _, k := range []string{"O", "O0", "fwd"} {
				delete(p.Vars, k)
			}
			return
		}
		scan.step(p, e)
		effect := func() {
			if !p.Has("serving") {
				fail(kg, "it acts before the node is known not to be draining")
			}
			if !p.Has("t") {
				fail(kt, "it acts out of a key's turn")
			}
		}
		self := p.Vars["self"]
		is := func(id *Term, truth bool) bool {
			d := p.Decide(eqSame(id, self))
			return truth && d == yes || !truth && d == no
		}
		switch e.Kind {
		case "branch":
			v := e.Val
			if noTransport(v, e.Truth) {
				p.Set("t/notransport")
			}
			if v.isCall("sync/atomic.(*Bool).Load") && v.callArgs()[0].isFieldAddr(dmT+".draining") {
				if e.Truth {
					p.Set("draining")
				} else {
					p.Set("serving")
				}
			}
			if !isCmp(v, "==") {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := v.args[i], v.args[1-i]
				if a.isLoadOf(dmT+".ring") && b.isNil() && e.Truth {
					p.Set("t/none")
				}
				if o := on(p); o != nil && a.key == lenTerm(o).key && isZeroInt(b) && e.Truth {
					p.Set("t/none")
				}
				if w := p.Vars["fwd"]; w != nil && a.key == w.key && b.isNil() {
					if e.Truth {
						p.Set("t/done")
					} else {
						p.Set("t/failed")
					}
				}
				if w := ownerElem(p, a, on(p)); w != "" && isLocalID(b) {
					switch {
					case w == "first" && e.Truth:
						p.Set("t/first")
					case w == "first":
						p.Set("t/other")
					case e.Truth:
						p.Set("t/replica")
					}
				}
			}
		case "precall":
			switch e.Name {
			case applyRemoveFn:
				effect()
				var key, rep *Term
				for _, a := range e.Args[1:] {
					if isBoolT(a.typ) {
						rep = a
					} else if isStringT(a.typ) {
						key = a
					}
				}
				if key == nil || !isKey(key) {
					fail(kp, "%s is removed, not the key whose turn it is", short(key))
				}
				if b, known := boolOf(p, rep); rep == nil || !known || !b {
					fail(kp, "the removal is not replicated")
				}
				if !p.Has("t/first") && !(p.Has("t/failed") && p.Has("t/replica")) {
					fail(kp, "it is applied here although this node is neither the key's first owner nor a replica whose first owner failed")
				}
				if p.Has("t/applied") {
					fail(kp, "it is applied twice")
				}
				p.Set("t/applied")
				p.Set("t/done")
			case transpT + ".ForwardRemove":
				effect()
				if len(e.Args) < 5 {
					return
				}
				if ownerElem(p, e.Args[2], on(p)) != "first" || !p.Has("t/other") && !is(e.Args[2], false) {
					fail(kf, "it is forwarded to %s, which is not known to be the first owner and another node", short(e.Args[2]))
				}
				if !isKey(e.Args[3]) {
					fail(kf, "%s is forwarded", short(e.Args[3]))
				}
				if b, known := boolOf(p, e.Args[4]); !known || !b {
					fail(kf, "the first owner is not asked to replicate the removal")
				}
				if p.Has("t/sent") || p.Has("t/applied") {
					fail(kf, "it is forwarded after it was forwarded or applied")
				}
				p.Set("t/sent")
			case cmapT + ".Remove", cmapT + ".Pop", cmapT + ".Clear", cmapT + ".Set", transpT + ".ForwardSet":
				fail(kp, "it calls %s", e.Name)
			}
		case "call":
			switch e.Name {
			case lookupFn:
				if e.Res == nil || len(e.Args) < 2 {
					return
				}
				if !isKey(e.Args[1]) {
					fail(kt, "the owners of %s are looked up", short(e.Args[1]))
				}
				if on(p) == nil {
					p.Vars["O"] = e.Res
				}
			case transpT + ".ForwardRemove":
				if e.Res != nil {
					p.Vars["fwd"] = e.Res
				}
			}
		case "return":
			if len(e.Args) == 0 {
				return
			}
			r := e.Args[len(e.Args)-1]
			if r.isNil() || p.KnownNil(r) {
				if !p.Has("t.all") {
					fail(kt, "it reports success before every key had its turn")
				}
				return
			}
			switch {
			case wrapsSentinel(r, "internal/sentinel.ErrDraining"):
				if !p.Has("draining") {
					fail(ke, "it reports to be draining although it is not")
				}
			case p.Has("draining"):
				fail(ke, "a draining node reports %s", short(r))
			case p.Has("t/failed") && p.Vars["fwd"] != nil && carries(r, p.Vars["fwd"]):
				if p.Has("t/replica") && p.Has("scan") {
					fail(ke, "it gives up although it is a replica")
				}
				if p.Has("t/done") {
					fail(ke, "a failure is reported although the removal was applied")
				}
			case p.Has("t/notransport") && p.Has("t/other"):
				if !wrapsSentinel(r, "internal/sentinel.ErrNotOwner") {
					fail(ke, "without a transport it reports %s", short(r))
				}
			default:
				fail(ke, "it reports %s for no reason seen", short(r))
			}
		}
	}
	c.Explore(x, func(p *Path, ps []*Term) {
		p.Vars["self"] = x.fieldByName(p, x.fieldByName(p, dm, "localNode"), "ID")
	})
}

func (c *Ctx) applyRemoveRule() {
	f := c.NeedM(relBackend, dmT, "applyRemove")
	if f == nil {
		return
	}
	const (
		kr = "applied removal: the key is removed from its shard"
		kt = "applied removal: it leaves a tombstone, newer than what it removed, from now"
		ks = "applied removal: with replication, every other owner but the first is told once"
		kn = "applied removal: without, nobody is told"
	)
	for _, k := range []string{kr, kt, ks, kn} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = distOpaque()
	x.MaxSteps = 2000000
	dm := rootParam(f, 0)
	var key, rep *Term
	for i, prm := range f.Params[1:] {
		if isBoolT(prm.Type()) {
			rep = rootParam(f, i+1)
		} else if isStringT(prm.Type()) {
			key = rootParam(f, i+1)
		}
	}
	if key == nil || rep == nil {
		c.Fail(kr, f.Pos(), "", "it takes no key and no choice whether to replicate")
		return
	}
	isKey := func(t *Term) bool { return t.unbox().key == key.key }
	on := func(p *Path) *Term { return p.Vars["O"] }
	tr := ownerTurns("r", on, func(p *Path, e *Event) {
		if !p.Has("r/sent") && !p.Has("r/self") && !p.Has("r/first") {
			c.Fail(ks, e.Pos(), p.Trace(), "an owner is passed over")
		}
	})
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		tr.step(p, e)
		tombLook(p, e)
		switch e.Kind {
		case "precall":
			switch e.Name {
			case cmapT + ".Remove", cmapT + ".Pop":
				if !isKey(e.Args[1]) || !keyedShard(e.Args[0], nil) {
					fail(kr, "%s is removed of %s", short(e.Args[1]), short(e.Args[0]))
				}
				if e.Name == cmapT+".Remove" && p.Vars["hit"] == nil {
					fail(kt, "it removes the key without a look at its version")
				}
				p.Set("removed")
			case cmapT + ".Set", cmapT + ".Clear", queueHint, transpT + ".ForwardSet":
				fail(kr, "it calls %s", e.Name)
			case transpT + ".ForwardRemove":
				if len(e.Args) < 5 {
					return
				}
				if b, known := boolOf(p, rep); !known || !b {
					fail(kn, "an owner is told although the removal is not to be replicated")
				}
				if w := ownerElem(p, e.Args[2], on(p)); !p.Has("r") || w != "rest" && w != "full" {
					fail(ks, "%s is told, which is not the owner whose turn it is", short(e.Args[2]))
				}
				if p.Has("r/self") || p.Decide(eqSame(e.Args[2], p.Vars["self"])) == yes {
					fail(ks, "it tells itself")
				}
				if !isKey(e.Args[3]) {
					fail(ks, "it tells of %s", short(e.Args[3]))
				}
				if b, known := boolOf(p, e.Args[4]); !known || b {
					fail(ks, "an owner is told to replicate the removal")
				}
				if p.Has("r/sent") {
					fail(ks, "an owner is told twice")
				}
				p.Set("r/sent")
			}
		case "call":
			switch {
			case e.Name == cmapT+".Get" || e.Name == cmapT+".GetCopy" || e.Name == cmapT+".Pop":
				if len(e.Args) > 1 && isKey(e.Args[1]) && !p.Has("tomb") {
					if p.Has("removed") && e.Name != cmapT+".Pop" {
						return
					}
					p.Vars["hit"] = e.Res
					p.Vars["ver"] = itemField(p, resAt(e.Res, 0), "Version")
				}
			case e.Name == lookupFn || strings.HasPrefix(e.Name, "internal/cluster.(*Ring).Lookup"):
				if e.Res != nil && len(e.Args) > 1 && isKey(e.Args[1]) {
					p.Vars["O"] = e.Res
				}
			}
		case "branch":
			v := e.Val
			if noTransport(v, e.Truth) {
				p.Set("notransport")
			}
			if !isCmp(v, "==") {
				if isCmp(v, "<") || isCmp(v, "<=") {
					if o := on(p); o != nil && v.any(func(t *Term) bool { return t.key == lenTerm(o).key }) {
						if p.Decide(lt(tInt(1), lenTerm(o))) == no {
							p.Set("alone")
						}
					}
				}
				return
			}
			for i := 0; i < 2; i++ {
				a, b := v.args[i], v.args[1-i]
				if a.isLoadOf(dmT+".ring") && b.isNil() && e.Truth {
					p.Set("noring")
				}
				if o := on(p); o != nil && a.key == lenTerm(o).key && e.Truth && (isZeroInt(b) || isOneInt(b)) {
					p.Set("alone")
				}
				if w := ownerElem(p, a, on(p)); w != "" && w != "first" && isLocalID(b) && e.Truth {
					p.Set("r/self")
				}
				if isIv(a) && isZeroInt(b) && e.Truth && p.Has("r") {
					p.Set("r/first")
				}
				if w := ownerElem(p, a, on(p)); w == "full" && e.Truth && ownerElem(p, b, on(p)) == "first" {
					p.Set("r/first")
				}
			}
		case "mapupdate":
			if !isTombs(e.Args[0]) {
				return
			}
			if !isKey(e.Args[1]) || !keyedShard(e.Args[0], nil) {
				fail(kt, "the tombstone is put for %s in %s", short(e.Args[1]), short(e.Args[0]))
				return
			}
			p.Set("tomb")
			v, at := valField(x, e.Args[2], "version"), valField(x, e.Args[2], "at")
			if at == nil || !at.isCall("time.Now") {
				fail(kt, "its time is %s", short(at))
			}
			h := p.Vars["hit"]
			if h == nil {
				fail(kt, "the tombstone is put without a look at the item")
				return
			}
			it, ok := resAt(h, 0), resAt(h, 1)
			if p.Decide(ok) == no || p.KnownNil(it) || p.IsTrue(mkEq(it, tNil)) {
				return
			}
			if ver := p.Vars["ver"]; v == nil || ver == nil || !isNewVersion(p, v, ver) {
				fail(kt, "its version %s is not known to be above that of the item removed", short(v))
			}
		case "return":
			if !p.Has("removed") {
				fail(kr, "it returns with the key in place")
			}
			if !p.Has("tomb") {
				fail(kt, "it returns without a tombstone")
			}
			if b, known := boolOf(p, rep); known && !b {
				return
			}
			if !p.Has("noring") && !p.Has("notransport") && !p.Has("alone") && !p.Has("r.all") {
				fail(ks, "it returns before every owner had its turn")
			}
		}
	}
	c.Explore(x, func(p *Path, ps []*Term) {
		p.Vars["self"] = x.fieldByName(p, x.fieldByName(p, dm, "localNode"), "ID")
	})
}

func (c *Ctx) adoptRule() {
	f := c.NeedM(relBackend, dmT, "fetchAndAdopt")
	if f == nil {
		return
	}
	const (
		ks = "pull: what a peer has is stored only when newer than this node's copy and tombstone"
		kw = "pull: and then it is stored"
		kt = "pull: a tombstone is forgotten only for a newer item"
		kr = "pull: the key is removed here only if the peer answered not to have it, and leaves a newer tombstone"
		kn = "pull: a peer that fails changes nothing"
	)
	for _, k := range []string{ks, kw, kt, kr, kn} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.NoInline = distOpaque(applySetFn)
	node, key := rootParam(f, 2), rootParam(f, 3)
	isKey := func(t *Term) bool { return t.unbox().key == key.key }
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		tombLook(p, e)
		ask := p.Vars["ask"]
		got := func() (*Term, bool) {
			if ask == nil {
				return nil, false
			}
			return resAt(ask, 0), p.Decide(resAt(ask, 1)) == yes && (p.KnownNil(resAt(ask, 2)) || p.IsTrue(mkEq(resAt(ask, 2), tNil)))
		}
		// over: the tombstone seen last does not cover what the peer has
		over := func() (is, known bool) {
			if p.Has("cleared") || p.Has("none|"+key.key) {
				return true, true
			}
			is = p.Has("tomb<peer")
			return is, is || p.Has("peer<=tomb")
		}
		older := func() (is, known bool) {
			if l := p.Vars["local"]; l == nil {
				return false, false
			} else if p.Decide(resAt(l, 1)) == no {
				return true, true
			}
			is = p.Has("local<peer")
			return is, is || p.Has("peer<=local")
		}
		// the version of which it is
		whose := func(t *Term) string {
			switch {
			case t.isLoadOf("Item.Version") && ask != nil && loadBase(t).key == resAt(ask, 0).key:
				return "peer"
			case t.isLoadOf("Item.Version") && p.Vars["local"] != nil && loadBase(t).key == resAt(p.Vars["local"], 0).key:
				return "local"
			case p.Vars["old|"+key.key] != nil && t.key == valField(x, p.Vars["old|"+key.key], "version").key:
				return "tomb"
			}
			return ""
		}
		if v := e.Val; e.Kind == "branch" && (isCmp(v, "<") || isCmp(v, "<=")) {
			if a, b := whose(v.args[0]), whose(v.args[1]); a != "" && b != "" {
				switch {
				case e.Truth:
					p.Set(a + v.name + b)
				case v.name == "<":
					p.Set(b + "<=" + a)
				default:
					p.Set(b + "<" + a)
				}
			}
		}
		switch e.Kind {
		case "precall":
			switch e.Name {
			case transpT + ".ForwardGet":
				if len(e.Args) < 4 || !p.sameVal(e.Args[2], node) || !isKey(e.Args[3]) {
					fail(ks, "another node or key is asked for")
				}
			case applySetFn, cmapT + ".Set":
				it, hit := got()
				if !hit {
					fail(kn, "something is stored although the peer is not known to have the key")
					return
				}
				for _, a := range e.Args[1:] {
					if typeStr(derefT(a.typ)) == relCmap+".Item" {
						if m := sameItem(p, a, it.unbox()); m != "" {
							fail(ks, "what is stored differs from what the peer has in its %s", m)
						}
					}
					if isBoolT(a.typ) {
						if b, known := boolOf(p, a); !known || b {
							fail(ks, "what is pulled is replicated onwards")
						}
					}
				}
				if is, _ := over(); !is {
					fail(ks, "it is stored although a tombstone may cover it")
				}
				if is, _ := older(); !is {
					fail(ks, "it is stored although this node's copy may be as new")
				}
				p.Set("stored")
			case cmapT + ".Remove", cmapT + ".Pop":
				if ask == nil || p.Decide(resAt(ask, 1)) != no || !(p.KnownNil(resAt(ask, 2)) || p.IsTrue(mkEq(resAt(ask, 2), tNil))) {
					fail(kr, "the key is removed although the peer is not known to lack it")
				}
				if !isKey(e.Args[1]) {
					fail(kr, "%s is removed", short(e.Args[1]))
				}
				p.Set("removed")
			case cmapT + ".Clear", transpT + ".ForwardSet", transpT + ".ForwardRemove", queueHint:
				fail(ks, "it calls %s", e.Name)
			}
		case "call":
			switch e.Name {
			case transpT + ".ForwardGet":
				p.Vars["ask"] = e.Res
			case cmapT + ".Get", cmapT + ".GetCopy":
				if len(e.Args) > 1 && isKey(e.Args[1]) {
					p.Vars["local"] = e.Res
					p.Vars["lver"] = itemField(p, resAt(e.Res, 0), "Version")
				}
			}
		case "delete":
			if !isTombs(e.Args[0]) {
				return
			}
			old := p.Vars["old|"+key.key]
			_, hit := got()
			if !isKey(e.Args[1]) || !hit || old == nil || !p.Has("tomb<peer") {
				fail(kt, "a tombstone is forgotten although the peer's item is not known to be newer")
			}
			p.Set("cleared")
		case "clear":
			if isTombs(e.Args[0]) {
				fail(kt, "all tombstones are forgotten")
			}
		case "mapupdate":
			if !isTombs(e.Args[0]) {
				return
			}
			l := p.Vars["local"]
			v := valField(x, e.Args[2], "version")
			if !isKey(e.Args[1]) || !p.Has("removed") || l == nil || v == nil || !isNewVersion(p, v, p.Vars["lver"]) {
				fail(kr, "the tombstone put is not that of the item removed, or not newer")
			}
			p.Set("tomb")
		case "return":
			if p.Has("removed") != p.Has("tomb") {
				fail(kr, "the key is removed without a tombstone, or the other way round")
			}
			if ask == nil {
				return
			}
			if _, hit := got(); !hit || p.Has("stored") {
				return
			}
			if is, known := over(); known && !is {
				return
			}
			if is, known := older(); known && !is {
				return
			}
			fail(kw, "what the peer has is neither stored nor known to be covered by a tombstone or this node's copy")
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) compactRule() {
	f := c.NeedM(relBackend, dmT, "compactTombstones")
	if f == nil {
		return
	}
	const (
		ko = "compaction: only a tombstone as old as the retention is forgotten"
		ka = "compaction: each shard is gone through, each such tombstone forgotten"
	)
	c.Oblige(ko)
	c.Oblige(ka)
	x := newEngine(c.P, f)
	dm := rootParam(f, 0)
	endKey := func(p *Path, e *Event) {
		if p.Vars["v"] != nil && !p.Has("kept") && !p.Has("gone") {
			c.Fail(ka, e.Pos(), p.Trace(), "a tombstone stays without a look at its age")
		}
		delete(p.Vars, "v")
		delete(p.Vars, "k")
		for _, k := range []string{"kept", "gone", "old"} {
			p.Clear(k)
		}
	}
	tr := &counted{tag: "s", over: func(p *Path, n *Term) bool {
		if n.op == "bin" && n.name == "-" && isZeroInt(n.args[1]) {
			n = n.args[0]
		}
		return n.op == "len" && n.args[0].isLoadOf(dmT+".shards")
	}, end: func(p *Path, e *Event) {
		if !p.Has("s/through") && !p.Has("s/nil") {
			c.Fail(ka, e.Pos(), p.Trace(), "a shard is passed over")
		}
	}}
	// age compares the age of the tombstone with the retention.
	isAge := func(t *Term, at *Term) bool {
		switch {
		case t.op == "pcall" && t.name == "time.(Time).Sub":
			return t.args[0].isCall("time.Now") && t.args[1].key == at.key
		case t.isCall("time.Since"):
			return t.callArgs()[0].key == at.key
		}
		return false
	}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		if tr.step(p, e) {
			return
		}
		switch e.Kind {
		case "next":
			if !isTombs(e.Args[0]) {
				return
			}
			endKey(p, e)
			p.Vars["nk"], p.Vars["nv"], p.Vars["nok"] = e.Args[1], e.Args[2], e.Res
		case "branch":
			v := e.Val
			if o := p.Vars["nok"]; o != nil && v.key == o.key {
				if e.Truth {
					p.Vars["k"], p.Vars["v"] = p.Vars["nk"], p.Vars["nv"]
				} else {
					p.Set("s/through")
				}
				delete(p.Vars, "nk")
				delete(p.Vars, "nv")
				delete(p.Vars, "nok")
				return
			}
			if isCmp(v, "==") && e.Truth && p.Has("s") {
				for i := 0; i < 2; i++ {
					if s, _, ok := elemOf(v.args[i]); ok && s.isLoadOf(dmT+".shards") && v.args[1-i].isNil() {
						p.Set("s/nil")
					}
				}
			}
			if w := p.Vars["v"]; w != nil {
				at := valField(x, w, "at")
				for i := 0; i < 2 && (isCmp(v, "<") || isCmp(v, "<=")); i++ {
					if isAge(v.args[i], at) && v.args[1-i].isLoadOf(dmT+".tombstoneTTL") {
						if (i == 0) == e.Truth { // age < ttl
							p.Set("kept")
						} else {
							p.Set("old")
						}
					}
				}
				if v.op == "pcall" && len(v.args) == 2 && (v.name == "time.(Time).After" || v.name == "time.(Time).Before") {
					for i := 0; i < 2; i++ {
						a, b := v.args[i], v.args[1-i]
						if a.isCall("time.Now") && b.op == "pcall" && b.name == "time.(Time).Add" && b.args[0].key == at.key && b.args[1].isLoadOf(dmT+".tombstoneTTL") {
							// now after its end
							if ((v.name == "time.(Time).After") == (i == 0)) == e.Truth {
								p.Set("old")
							} else {
								p.Set("kept")
							}
						}
					}
				}
			}
		case "delete":
			if !isTombs(e.Args[0]) {
				return
			}
			if k := p.Vars["k"]; k == nil || e.Args[1].key != k.key || !p.Has("old") {
				fail(ko, "a tombstone is forgotten that is not known to be as old as the retention")
			}
			if t := x.fieldByName(p, dm, "tombstoneTTL"); !p.Has("ttl") && p.Decide(lt(intLike(t, 0), t)) != yes {
				fail(ko, "it forgets tombstones without a retention")
			}
			p.Set("gone")
		case "clear":
			if isTombs(e.Args[0]) {
				fail(ko, "all are forgotten")
			}
		case "return":
			endKey(p, e)
			t := x.fieldByName(p, dm, "tombstoneTTL")
			if !p.Has("s.all") && !p.Has("nottl") && p.Decide(lt(intLike(t, 0), t)) != no {
				fail(ka, "it returns before every shard had its turn")
			}
		}
		if e.Kind == "branch" && e.Val.any(func(t *Term) bool { return t.isLoadOf(dmT + ".tombstoneTTL") }) && p.Vars["v"] == nil {
			t := x.fieldByName(p, dm, "tombstoneTTL")
			switch p.Decide(lt(intLike(t, 0), t)) {
			case yes:
				p.Set("ttl")
			case no:
				p.Set("nottl")
			}
		}
	}
	c.Explore(x, nil)
}
