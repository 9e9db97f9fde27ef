package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relCluster = "internal/cluster"

func init() {
	register(&Property{ID: "C01", Level: "other", MinObl: 8, Run: runC01,
		Explain: "All paths of the ring builder are followed by path-sensitive dataflow: every (node, virtual index) pair yields exactly one position whose hash input carries the node id and the untruncated index, nothing but pure functions feeds it, the comparator is evaluated over all nine orderings of (hash, id) against the lexicographic order, and the sorted slice is the one published. Decides determinism and completeness of construction; collision-freeness of xxhash is not claimed."})
	register(&Property{ID: "C02", Level: "other", MinObl: 10, Run: runC02,
		Explain: "All paths of the key lookup are followed: search predicate, wrap-around, consecutive walk, de-duplication, replication bound, exhaustive walk and empty ring are each checked as facts that hold on the path at the moment an owner is appended or the result returned."})
	register(&Property{ID: "C03", Level: "proof", MinObl: 20, Run: runC03,
		Explain: "Guarded-by and lock discipline over every entry point of the cluster package (ring and membership): each access to the shared fields on each path happens with the right lock of the same object held, locks are released on every exit, published rings are never modified in place, observers run without the lock."})
	register(&Property{ID: "C04", Level: "proof", MinObl: 6, Run: runC04,
		Explain: "On every path of every membership mutation, any change to the member set or to a member's liveness is followed, inside the same critical section, by a ring build from a list that is shown (per iteration) to contain exactly the members not known dead."})
	register(&Property{ID: "C05", Level: "proof", MinObl: 12, Run: runC05,
		Explain: "All paths of Upsert/Remove/Mark/Refute are followed and classified by (member known?, state changed?); incarnation, state, last-seen, version and observer effects on each path are compared with the transition table; the version counter is touched only by atomic increment and load."})
	register(&Property{ID: "C06", Level: "proof", MinObl: 4, Run: runC06,
		Explain: "Escape check on every path of the reader methods: what they return is freshly allocated and holds copies, never the shared map, slice or member records."})
	register(&Property{ID: "C07", Level: "proof", MinObl: 6, Run: runC07,
		Explain: "Node constructor, validation and state naming are evaluated over all paths: the derived id depends only on the address, an explicit id is kept, and invalid addresses always produce the sentinel."})
}

// fieldBase matches load of field on base key.
func loadField(t *Term, field string) (*Term, bool) {
	t = t.unbox()
	if t != nil && t.op == "load" && t.args[0].op == "field" && t.args[0].name == field {
		return t.args[0].args[0], true
	}
	if t != nil && t.op == "fld" && t.name == field {
		return t.args[0], true
	}
	return nil, false
}

// content records what is written into byte buffers, so that the dependencies
// of a hash input can be traced.
func trackContent(p *Path, e *Event) {
	add := func(d, s *Term) {
		for d.op == "slice" || d.op == "idx" {
			d = d.args[0]
		}
		p.Vars["content|"+d.key+"|"+s.key] = s
	}
	switch e.Kind {
	case "copy":
		add(e.Args[0], e.Args[1])
	case "store":
		if e.Addr.op == "idx" {
			add(e.Addr, e.Val)
		}
	case "call":
		if e.Res != nil {
			// what a call is given of a buffer is what the buffer holds by then
			r := e.Res
			if r.op == "tuple" && len(r.args) > 0 {
				r = r.args[0]
			}
			if r.op == "ext" {
				r = r.args[0]
			}
			for _, a := range e.Args {
				for a.op == "slice" {
					a = a.args[0]
				}
				pre := "content|" + a.key + "|"
				var add []string
				for k := range p.Vars {
					if strings.HasPrefix(k, pre) {
						add = append(add, k)
					}
				}
				for _, k := range add {
					p.Vars["content|"+r.key+"|"+strings.TrimPrefix(k, pre)] = p.Vars[k]
				}
			}
		}
		if strings.Contains(e.Name, ".Put") && len(e.Args) >= 2 || strings.HasSuffix(e.Name, ".WriteString") || strings.HasSuffix(e.Name, ".Write") || strings.HasSuffix(e.Name, ".WriteByte") {
			n := len(e.Args)
			if n >= 2 {
				add(e.Args[n-2], e.Args[n-1])
			}
		}
	}
}

// depsOf collects the terms a value is computed from.
func depsOf(p *Path, t *Term) []*Term { return depsBut(p, t, nil) }

// depsBut: as depsOf, without following the terms prune names.
func depsBut(p *Path, t *Term, prune func(*Term) bool) []*Term {
	var out []*Term
	seen := map[string]bool{}
	var rec func(t *Term, d int, given bool)
	rec = func(t *Term, d int, given bool) {
		if t == nil {
			return
		}
		if given && (t.op == "pcall" || t.op == "call") {
			given = false
		}
		sk := t.key
		if given {
			sk += " given"
		}
		if d > 24 || seen[sk] {
			return
		}
		seen[sk] = true
		out = append(out, t)
		if prune != nil && prune(t) {
			return
		}
		switch t.op {
		case "len", "cap": // a length tells different contents apart only by accident
			return
		case "makeslice":
		case "slice":
			rec(t.args[0], d+1, given)
		case "pcall", "call":
			for _, a := range t.args {
				rec(a, d+1, true)
			}
			for _, a := range t.attr {
				rec(a, d+1, true)
			}
		default:
			for _, a := range t.args {
				rec(a, d+1, false)
			}
			for _, a := range t.attr {
				rec(a, d+1, false)
			}
		}
		if given {
			return
		}
		switch t.op {
		case "makeslice", "alloc", "append", "call", "pcall", "out":
			pre := "content|" + t.key + "|"
			for k, v := range p.Vars {
				if strings.HasPrefix(k, pre) {
					rec(v, d+1, false)
				}
			}
		}
	}
	rec(t, 0, false)
	return out
}

// unconv strips conversions between strings and bytes.
func unconv(t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// constLen: the length of a freshly made buffer, when it is constant.
func constLen(t *Term) (int64, bool) {
	switch t.op {
	case "makeslice":
		if len(t.attr) > 0 {
			return t.attr[0].intConst()
		}
	case "alloc":
		if at, ok := derefT(t.typ).Underlying().(*types.Array); ok {
			return at.Len(), true
		}
	case "slice":
		lo, hi := int64(0), int64(-1)
		if len(t.args) == 3 {
			if t.args[1].op != "none" {
				v, ok := t.args[1].intConst()
				if !ok {
					return 0, false
				}
				lo = v
			}
			if t.args[2].op != "none" {
				v, ok := t.args[2].intConst()
				if !ok {
					return 0, false
				}
				hi = v
			}
		}
		if hi < 0 {
			n, ok := constLen(t.args[0])
			if !ok {
				return 0, false
			}
			hi = n
		}
		return hi - lo, true
	}
	return 0, false
}

// evalLen evaluates a length expression for a source of length n.
func evalLen(t, src *Term, n int64) (int64, bool) {
	if c, ok := t.intConst(); ok {
		return c, true
	}
	if t.op == "len" && unconv(t.args[0]).key == src.key {
		return n, true
	}
	if t.op == "bin" && len(t.args) == 2 {
		a, ok1 := evalLen(t.args[0], src, n)
		b, ok2 := evalLen(t.args[1], src, n)
		if ok1 && ok2 {
			switch t.name {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			}
		}
	}
	return 0, false
}

// narrowed reports whether every occurrence of iv inside t passes through an
// integer conversion narrower than its type.
func wideOccurrence(t, iv *Term, d int) bool {
	if t == nil || d > 20 {
		return false
	}
	if t.key == iv.key {
		return true
	}
	if t.op == "conv" {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8, types.Int8, types.Uint16, types.Int16:
				return false
			}
		}
	}
	for _, a := range t.args {
		if wideOccurrence(a, iv, d+1) {
			return true
		}
	}
	for _, a := range t.attr {
		if wideOccurrence(a, iv, d+1) {
			return true
		}
	}
	return false
}

// isIv: an index that counts every value from 0 up.
func isIv(t *Term) bool { return t.op == "iv" }

func runC01(c *Ctx) {
	build := c.NeedM(relCluster, "Ring", "Build")
	if build == nil {
		return
	}
	x := newEngine(c.P, build)
	nodes := rootParam(build, 1)
	keys := []string{"one position per (node,index)", "every node visited", "every index visited", "hash input carries node id", "hash input carries the full index", "sort order total on (hash,id)", "published slice is the sorted one", "pure inputs only", "position carries its node's id"}
	for _, k := range keys {
		c.Oblige("build: " + k)
	}
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("build: "+k, e.Pos(), p.Trace(), f, a...)
	}
	sorts, appends := 0, 0
	x.OnEvent = func(p *Path, e *Event) {
		trackContent(p, e)
		if e.Kind == "copy" {
			// room for the whole source
			d, off, ok := e.Args[0], int64(0), true
			src := unconv(e.Args[1])
			if d.op == "slice" && len(d.args) == 3 {
				if d.args[1].op != "none" {
					off, ok = evalLen(d.args[1], src, 7)
				}
				d = d.args[0]
			}
			if d.op == "makeslice" && len(d.attr) > 0 && ok {
				if n, ok := evalLen(d.attr[0], src, 7); ok && n < 7+off {
					p.Vars["content|"+d.key+"|short"] = e.Args[1]
				}
			}
		}
		switch e.Kind {
		case "branch":
			if isCmp(e.Val, "<") && e.Val.args[1].op == "len" && e.Val.args[1].args[0].key == nodes.key && isIv(e.Val.args[0]) {
				if e.Truth {
					p.Clear("inner-done")
					p.Set("node")
					p.Vars["nodeiv"] = e.Val.args[0]
				} else {
					p.Set("nodes-done")
				}
				if e.Truth == false && p.Has("node") && !p.Has("inner-done") {
					fail("every index visited", p, e, "a node is left before all its virtual indexes were generated")
				}
			}
			if isCmp(e.Val, "<") && e.Val.args[1].isLoadOf("Ring.vnPerNode") && isIv(e.Val.args[0]) {
				if p.Has("pending") && !p.Has("appended") {
					fail("one position per (node,index)", p, e, "an index iteration ends without adding a position")
				}
				p.Clear("appended")
				if e.Truth {
					p.Set("pending")
					p.Vars["vniv"] = e.Val.args[0]
				} else {
					p.Clear("pending")
					p.Set("inner-done")
				}
			}
		case "append":
			if len(e.Args) != 2 || e.Args[1].typ == nil || e.Args[1].op != "struct" {
				if e.Res.typ != nil && isVnodeSlice(e.Res.typ) {
					fail("one position per (node,index)", p, e, "positions are added in bulk or from an unknown value")
				}
				return
			}
			if !isVnodeSlice(e.Res.typ) {
				return
			}
			appends++
			if p.Has("appended") {
				fail("one position per (node,index)", p, e, "two positions for one index")
			}
			p.Set("appended")
			st := structOf(e.Args[1].typ)
			var hash, nid *Term
			for i := 0; i < st.NumFields(); i++ {
				if isStringT(st.Field(i).Type()) {
					nid = e.Args[1].args[i]
				} else {
					hash = e.Args[1].args[i]
				}
			}
			if hash == nil || nid == nil {
				fail("position carries its node's id", p, e, "position has no hash or id")
				return
			}
			nb, ok := loadField(nid, "Node.ID")
			niv := p.Vars["nodeiv"]
			cur := ok && niv != nil && nb.contains(niv) && nb.contains(nodes)
			if !cur {
				fail("position carries its node's id", p, e, "position id is %s, not the id of the node being placed", short(nid))
			}
			ds := depsOf(p, hash)
			hasID, hasIv := false, false
			iv := p.Vars["vniv"]
			for _, d := range ds {
				if d.key == nid.key {
					hasID = true
				}
				if d.op == "slice" && len(d.args) == 3 && d.args[2].op != "none" && unconv(d.args[0]).key == nid.key {
					if n, ok := evalLen(d.args[2], nid, 7); !ok || n < 7 {
						fail("hash input carries node id", p, e, "only the part %s of the node id is hashed", short(d))
					}
				}
				if d.op == "makeslice" && p.Vars["content|"+d.key+"|short"] != nil {
					fail("hash input carries node id", p, e, "the node id does not fit the buffer it is copied into")
				}
			}
			if !hasID {
				fail("hash input carries node id", p, e, "hash %s does not depend on the node id", short(hash))
			}
			if iv != nil {
				hasIv = wideDeps(p, hash, iv)
				if !hasIv {
					_, hi := p.interval(iv)
					if hi != nil && *hi <= 255 {
						for _, d := range ds {
							if d.op == "conv" && d.args[0].key == iv.key {
								hasIv = true
							}
						}
					}
				}
			}
			if !hasIv {
				fail("hash input carries the full index", p, e, "the virtual index reaches the hash only truncated (or not at all): positions repeat")
			}
			for _, d := range ds {
				if d.op == "call" && impureSource(d.name) || (d.op == "global") {
					fail("pure inputs only", p, e, "hash depends on %s", short(d))
				}
				if d.op == "load" && !d.isLoadOf("Node.ID") && d.args[0].op == "field" && d.args[0].name != "Ring.vnPerNode" && strings.HasPrefix(d.args[0].name, "Node.") {
					fail("pure inputs only", p, e, "hash depends on %s, which is not part of a node's identity", short(d))
				}
			}
		case "call":
			if impureSource(e.Name) {
				fail("pure inputs only", p, e, "ring construction calls %s", e.Name)
			}
			if e.Name == "slices.SortFunc" || e.Name == "slices.SortStableFunc" || e.Name == "sort.Slice" || e.Name == "sort.SliceStable" {
				sorts++
				checkRingOrder(c, x, p, e)
				p.Vars["sorted"] = e.Args[0].unbox()
			}
		case "store":
			if e.Addr.isFieldAddr("Ring.vnodes") {
				s := p.Vars["sorted"]
				if s == nil || s.key != e.Val.key {
					fail("published slice is the sorted one", p, e, "the slice stored in the ring was not sorted on this path")
				}
				p.Set("published")
			}
			if e.Addr.op == "idx" && p.Vars["sorted"] != nil && e.Addr.args[0].key == p.Vars["sorted"].key {
				fail("published slice is the sorted one", p, e, "positions modified after sorting")
			}
		case "return":
			if !p.Has("nodes-done") {
				fail("every node visited", p, e, "returns before every node was placed")
			}
			if !p.Has("published") {
				fail("published slice is the sorted one", p, e, "returns without publishing the new ring")
			}
		case "go":
			fail("pure inputs only", p, e, "ring construction is split over goroutines")
		}
	}
	c.Explore(x, nil)
	c.Check("build: sort call present", sorts > 0, build.Pos(), "no sort of the positions found in Build")
	c.Check("build: append present", appends > 0, build.Pos(), "no position is ever added")
	// who may write the ring's positions
	for _, f := range c.P.Funcs {
		forEachStore(f, "Ring.vnodes", func(s *ssa.Store) {
			ok := f == build || c.calledOnlyFrom(f, map[*ssa.Function]bool{build: true})
			c.Check("writers of the ring: "+calleeName(f), ok, s.Pos(), "%s replaces the ring's positions; only the builder may", calleeName(f))
		})
	}
	// the two hash sites use one hash family
	c.sameHash("build/lookup hash", build, c.NeedM(relCluster, "Ring", "Lookup"))
}

func isVnodeSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st := structOf(s.Elem())
	if st == nil || st.NumFields() != 2 {
		return false
	}
	n, ok := types.Unalias(s.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), relCluster)
}

func wideDeps(p *Path, hash, iv *Term) bool {
	for _, d := range depsOf(p, hash) {
		switch d.op {
		case "append", "pcall", "call", "makeslice", "alloc":
			// its own contents
			for _, a := range append(append([]*Term(nil), d.attr...), d.args...) {
				if wideOccurrence(a, iv, 0) {
					return true
				}
			}
			pre := "content|" + d.key + "|"
			for k, v := range p.Vars {
				if strings.HasPrefix(k, pre) && wideOccurrence(v, iv, 0) {
					return true
				}
			}
		}
	}
	return false
}

func impureSource(n string) bool {
	return hasPrefixAny(n, "time.Now", "time.Since", "time.Until", "math/rand", "crypto/rand", "os.", "runtime.", "hash/maphash", "reflect.", "net.Interfaces", "net.Lookup")
}

func forEachStore(f *ssa.Function, field string, fn func(*ssa.Store)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			st := structOf(derefT(fa.X.Type()))
			if st != nil && fieldName(st.Field(fa.Field), derefT(fa.X.Type())) == field {
				fn(s)
			}
		}
	}
}

// calledOnlyFrom: every static reference to f inside the module lies in the allowed functions (transitively).
func (c *Ctx) calledOnlyFrom(f *ssa.Function, allowed map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if allowed[g] {
			return true
		}
		if seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() != nil {
			return rec(g.Parent())
		}
		if g.Object() != nil && g.Object().Exported() {
			return false
		}
		cs := c.P.refsTo(g)
		if len(cs) == 0 {
			return false
		}
		for _, k := range cs {
			if !rec(k) {
				return false
			}
		}
		return true
	}
	return rec(f)
}

var refCache map[*ssa.Function][]*ssa.Function

// refsTo lists the functions whose bodies mention f.
func (P *Prog) refsTo(f *ssa.Function) []*ssa.Function {
	if refCache == nil {
		refCache = map[*ssa.Function][]*ssa.Function{}
		for _, g := range P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if op != nil {
							if t, ok := (*op).(*ssa.Function); ok {
								if o := t.Origin(); o != nil {
									refCache[o] = append(refCache[o], g)
								}
								refCache[t] = append(refCache[t], g)
							}
						}
					}
				}
			}
		}
	}
	return refCache[f]
}

func (c *Ctx) sameHash(key string, fs ...*ssa.Function) {
	fam := map[string]bool{}
	for _, f := range fs {
		if f == nil {
			return
		}
		found := false
		for _, g := range c.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(ssa.CallInstruction); ok {
						if cal := cl.Common().StaticCallee(); cal != nil {
							n := calleeName(cal)
							if strings.Contains(n, "hash") && !inModule(cal) {
								fam[strings.SplitN(strings.TrimSuffix(n, "String"), "(", 2)[0]] = true
								found = true
							}
						}
					}
				}
			}
		}
		c.Check(key+" "+calleeName(f), found, f.Pos(), "no hash call found in %s", calleeName(f))
	}
	c.Check(key+" agree", len(fam) == 1, fs[0].Pos(), "placement and lookup hash with different functions: %v", sortedKeys(fam))
}

// reach lists f and the module functions it can statically reach.
func (c *Ctx) reach(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if g == nil || seen[g] || len(g.Blocks) == 0 || !inModule(g) {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						rec(v)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	rec(f)
	return out
}

// checkRingOrder evaluates the comparator over all orderings of (hash, id).
func checkRingOrder(c *Ctx, x *Engine, p *Path, e *Event) {
	key := "build: sort order total on (hash,id)"
	f := e.Args[1].unbox()
	if f.fn == nil || len(f.fn.Params) != 2 {
		c.Fail(key, e.Pos(), p.Trace(), "comparator cannot be resolved")
		return
	}
	less := strings.HasPrefix(e.Name, "sort.")
	pa := mk(&Term{op: "param", name: "cmpA", typ: f.fn.Params[0].Type()})
	pb := mk(&Term{op: "param", name: "cmpB", typ: f.fn.Params[1].Type()})
	var et types.Type
	if less {
		et = e.Args[0].unbox().typ.Underlying().(*types.Slice).Elem()
	} else {
		et = f.fn.Params[0].Type()
	}
	st := structOf(et)
	if st == nil {
		c.Fail(key, e.Pos(), p.Trace(), "comparator does not compare ring positions")
		return
	}
	get := func(prm *Term, str bool) *Term {
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if isStringT(fl.Type()) == str {
				if less {
					ad := mk(&Term{op: "idx", args: []*Term{e.Args[0].unbox(), prm}, typ: types.NewPointer(et)})
					return mk(&Term{op: "load", args: []*Term{fieldAddr(ad, et, fl)}, typ: fl.Type()})
				}
				return mk(&Term{op: "fld", name: fieldName(fl, et), args: []*Term{prm}, typ: fl.Type(), fld: fl})
			}
		}
		return tNil
	}
	ha, hb, na, nb := get(pa, false), get(pb, false), get(pa, true), get(pb, true)
	outs := x.Eval(p, f, []*Term{pa, pb})
	if len(outs) == 0 {
		c.Fail(key, e.Pos(), p.Trace(), "comparator has no analysable outcome")
	}
	rel := func(q *Path, a, b *Term, s int) bool {
		switch s {
		case -1:
			return q.Assume(lt(a, b), true) && q.Assume(eq(a, b), false) && q.Assume(lt(b, a), false)
		case 1:
			return q.Assume(lt(b, a), true) && q.Assume(eq(a, b), false) && q.Assume(lt(a, b), false)
		}
		return q.Assume(lt(a, b), false) && q.Assume(lt(b, a), false) && q.Assume(eq(a, b), true)
	}
	for _, sh := range []int{-1, 0, 1} {
		for _, sn := range []int{-1, 0, 1} {
			want := sh
			if want == 0 {
				want = sn
			}
			for _, o := range outs {
				q := o.Path.fork()
				if !rel(q, ha, hb, sh) || !rel(q, na, nb, sn) {
					continue
				}
				var got int
				var ok bool
				if less {
					d := q.Decide(o.Res[0])
					ok = d != unknown
					if ok && (d == yes) != (want < 0) {
						c.Fail(key, e.Pos(), o.Trace(), "less-function is wrong for hash order %d, id order %d", sh, sn)
					}
				} else {
					got, ok = signUnder(q, o.Res[0])
					if ok && got != want {
						c.Fail(key, e.Pos(), o.Trace(), "comparator gives %d for hash order %d, id order %d (want %d): rings built from the same members can differ", got, sh, sn, want)
					}
				}
				if !ok {
					c.Fail(key, e.Pos(), o.Trace(), "comparator result undecided for hash order %d, id order %d", sh, sn)
				}
			}
		}
	}
}

func runC02(c *Ctx) {
	lk := c.NeedM(relCluster, "Ring", "Lookup")
	if lk == nil {
		return
	}
	x := newEngine(c.P, lk)
	x.KeepWide = true
	key := rootParam(lk, 1)
	for _, k := range []string{"search predicate", "search covers the ring", "target is the key's hash", "wrap-around", "consecutive walk", "owners distinct", "replication bound", "walk is exhaustive", "no owner skipped", "empty ring", "owner is the position's node"} {
		c.Oblige("lookup: " + k)
	}
	fail := func(k string, p *Path, e *Event, f string, a ...any) {
		c.Fail("lookup: "+k, e.Pos(), p.Trace(), f, a...)
	}
	isVn := func(t *Term) bool { return t.isLoadOf("Ring.vnodes") }
	isLenVn := func(t *Term) bool { return t.op == "len" && isVn(t.args[0]) }
	visits := 0
	searches := 0
	resolve := func(p *Path, e *Event) {
		if p.Has("pending") && !p.Has("taken") && !p.Has("dup") {
			fail("no owner skipped", p, e, "a ring position is passed over although its node was not chosen yet")
		}
		if p.Has("taken") && p.Has("needmark") {
			fail("owners distinct", p, e, "a chosen node is not remembered before the next position is examined")
		}
		p.Clear("pending")
		p.Clear("taken")
		p.Clear("dup")
		p.Clear("needmark")
	}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			if e.Name == "sort.Search" || strings.HasPrefix(e.Name, "slices.BinarySearchFunc") {
				searches++
				checkSearch(c, x, p, e, key, isVn)
				if e.Res != nil {
					r := e.Res
					if r.op == "tuple" {
						r = r.args[0]
					}
					p.Vars["start"] = r
				}
			}
			if impureSource(e.Name) {
				fail("search predicate", p, e, "lookup calls %s", e.Name)
			}
		case "index":
			if e.Addr == nil || !isVn(e.Args[0]) || strings.Contains(e.In.String(), "$") {
				return
			}
			ix := e.Args[1]
			s := p.Vars["start"]
			if s == nil {
				return
			}
			visits++
			// one position for each turn of a loop over as many turns as there are positions
			bounded := p.Has("turn")
			p.Clear("turn")
			for _, r := range p.rels {
				if r.v && isCmp(r.t, "<") && isIv(r.t.args[0]) && isLenVn(r.t.args[1]) && ix.contains(r.t.args[0]) {
					bounded = true
				}
			}
			if !bounded {
				fail("walk is exhaustive", p, e, "a position is examined without a bound on how many were: with fewer members than replicas the walk never ends")
			}
			resolve(p, e)
			p.Set("pending")
			// (start + i) mod len
			okForm := false
			if ix.op == "bin" && ix.name == "%" && isLenVn(ix.args[1]) {
				sum := ix.args[0]
				if isIv(sum) {
					// start was replaced by 0: only right when the search ran off the end
					okForm = p.IsTrue(eq(s, ix.args[1])) || p.wrapped(s, isLenVn)
				} else if sum.op == "bin" && sum.name == "+" {
					a, b := sum.args[0], sum.args[1]
					if isIv(b) && a.key == s.key || isIv(a) && b.key == s.key {
						okForm = true
					}
				}
			}
			if !okForm { // a position kept in a variable and moved on by one
				size := mk(&Term{op: "len", args: []*Term{e.Args[0]}, typ: types.Typ[types.Int]})
				inRing := func(t *Term) bool { return p.inRing(t, isLenVn) || p.Decide(eq(t, size)) == no }
				at := func(want, t *Term) bool { // t is want, 0 for want == len
					if z, ok := t.intConst(); ok && z == 0 {
						return p.wrapped(want, isLenVn)
					}
					if t.op == "bin" && t.name == "%" && isLenVn(t.args[1]) {
						return t.args[0].key == want.key
					}
					return t.key == want.key && inRing(want)
				}
				if prev := p.Vars["prev"]; prev == nil {
					okForm = at(s, ix)
				} else {
					next := mk(&Term{op: "bin", name: "+", args: []*Term{prev, tInt(1)}, typ: prev.typ})
					okForm = at(next, ix)
					if n, ok := prev.intConst(); ok && !okForm {
						okForm = at(tInt(n+1), ix)
					}
					if w := p.Vars["wide|"+ix.key]; w != nil && (w.key == next.key && inRing(ix) || at(next, w)) {
						okForm = true
					}
					if z, ok := ix.intConst(); ok && z == 0 {
						for k, w := range p.Vars {
							if strings.HasPrefix(k, "wide|") && w.key == next.key && p.wrappedKey(strings.TrimPrefix(k, "wide|"), isLenVn) {
								okForm = true
							}
						}
					}
				}
			}
			p.Vars["prev"] = ix
			if !okForm {
				k := "consecutive walk"
				if isIv(ix) || (ix.op == "bin" && ix.name == "%" && isIv(ix.args[0])) {
					k = "wrap-around"
				}
				fail(k, p, e, "ring position %s is not (first position at or after the key's hash + i) modulo ring size", short(ix))
			}
		case "branch":
			v := e.Val
			if isCmp(v, "<") && isIv(v.args[0]) && isLenVn(v.args[1]) {
				if e.Truth {
					p.Set("turn")
				} else {
					p.Set("exhausted")
				}
			}
			if isCmp(v, "<") && v.args[0].op == "len" && v.args[1].isLoadOf("Ring.replication") && !e.Truth {
				p.Set("full")
			}
			if v.op == "has" && e.Truth || (v.op == "pcall" && v.name == "slices.Contains" && e.Truth) {
				if _, ok := loadField(lastKey(v), "vnode.nid"); ok {
					p.Set("dup")
				}
			}
		case "append":
			if len(e.Args) != 2 {
				fail("owner is the position's node", p, e, "owners appended in bulk")
				return
			}
			o := e.Args[1]
			if b := e.Args[0]; b.op != "append" && b.op != "wide" && !isEmptyList(p, b) {
				fail("owner is the position's node", p, e, "the list of owners starts with entries that are no owners")
			}
			ad, ok := loadField(o, "vnode.nid")
			if !ok || ad.op != "idx" || !isVn(ad.args[0]) {
				fail("owner is the position's node", p, e, "appended owner %s is not the node of a ring position", short(o))
			}
			if p.Has("taken") {
				fail("owners distinct", p, e, "one position contributes two owners")
			}
			p.Set("taken")
			if p.Decide(lt(mk(&Term{op: "len", args: []*Term{e.Args[0]}, typ: types.Typ[types.Int]}), findRel(p, "Ring.replication"))) != yes {
				fail("replication bound", p, e, "an owner is appended without len(owners) < replication holding on this path")
			}
			distinct, viaMap := false, false
			for _, r := range p.rels {
				if r.v {
					continue
				}
				if r.t.op == "has" && r.t.args[1].key == o.key {
					distinct, viaMap = true, true
				}
				if r.t.op == "pcall" && r.t.name == "slices.Contains" && r.t.args[1].key == o.key && r.t.args[0].key == e.Args[0].key {
					distinct = true
				}
			}
			if !distinct && !p.Has("marked") {
				fail("owners distinct", p, e, "owner %s appended without a check that it was not chosen before", short(o))
			}
			if viaMap && !p.Has("marked") {
				p.Set("needmark")
			}
			p.Clear("marked")
			p.Vars["lastowner"] = o
		case "mapupdate":
			if _, ok := loadField(e.Args[1], "vnode.nid"); ok {
				if p.Has("taken") {
					p.Clear("needmark")
				} else if p.Decide(hasTermFact(p, e.Args[0], e.Args[1])) == no {
					p.Set("marked")
				}
			}
		case "return":
			resolve(p, e)
			r := e.Args[0]
			if r.isNil() {
				// only for an empty ring
				for _, d := range p.doms {
					if isLenVn(d.t) {
						lo, hi := p.interval(d.t)
						if lo != nil && hi != nil && *hi == 0 {
							return
						}
					}
				}
				fail("empty ring", p, e, "returns no owners although the ring is not known to be empty")
				return
			}
			if p.Vars["start"] == nil {
				fail("search covers the ring", p, e, "owners returned without searching the ring")
			}
			if !p.Has("exhausted") && !p.Has("full") {
				fail("walk is exhaustive", p, e, "the walk stops before replication owners were found or every position was examined")
			}
		}
	}
	c.Explore(x, nil)
	c.Check("lookup: search present", searches > 0, lk.Pos(), "no search over the ring positions")
	c.Check("lookup: walk present", visits > 0, lk.Pos(), "no walk over the ring positions")
	// configuration: non-positive settings never reach the ring
	for _, w := range []struct{ fn, fld string }{{"WithVirtualNodes", "Ring.vnPerNode"}, {"WithReplication", "Ring.replication"}} {
		f := c.NeedF(relCluster, w.fn)
		if f == nil {
			continue
		}
		k := "option " + w.fn
		c.Oblige(k)
		ex := newEngine(c.P, f)
		outs := c.Explore(ex, nil)
		for _, o := range outs {
			cl := o.Res[0]
			stored, skipped := false, false
			rp := mk(&Term{op: "param", name: "ring", typ: types.NewPointer(types.Typ[types.Int])})
			ex.OnEvent = nil
			n := rootParam(f, 0)
			for _, r := range evalEvents(ex, o.Path, cl, []*Term{rp}, func(p *Path, e *Event) {
				if e.Kind == "store" && e.Addr.op == "field" {
					if e.Addr.name != w.fld || e.Val.key != n.key {
						c.Fail(k, e.Pos(), p.Trace(), "%s stores %s into %s", w.fn, short(e.Val), e.Addr.name)
					}
					if feasible(p, lt(n, tInt(1)), true) {
						c.Fail(k, e.Pos(), p.Trace(), "%s accepts a non-positive value", w.fn)
					}
					stored = true
					p.Set("stored")
				}
			}) {
				if !r.Has("stored") {
					skipped = true
					if feasible(r.Path, lt(tInt(0), n), true) {
						c.Fail(k, f.Pos(), r.Trace(), "%s ignores a positive value", w.fn)
					}
				}
			}
			_ = skipped
			if !stored {
				c.Fail(k, f.Pos(), "", "%s never stores its value", w.fn)
			}
		}
	}
	c.fieldGetter(relCluster, "Ring", "Replication", "Ring.replication")
	c.fieldGetter(relCluster, "Ring", "VirtualNodesPerNode", "Ring.vnPerNode")
	// defaults
	nr := c.NeedF(relCluster, "NewRing")
	if nr != nil {
		x := newEngine(c.P, nr)
		c.Oblige("defaults of NewRing")
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "store" && (e.Addr.isFieldAddr("Ring.vnPerNode") || e.Addr.isFieldAddr("Ring.replication")) {
				if v, ok := e.Val.intConst(); !ok || v < 1 {
					c.Fail("defaults of NewRing", e.Pos(), p.Trace(), "default of %s is not positive", e.Addr.name)
				}
				p.Set(e.Addr.name)
			}
			if e.Kind == "call" && strings.HasPrefix(e.Name, "dyn:") {
				p.Set("applied")
			}
			if e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[1].op == "len" && !e.Truth {
				p.Set("alloptions")
			}
			if e.Kind == "return" {
				if !p.Has("Ring.vnPerNode") || !p.Has("Ring.replication") {
					c.Fail("defaults of NewRing", e.Pos(), p.Trace(), "a ring is returned without defaults")
				}
				if !p.Has("alloptions") {
					c.Fail("defaults of NewRing", e.Pos(), p.Trace(), "returns before every option was applied")
				}
			}
		}
		c.Explore(x, nil)
	}
}

// fieldGetter: every path returns exactly the named field of the receiver.
func (c *Ctx) fieldGetter(rel, typ, m, field string) {
	f := c.NeedM(rel, typ, m)
	if f == nil {
		return
	}
	k := "getter " + typ + "." + m
	c.Oblige(k)
	for _, o := range c.Explore(newEngine(c.P, f), nil) {
		b, ok := loadField(o.Res[0], field)
		if !ok || b.key != "param:p0" {
			c.Fail(k, f.Pos(), o.Trace(), "%s returns %s instead of %s", m, short(o.Res[0]), field)
		}
	}
}

func evalEvents(x *Engine, p *Path, f *Term, args []*Term, on func(p *Path, e *Event)) []Outcome {
	f = f.unbox()
	if f.isCall("sync.OnceFunc") && len(f.callArgs()) == 1 {
		if g := f.callArgs()[0].unbox(); g.fn != nil && len(g.fn.Blocks) > 0 {
			save := x.OnEvent
			x.OnEvent = on
			defer func() { x.OnEvent = save }()
			return x.once(p.fork(), g.fn.Blocks[0].Instrs[0], f, g, false)
		}
	}
	if f.fn == nil || len(f.fn.Blocks) == 0 {
		return nil
	}
	save := x.OnEvent
	x.OnEvent = on
	defer func() { x.OnEvent = save }()
	q := p.fork()
	var bind []*Term
	if f.op == "closure" {
		bind = f.args
	}
	return x.call(q, f.fn, args, bind, f.fn.Blocks[0].Instrs[0])
}

func lastKey(t *Term) *Term {
	if t.op == "has" || t.name == "slices.Contains" {
		return t.args[1]
	}
	return tNil
}

// findRel finds the load term of a field among the path's facts (or a plain one).
func findRel(p *Path, field string) *Term {
	for _, r := range p.rels {
		for _, a := range r.t.args {
			if a.isLoadOf(field) {
				return a
			}
		}
	}
	return mk(&Term{op: "undef", name: field})
}

func hasTermFact(p *Path, m, k *Term) *Term {
	for _, r := range p.rels {
		if r.t.op == "has" && r.t.args[0].key == m.key && r.t.args[1].key == k.key {
			if v, ok := p.mem["mapver "+m.key]; ok && (len(r.t.args) < 3 || r.t.args[2].key != v.val.key) {
				continue // of an earlier state of the map
			}
			return r.t
		}
	}
	return mk(&Term{op: "undef", name: "has"})
}

// wrapped: the search result is known to equal the ring size.
// inRing: s, at most the ring size, is known to differ from it.
func (p *Path) inRing(s *Term, isLen func(*Term) bool) bool {
	for _, r := range p.rels {
		a, b := r.t.args[0], r.t.args[1]
		if !r.v && isCmp(r.t, "==") && (a.key == s.key && isLen(b) || b.key == s.key && isLen(a)) || r.v && isCmp(r.t, "<") && a.key == s.key && isLen(b) {
			return true
		}
	}
	return false
}

func (p *Path) wrapped(s *Term, isLen func(*Term) bool) bool { return p.wrappedKey(s.key, isLen) }

func (p *Path) wrappedKey(s string, isLen func(*Term) bool) bool {
	for _, r := range p.rels {
		if r.v && isCmp(r.t, "==") {
			a, b := r.t.args[0], r.t.args[1]
			if a.key == s && isLen(b) || b.key == s && isLen(a) {
				return true
			}
		}
		// not (s < len)
		if !r.v && isCmp(r.t, "<") && r.t.args[0].key == s && isLen(r.t.args[1]) {
			return true
		}
	}
	return false
}

func checkSearch(c *Ctx, x *Engine, p *Path, e *Event, key *Term, isVn func(*Term) bool) {
	target := mk(&Term{op: "pcall", name: "github.com/cespare/xxhash/v2.Sum64String", args: []*Term{key}, typ: types.Typ[types.Uint64]})
	if e.Name == "sort.Search" {
		n := e.Args[0]
		if !(n.op == "len" && isVn(n.args[0])) {
			c.Fail("lookup: search covers the ring", e.Pos(), p.Trace(), "search covers %s, not the whole ring", short(n))
			return
		}
		f := e.Args[1].unbox()
		if f.fn == nil {
			c.Fail("lookup: search predicate", e.Pos(), p.Trace(), "search predicate cannot be resolved")
			return
		}
		ip := mk(&Term{op: "param", name: "probe", typ: types.Typ[types.Int]})
		for _, o := range x.Eval(p, f, []*Term{ip}) {
			// the probed hash
			r := o.Res[0]
			okd := false
			for _, cand := range []*Term{r, tNot(r)} {
				b := cand
				if b.op == "not" {
					continue
				}
				if isCmp(b, "<") || isCmp(b, "==") {
					okd = true
				}
				_ = b
			}
			vh := vnodeHashTerm(r)
			if !okd || vh == nil {
				c.Fail("lookup: search predicate", e.Pos(), o.Trace(), "search predicate %s does not compare a ring position's hash", short(r))
				continue
			}
			tg := target
			if !r.contains(target) {
				c.Fail("lookup: target is the key's hash", e.Pos(), o.Trace(), "search target in %s is not the hash of the looked-up key", short(r))
				continue
			}
			if a, ok := loadField(vh, "vnode.hash"); !ok || a.op != "idx" || !isVn(a.args[0]) || a.args[1].key != ip.key {
				c.Fail("lookup: search predicate", e.Pos(), o.Trace(), "search predicate reads %s", short(vh))
			}
			for _, s := range []int{-1, 0, 1} { // position hash vs target
				q := o.Path.fork()
				ok := true
				switch s {
				case -1:
					ok = q.Assume(lt(vh, tg), true) && q.Assume(lt(tg, vh), false) && q.Assume(eq(vh, tg), false)
				case 0:
					ok = q.Assume(lt(vh, tg), false) && q.Assume(lt(tg, vh), false) && q.Assume(eq(vh, tg), true)
				case 1:
					ok = q.Assume(lt(vh, tg), false) && q.Assume(lt(tg, vh), true) && q.Assume(eq(vh, tg), false)
				}
				if !ok {
					continue
				}
				want := s >= 0
				d := q.Decide(r)
				if d == unknown || (d == yes) != want {
					c.Fail("lookup: search predicate", e.Pos(), o.Trace(), "search predicate %s is not 'position hash >= key hash' (order %d)", short(r), s)
				}
			}
		}
		return
	}
	// slices.BinarySearchFunc(vnodes, target, cmp)
	if !isVn(e.Args[0]) {
		c.Fail("lookup: search covers the ring", e.Pos(), p.Trace(), "search does not cover the ring")
	}
	if e.Args[1].key != target.key {
		c.Fail("lookup: target is the key's hash", e.Pos(), p.Trace(), "search target is %s", short(e.Args[1]))
	}
	f := e.Args[2].unbox()
	if f.fn == nil || len(f.fn.Params) != 2 {
		c.Fail("lookup: search predicate", e.Pos(), p.Trace(), "comparator cannot be resolved")
		return
	}
	pa := mk(&Term{op: "param", name: "elem", typ: f.fn.Params[0].Type()})
	pb := mk(&Term{op: "param", name: "target", typ: f.fn.Params[1].Type()})
	for _, o := range x.Eval(p, f, []*Term{pa, pb}) {
		var vh *Term
		st := structOf(pa.typ)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if !isStringT(st.Field(i).Type()) {
				vh = mk(&Term{op: "fld", name: fieldName(st.Field(i), pa.typ), args: []*Term{pa}, typ: st.Field(i).Type(), fld: st.Field(i)})
			}
		}
		if vh == nil {
			c.Fail("lookup: search predicate", e.Pos(), o.Trace(), "comparator does not compare ring positions")
			return
		}
		for _, s := range []int{-1, 0, 1} {
			q := o.Path.fork()
			var ok bool
			switch s {
			case -1:
				ok = q.Assume(lt(vh, pb), true)
			case 0:
				ok = q.Assume(eq(vh, pb), true) && q.Assume(lt(vh, pb), false) && q.Assume(lt(pb, vh), false)
			default:
				ok = q.Assume(lt(pb, vh), true)
			}
			if !ok {
				continue
			}
			if g, k := signUnder(q, o.Res[0]); !k || g != s {
				c.Fail("lookup: search predicate", e.Pos(), o.Trace(), "search comparator is wrong for order %d", s)
			}
		}
	}
}

func vnodeHashTerm(t *Term) *Term {
	var r *Term
	t.any(func(u *Term) bool {
		if u.isLoadOf("vnode.hash") {
			r = u
			return true
		}
		return false
	})
	return r
}

func clusterRoots(c *Ctx) []*ssa.Function {
	return append(c.exportedRoots(relCluster), c.goRoots(relCluster)...)
}

func isOptionClosure(f *ssa.Function) bool {
	// closures returned by With* constructors run before the object is shared
	return f.Parent() != nil && strings.HasPrefix(f.Parent().Name(), "With")
}

func runC03(c *Ctx) {
	c.runLocks(relCluster, clusterRoots(c), lockRules{
		Guards: []guard{
			{Field: "Ring.vnodes", Lock: "Ring.mu", ROK: true},
			{Field: "Membership.nodes", Lock: "Membership.mu"},
			{Field: "Membership.observers", Lock: "Membership.mu", ROK: true},
		},
		Exempt:     isOptionClosure,
		NoCallback: true, NoBlock: true,
	})
	// member records reached through the shared map are touched only under the lock
	for _, f := range c.typeMethods(relCluster, "Membership", true) {
		k := "member records in " + calleeName(f)
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "append" {
				for _, v := range e.Args[1:] {
					if sharedNode(v) {
						p.Set("sharedlist") // a list of records, not of copies
					}
				}
			}
			if e.Kind != "load" && e.Kind != "store" {
				return
			}
			a := e.Addr
			fromList := func(b *Term) bool {
				return p.Has("sharedlist") && (b.op == "elem" || b.op == "load" && b.args[0].op == "idx") && typeStr(derefT(b.typ)) == relCluster+".Node"
			}
			if a.op == "field" && strings.HasPrefix(a.name, "Node.") || (a.op == "lookup" || a.op == "mapval") || fromList(a) {
				b := a
				if a.op == "field" {
					b = a.args[0]
				}
				if !sharedNode(b) && !fromList(b) || a.name == "Node.ID" {
					return
				}
				isMu := func(t *Term) bool { return t.isFieldAddr("Membership.mu") }
				held := p.HeldW(isMu)
				if e.Kind == "load" {
					held = p.HeldRW(isMu)
				}
				if !held {
					c.Fail(k, e.Pos(), p.Trace(), "%s of %s of a shared member record without the membership lock", e.Kind, a.name)
				}
			}
		}
		c.Explore(x, nil)
	}
}

// sharedNode: a *Node obtained from the membership map.
func sharedNode(t *Term) bool {
	t = t.unbox()
	switch t.op {
	case "lookup":
		return t.args[0].isLoadOf("Membership.nodes")
	case "mapval":
		return len(t.attr) > 0 && t.attr[0].isLoadOf("Membership.nodes")
	}
	return false
}

func stateConst(p *Path, t *Term) (int64, bool) {
	if k := p.Const(t); k != nil {
		return k.intConst()
	}
	return 0, false
}

func notDead(p *Path, t *Term) bool {
	return p.Decide(eq(t, tInt(2))) == no
}

func runC04(c *Ctx) {
	nd := nodeStateConst(c, "NodeDead")
	if nd != 2 {
		c.failAt("anchor NodeDead", "?", "", fmt.Sprintf("NodeDead has value %d", nd))
	}
	for _, m := range c.typeMethods(relCluster, "Membership", true) {
		nm := calleeName(m)
		k1, k2, k3 := "ring follows members in "+nm, "ring list is exactly the live members in "+nm, "ring built under the lock in "+nm
		c.Oblige(k1)
		c.Oblige(k2)
		c.Oblige(k3)
		x := newEngine(c.P, m)
		bld := c.P.method(relCluster, "Ring", "Build")
		x.NoInline = func(f *ssa.Function) bool { return f == bld }
		isMu := func(t *Term) bool { return t.isFieldAddr("Membership.mu") }
		endIter := func(p *Path, e *Event) {
			if p.Has("iter") && !p.Has("in") {
				// a member was left out: it must be known dead (or a nil record)
				v := p.Vars["member"]
				st := nodeStateOf(p, v)
				if !(p.IsTrue(eq(st, tInt(2))) || p.KnownNil(v)) {
					p.Set("badscan")
				}
			}
			p.Clear("iter")
			p.Clear("in")
		}
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "mapupdate", "delete":
				if e.Addr.isLoadOf("Membership.nodes") {
					p.Set("dirty")
					p.Clear("scanned")
					p.Clear("badscan")
				}
			case "store":
				if e.Addr.isFieldAddr("Node.State") && sharedNode(e.Addr.args[0]) {
					if p.Vars["oldstate"] == nil {
						p.Vars["oldstate"] = nodeStateOf(p, e.Addr.args[0])
					}
					p.Vars["newstate"] = e.Val
					p.Clear("scanned")
					p.Clear("badscan")
				}
			case "prenext":
				if !e.Args[0].isLoadOf("Membership.nodes") {
					return
				}
				endIter(p, e)
				delete(p.Vars, "member")
			case "branch":
				if e.Val.op == "nextok" && e.Val.attr[0].isLoadOf("Membership.nodes") {
					if e.Truth {
						p.Set("iter")
						p.Vars["member"] = mk(&Term{op: "mapval", args: []*Term{e.Val.args[0]}, attr: []*Term{e.Val.attr[0]}, typ: mapElem(e.Val.attr[0])})
					} else {
						p.Set("scanned")
						delete(p.Vars, "member")
					}
				}
			case "append":
				if v := p.Vars["member"]; v != nil && p.Has("iter") && len(e.Args) == 2 && e.Args[1].key == v.key {
					if b := e.Args[0]; b.op != "append" && b.op != "wide" && !isEmptyList(p, b) {
						c.Fail(k2, e.Pos(), p.Trace(), "the ring list starts with entries that are no members")
					}
					if p.Has("in") {
						c.Fail(k2, e.Pos(), p.Trace(), "a member is added to the ring list twice")
					}
					p.Set("in")
					if !notDead(p, nodeStateOf(p, v)) {
						c.Fail(k2, e.Pos(), p.Trace(), "a member that may be dead is added to the ring list")
					}
					p.Vars["list"] = e.Res
				}
			case "call":
				if e.Fn == bld {
					if !p.HeldW(isMu) {
						c.Fail(k3, e.Pos(), p.Trace(), "the ring is built without holding the membership lock: a concurrent change can be overwritten by this older member list")
					}
					if !p.Has("scanned") || p.Has("iter") {
						c.Fail(k2, e.Pos(), p.Trace(), "the ring is built from a list that was not collected from all current members")
					}
					if p.Has("badscan") {
						c.Fail(k2, e.Pos(), p.Trace(), "a member not known to be dead is left out of the ring")
					}
					if !e.Args[0].isLoadOf("Membership.ring") {
						c.Fail(k1, e.Pos(), p.Trace(), "another ring is rebuilt: %s", short(e.Args[0]))
					}
					l := e.Args[1]
					if !(l.op == "append" || l.op == "makeslice" || l.isNil() || l.op == "slice") {
						c.Fail(k2, e.Pos(), p.Trace(), "the ring is built from %s, not from the collected members", short(l))
					}
					p.Clear("dirty")
					delete(p.Vars, "oldstate")
					delete(p.Vars, "newstate")
				}
			case "lock":
				p.Clear("scanned")
				p.Clear("badscan")
			case "unlock":
				if o, n := p.Vars["oldstate"], p.Vars["newstate"]; o != nil && n != nil && !(notDead(p, o) && notDead(p, n)) {
					p.Set("dirty")
				}
				if isMu(e.Addr) && p.Has("dirty") {
					c.Fail(k1, e.Pos(), p.Trace(), "the membership lock is released after a membership change without rebuilding the ring from it")
				}
			}
		}
		c.Explore(x, nil)
	}
	c.fieldGetter(relCluster, "Membership", "Ring", "Membership.ring")
}

func mapElem(m *Term) types.Type {
	if m.typ != nil {
		if mt, ok := m.typ.Underlying().(*types.Map); ok {
			return mt.Elem()
		}
	}
	return nil
}

// nodeStateOf is the current value of n.State on the path.
func nodeStateOf(p *Path, n *Term) *Term {
	t := n.typ
	if t == nil {
		return mk(&Term{op: "undef", name: "state"})
	}
	st := structOf(derefT(t))
	if st == nil {
		return mk(&Term{op: "undef", name: "state"})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "State" {
			return p.x.Load(p, fieldAddr(n, derefT(t), st.Field(i)), st.Field(i).Type())
		}
	}
	return mk(&Term{op: "undef", name: "state"})
}

func nodeStateConst(c *Ctx, name string) int64 {
	p := c.P.pkg(relCluster)
	if p == nil || p.Const(name) == nil {
		return -1
	}
	return p.Const(name).Value.Int64()
}

func runC05(c *Ctx) {
	type spec struct {
		fn                string
		unknownOK         bool // false result on unknown member
		same              bool // same-state path is quiet
		incs              bool
		state             func(p *Path, v *Term) bool
		notifyState       func(p *Path, v *Term) bool
		removes, upserts_ bool
	}
	alive, dead := nodeStateConst(c, "NodeAlive"), nodeStateConst(c, "NodeDead")
	isC := func(n int64) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool { k, ok := stateConst(p, v); return ok && k == n }
	}
	specs := []spec{
		{fn: "Upsert", upserts_: true},
		{fn: "Remove", unknownOK: true, removes: true, notifyState: isC(dead)},
		{fn: "Mark", unknownOK: true, same: true, incs: true, state: func(p *Path, v *Term) bool { return v.key == "param:p2" }, notifyState: func(p *Path, v *Term) bool { return v.key == "param:p2" }},
		{fn: "Refute", unknownOK: true, incs: true, state: isC(alive), notifyState: isC(alive)},
	}
	covered := map[string]bool{"Upsert": true, "Remove": true, "Mark": true, "Refute": true, "OnStateChange": true, "List": true, "Ring": true, "Version": true}
	for _, m := range c.typeMethods(relCluster, "Membership", true) {
		if !covered[m.Name()] {
			// a new operation: it must not touch member records at all
			k := "no unlisted mutation " + calleeName(m)
			c.Oblige(k)
			x := newEngine(c.P, m)
			x.OnEvent = func(p *Path, e *Event) {
				if (e.Kind == "mapupdate" || e.Kind == "delete") && e.Addr.isLoadOf("Membership.nodes") || e.Kind == "store" && e.Addr.op == "field" && sharedNode(e.Addr.args[0]) {
					c.Fail(k, e.Pos(), p.Trace(), "%s changes members but is not one of the specified operations", calleeName(m))
				}
			}
			c.Explore(x, nil)
		}
	}
	for _, s := range specs {
		f := c.NeedM(relCluster, "Membership", s.fn)
		if f == nil {
			continue
		}
		kk := func(w string) string { return s.fn + ": " + w }
		for _, w := range []string{"unknown member", "same state is quiet", "incarnation", "state", "version advances once", "observers see the change", "every observer runs once, in order", "last-seen refreshed", "result", "record stored"} {
			c.Oblige(kk(w))
		}
		x := newEngine(c.P, f)
		bld := c.P.method(relCluster, "Ring", "Build")
		x.NoInline = func(g *ssa.Function) bool { return g == bld }
		idTerm := rootParam(f, 1)
		member := func(t *Term) bool { return sharedNode(t) }
		// the registered observers, or a copy of them
		obs := func(p *Path, t *Term) bool {
			if t.op == "pcall" && t.name == "slices.Clone" && len(t.args) == 1 {
				t = t.args[0]
			} else if q := p.Vars["copyof|"+t.key]; q != nil {
				t = q
			}
			return t.isLoadOf("Membership.observers")
		}
		x.OnEvent = func(p *Path, e *Event) {
			noteCopies(p, e)
			fail := func(w, fm string, a ...any) { c.Fail(kk(w), e.Pos(), p.Trace(), fm, a...) }
			switch e.Kind {
			case "branch":
				if e.Val.op == "has" && e.Val.args[0].isLoadOf("Membership.nodes") && e.Val.args[1].key == idTerm.key {
					if e.Truth {
						p.Set("known")
					} else {
						p.Set("unknown")
					}
				}
				if isCmp(e.Val, "==") && e.Val.args[1].isNil() && e.Val.args[0].op == "lookup" {
					if e.Truth {
						p.Set("unknown")
					} else {
						p.Set("known")
					}
				}
				if isCmp(e.Val, "<") && isIv(e.Val.args[0]) && e.Val.args[1].op == "len" && obs(p, e.Val.args[1].args[0]) {
					if p.Has("obs-iter") && !p.Has("obs-called") {
						fail("every observer runs once, in order", "an observer is skipped")
					}
					p.Clear("obs-called")
					if e.Truth {
						p.Set("obs-iter")
					} else {
						p.Clear("obs-iter")
						p.Set("obs-done")
					}
				}
			case "lookup":
				if e.Args[0].isLoadOf("Membership.nodes") && e.Args[1].key != idTerm.key && s.fn != "Upsert" {
					fail("record stored", "looks up %s instead of the requested member", short(e.Args[1]))
				}
			case "mapupdate":
				if e.Addr.isLoadOf("Membership.nodes") {
					b, ok := loadField(e.Args[1], "Node.ID")
					if !s.upserts_ || !ok || b.key != idTerm.key {
						fail("record stored", "member stored under %s", short(e.Args[1]))
					} else if !(e.Val.key == idTerm.key || copyOf(p, e.Val, idTerm)) {
						fail("record stored", "stores %s instead of the given member", short(e.Val))
					}
					p.Set("stored")
				}
			case "delete":
				if e.Addr.isLoadOf("Membership.nodes") {
					if !s.removes || e.Args[1].key != idTerm.key {
						fail("record stored", "deletes %s", short(e.Args[1]))
					}
					p.Set("deleted")
				}
			case "store":
				if e.Addr.op != "field" || !(member(e.Addr.args[0]) || e.Addr.args[0].key == idTerm.key) {
					return
				}
				switch e.Addr.name {
				case "Node.Incarnation":
					if !s.incs || p.Has("inc") {
						fail("incarnation", "incarnation changed")
					}
					cur := mk(&Term{op: "load", args: []*Term{e.Addr}})
					v := e.Val
					if !(v.op == "bin" && v.name == "+" && v.args[1].key == "1" && v.args[0].isLoadOf("Node.Incarnation")) {
						fail("incarnation", "incarnation set to %s instead of being advanced by one", short(v))
					}
					_ = cur
					p.Set("inc")
				case "Node.State":
					if s.state == nil || !s.state(p, e.Val) {
						fail("state", "state set to %s", short(e.Val))
					}
					p.Set("state")
				case "Node.LastSeen":
					if !e.Val.isCall("time.Now") {
						fail("last-seen refreshed", "last-seen set to %s", short(e.Val))
					}
					p.Set("seen")
				default:
					fail("record stored", "member field %s overwritten", e.Addr.name)
				}
			case "call":
				if strings.HasPrefix(e.Name, "sync/atomic.") && e.Args[0].any(func(t *Term) bool { return t.op == "field" && t.name == "Membership.ver" }) {
					if strings.HasSuffix(e.Name, ".Add") && e.Args[1].key == "1" {
						if p.Has("ver") {
							fail("version advances once", "version advanced twice")
						}
						p.Set("ver")
						p.Vars["version"] = e.Res
						if !p.HeldW(func(t *Term) bool { return t.isFieldAddr("Membership.mu") }) {
							fail("version advances once", "version advanced outside the membership lock: versions and changes can be ordered differently")
						}
					} else if !strings.HasSuffix(e.Name, ".Load") {
						fail("version advances once", "version changed by %s", e.Name)
					}
				}
				if e.Addr != nil && e.Addr.op == "load" && e.Addr.any(func(t *Term) bool { return obs(p, t) }) {
					if p.Has("obs-called") {
						fail("every observer runs once, in order", "an observer is called twice for one change")
					}
					p.Set("obs-called")
					p.Set("notified")
					if a := e.Addr.args[0]; !(a.op == "idx" && isIv(a.args[1]) && a.args[1].op == "iv") {
						fail("every observer runs once, in order", "observers are not called in registration order")
					}
					if len(e.Args) == 3 {
						okID := e.Args[0].key == idTerm.key
						if b, ok := loadField(e.Args[0], "Node.ID"); ok && b.key == idTerm.key {
							okID = true
						}
						if !okID {
							fail("observers see the change", "observers are told about %s", short(e.Args[0]))
						}
						if s.notifyState != nil {
							if !s.notifyState(p, e.Args[1]) {
								fail("observers see the change", "observers are told state %s", short(e.Args[1]))
							}
						} else if b, ok := loadField(e.Args[1], "Node.State"); !ok || b.key != idTerm.key {
							fail("observers see the change", "observers are told state %s", short(e.Args[1]))
						}
						if v := p.Vars["version"]; v == nil || v.key != e.Args[2].key {
							fail("observers see the change", "observers are told version %s, not the version of this change", short(e.Args[2]))
						}
					}
				}
			case "return":
				var r *Term
				if len(e.Args) == 1 {
					r = e.Args[0]
				}
				changed := p.Has("inc") || p.Has("state") || p.Has("stored") || p.Has("deleted")
				if s.unknownOK {
					d := p.Decide(r)
					if p.Has("unknown") == p.Has("known") {
						fail("unknown member", "the member's existence is not checked")
					}
					if p.Has("unknown") {
						if d != no {
							fail("result", "reports success for an unknown member")
						}
						if changed || p.Has("seen") || p.Has("ver") || p.Has("notified") || p.Has("obs-done") {
							fail("unknown member", "an unknown member still causes a change, a version or a notification")
						}
						return
					}
					if d != yes {
						fail("result", "reports failure for a known member")
					}
				}
				same := false
				if s.same {
					st := mk(&Term{op: "undef", name: "?"})
					for _, q := range p.rels {
						if isCmp(q.t, "==") && q.v && (q.t.args[0].isLoadOf("Node.State") || q.t.args[1].isLoadOf("Node.State")) && (q.t.args[0].key == "param:p2" || q.t.args[1].key == "param:p2") {
							same = true
						}
						if isCmp(q.t, "==") && !q.v && (q.t.args[0].isLoadOf("Node.State") || q.t.args[1].isLoadOf("Node.State")) && (q.t.args[0].key == "param:p2" || q.t.args[1].key == "param:p2") {
							p.Set("differs")
						}
					}
					_ = st
					if !same && !p.Has("differs") {
						fail("same state is quiet", "a transition is not distinguished from a repeated state")
					}
				}
				if s.fn != "Remove" && !p.Has("seen") {
					fail("last-seen refreshed", "last-seen is not refreshed")
				}
				if same {
					if changed || p.Has("ver") || p.Has("notified") || p.Has("obs-done") {
						fail("same state is quiet", "repeating the current state advances incarnation or version, or notifies")
					}
					return
				}
				if !p.Has("ver") {
					fail("version advances once", "a change does not advance the version")
				}
				if !p.Has("obs-done") {
					fail("every observer runs once, in order", "a change is not announced to all observers")
				}
				if s.incs && !p.Has("inc") {
					fail("incarnation", "incarnation is not advanced")
				}
				if s.state != nil && !p.Has("state") {
					fail("state", "state is not recorded")
				}
				if s.upserts_ && !p.Has("stored") || s.removes && !p.Has("deleted") {
					fail("record stored", "the change is not recorded")
				}
			}
		}
		c.Explore(x, nil)
	}
	// observers: nil is ignored, anything else appended at the end
	if f := c.NeedM(relCluster, "Membership", "OnStateChange"); f != nil {
		k := "OnStateChange"
		c.Oblige(k)
		x := newEngine(c.P, f)
		fn := rootParam(f, 1)
		x.OnEvent = func(p *Path, e *Event) {
			if e.Kind == "store" && e.Addr.isFieldAddr("Membership.observers") {
				v := e.Val
				if v.op != "append" || len(v.attr) != 2 || v.attr[1].key != fn.key || !v.attr[0].isLoadOf("Membership.observers") {
					c.Fail(k, e.Pos(), p.Trace(), "registration stores %s instead of appending the observer", short(v))
				}
				if p.Decide(eq(fn, tNil)) != no {
					c.Fail(k, e.Pos(), p.Trace(), "a nil observer is registered")
				}
				p.Set("reg")
			}
			if e.Kind == "return" && !p.Has("reg") && p.Decide(eq(fn, tNil)) != yes {
				c.Fail(k, e.Pos(), p.Trace(), "a non-nil observer is not registered")
			}
		}
		c.Explore(x, nil)
	}
	// version counter
	if f := c.NeedM(relCluster, "MembershipVersion", "Next"); f != nil {
		c.Oblige("Next")
		for _, o := range c.Explore(newEngine(c.P, f), nil) {
			a := o.Res[0].callArgs()
			if !o.Res[0].isCall("sync/atomic.(*Uint64).Add") || len(a) != 2 || a[1].key != "1" {
				c.Fail("Next", f.Pos(), o.Trace(), "the next version is %s, not an atomic increment by one", short(o.Res[0]))
			}
		}
	}
	for _, w := range []struct{ t, m string }{{"MembershipVersion", "Get"}, {"Membership", "Version"}} {
		if f := c.NeedM(relCluster, w.t, w.m); f != nil {
			c.Oblige("read " + w.t)
			for _, o := range c.Explore(newEngine(c.P, f), nil) {
				if !o.Res[0].isCall("sync/atomic.(*Uint64).Load") {
					c.Fail("read "+w.t, f.Pos(), o.Trace(), "version read as %s", short(o.Res[0]))
				}
			}
		}
	}
}

// copyOf: v is a fresh record whose fields were copied from src.
func copyOf(p *Path, v, src *Term) bool {
	if v.op != "alloc" {
		return false
	}
	w := p.x.Load(p, v, derefT(v.typ))
	return w.any(func(t *Term) bool { return t.key == src.key })
}

func runC06(c *Ctx) {
	// List: fresh slice of fresh records
	if f := c.NeedM(relCluster, "Membership", "List"); f != nil {
		k := "List returns copies"
		c.Oblige(k)
		c.Oblige("List is complete")
		x := newEngine(c.P, f)
		n := 0
		x.OnEvent = func(p *Path, e *Event) {
			end := func() {
				if p.Has("iter") && !p.Has("took") && !p.Has("nilrec") {
					c.Fail("List is complete", e.Pos(), p.Trace(), "a member is left out of the listing")
				}
				p.Clear("iter")
				p.Clear("took")
				p.Clear("nilrec")
			}
			switch e.Kind {
			case "next":
				end()
			case "branch":
				if e.Val.op == "nextok" {
					if e.Truth {
						p.Set("iter")
					} else {
						p.Set("all")
					}
				}
				if isCmp(e.Val, "==") && e.Val.args[1].isNil() && sharedNode(e.Val.args[0]) && e.Truth {
					p.Set("nilrec")
				}
			case "append":
				n++
				v := e.Args[1]
				if b := e.Args[0]; b.op != "append" && b.op != "wide" && !isEmptyList(p, b) {
					c.Fail("List is complete", e.Pos(), p.Trace(), "the listing starts with entries that are no members")
				}
				if v.op != "alloc" {
					c.Fail(k, e.Pos(), p.Trace(), "the listing hands out %s, which callers share with the membership", short(v))
				} else {
					w := x.Load(p, v, derefT(v.typ))
					ok := w.op == "load" && sharedNode(w.args[0]) && w.args[0].site == 0
					if w.op == "struct" {
						ok = true
						st := structOf(w.typ)
						for i := range w.args {
							b, is := loadField(w.args[i], "Node."+st.Field(i).Name())
							if !is || !sharedNode(b) {
								ok = false
							}
						}
					}
					if !ok {
						c.Fail(k, e.Pos(), p.Trace(), "listed record %s is not a copy of the member", short(w))
					}
				}
				if p.Has("took") {
					c.Fail("List is complete", e.Pos(), p.Trace(), "a member is listed twice")
				}
				p.Set("took")
			case "return":
				end()
				r := e.Args[0]
				if !(r.op == "append" || r.op == "makeslice" || r.isNil()) {
					c.Fail(k, e.Pos(), p.Trace(), "returns %s", short(r))
				}
				if !p.Has("all") {
					c.Fail("List is complete", e.Pos(), p.Trace(), "returns before every member was listed")
				}
			}
		}
		c.Explore(x, nil)
		c.Check("List appends", n > 0, f.Pos(), "List never adds a member")
	}
	// the ring inspection shows every position
	if f := c.NeedM(relCluster, "Ring", "VNodeHashes"); f != nil {
		k := "ring inspection is complete"
		c.Oblige(k)
		x := newEngine(c.P, f)
		lm := &listMap{
			turns: turns{tag: "v", over: func(p *Path, s *Term) bool { return s.isLoadOf("Ring.vnodes") }},
			elem:  "string",
			bad:   func(p *Path, e *Event, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) },
			item: func(p *Path, e *Event, v, iv *Term) string {
				h, id := false, false
				v.any(func(u *Term) bool {
					if u.contains(iv) {
						_, isH := loadField(u, "vnode.hash")
						_, isN := loadField(u, "vnode.nid")
						h, id = h || isH, id || isN
					}
					return false
				})
				if !h || !id {
					return "an entry shows " + short(v)
				}
				return ""
			},
		}
		x.OnEvent = func(p *Path, e *Event) {
			lm.on(p, e)
			if e.Kind == "return" && !lm.result(p, e.Args[0]) {
				c.Fail(k, e.Pos(), p.Trace(), "returns %s, which does not list every position", short(e.Args[0]))
			}
		}
		c.Explore(x, nil)
	}
	// ring readers: nothing returned aliases the ring's positions
	for _, m := range c.typeMethods(relCluster, "Ring", true) {
		if m.Signature.Results().Len() == 0 {
			continue
		}
		k := "fresh result of " + calleeName(m)
		c.Oblige(k)
		for _, o := range c.Explore(newEngine(c.P, m), nil) {
			for _, r := range o.Res {
				r = r.unbox()
				if r.op == "load" || (r.op == "slice" && r.args[0].op == "load") || r.op == "field" {
					if _, ok := typUnder(r).(*types.Basic); !ok {
						c.Fail(k, m.Pos(), o.Trace(), "%s returns %s, shared with the ring", calleeName(m), short(r))
					}
				}
			}
		}
	}
	// the member map itself never leaves
	for _, m := range c.typeMethods(relCluster, "Membership", true) {
		k := "no shared state returned by " + calleeName(m)
		c.Oblige(k)
		for _, o := range c.Explore(newEngine(c.P, m), nil) {
			for _, r := range o.Res {
				if r.isLoadOf("Membership.nodes") || r.isLoadOf("Membership.observers") || sharedNode(r) {
					c.Fail(k, m.Pos(), o.Trace(), "%s returns %s", calleeName(m), short(r))
				}
			}
		}
	}
}

func typUnder(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

func runC07(c *Ctx) {
	if f := c.NeedF(relCluster, "NewNode"); f != nil {
		for _, k := range []string{"id kept", "id derived from address", "address kept", "initial state", "initial incarnation"} {
			c.Oblige("NewNode: " + k)
		}
		id, addr := rootParam(f, 0), rootParam(f, 1)
		alive := nodeStateConst(c, "NodeAlive")
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			trackContent(p, e)
			if e.Kind == "precall" && strings.HasPrefix(e.Name, "encoding/binary.") && strings.Contains(e.Name, ".Put") && len(e.Args) >= 2 {
				d, need := e.Args[len(e.Args)-2], map[string]int64{"PutUint64": 8, "PutUint32": 4, "PutUint16": 2}[e.Name[strings.LastIndex(e.Name, ".")+1:]]
				if need > 0 {
					n, ok := constLen(d)
					if ok && n < need {
						c.Fail("NewNode: id derived from address", e.Pos(), p.Trace(), "%s writes %d bytes into a buffer of %d: it panics", e.Name, need, n)
					}
				}
			}
			if e.Kind == "call" && (hasPrefixAny(e.Name, "math/rand", "crypto/rand", "os.")) {
				c.Fail("NewNode: id derived from address", e.Pos(), p.Trace(), "node construction uses %s", e.Name)
			}
			if e.Kind != "return" {
				return
			}
			n := e.Args[0]
			w := x.Load(p, n, derefT(n.typ))
			if w.op != "struct" {
				c.Fail("NewNode: address kept", e.Pos(), p.Trace(), "returns %s", short(w))
				return
			}
			st := structOf(w.typ)
			get := func(nm string) *Term {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == nm {
						return w.args[i]
					}
				}
				return tNil
			}
			if get("Address").key != addr.key {
				c.Fail("NewNode: address kept", e.Pos(), p.Trace(), "address is %s", short(get("Address")))
			}
			if s, ok := stateConst(p, get("State")); !ok || s != alive {
				c.Fail("NewNode: initial state", e.Pos(), p.Trace(), "initial state is %s", short(get("State")))
			}
			if i, ok := get("Incarnation").intConst(); !ok || i < 1 {
				c.Fail("NewNode: initial incarnation", e.Pos(), p.Trace(), "initial incarnation is %s", short(get("Incarnation")))
			}
			if ls := get("LastSeen"); !ls.isCall("time.Now") && !ls.any(func(u *Term) bool { return u.isCall("time.Now") }) {
				c.Fail("NewNode: initial state", e.Pos(), p.Trace(), "a new node was last seen at %s, not at its creation", short(ls))
			}
			nid := get("ID")
			if p.IsTrue(eq(id, tEmpty)) {
				dep := false
				part := func(t *Term) bool { // only part of the address goes in
					switch t.op {
					case "elem", "idx", "len":
						return true
					case "slice":
						return len(t.args) > 1
					case "pcall", "call":
						return hasPrefixAny(t.name, "net.", "net/", "strings.", "path.", "bytes.") && !strings.HasSuffix(t.name, ".Clone")
					}
					return false
				}
				for _, d := range depsBut(p, nid, part) {
					if d.key == addr.key {
						dep = true
					}
				}
				for _, d := range depsOf(p, nid) {
					if d.op == "call" && (impureSource(d.name)) || d.op == "param" && d.key != addr.key {
						c.Fail("NewNode: id derived from address", e.Pos(), p.Trace(), "derived id depends on %s", short(d))
					}
				}
				if !dep || nid.isConst() {
					c.Fail("NewNode: id derived from address", e.Pos(), p.Trace(), "derived id %s does not depend on the whole address", short(nid))
				}
			} else if p.IsFalse(eq(id, tEmpty)) {
				if nid.key != id.key {
					c.Fail("NewNode: id kept", e.Pos(), p.Trace(), "explicit id replaced by %s", short(nid))
				}
			} else if nid.key != id.key {
				c.Fail("NewNode: id kept", e.Pos(), p.Trace(), "id becomes %s whether or not one was given", short(nid))
			} else {
				c.Fail("NewNode: id derived from address", e.Pos(), p.Trace(), "an empty id is kept")
			}
		}
		c.Explore(x, nil)
	}
	if f := c.NeedM(relCluster, "Node", "Validate"); f != nil {
		c.Oblige("Validate: empty address rejected")
		c.Oblige("Validate: unparsable address rejected")
		c.Oblige("Validate: errors carry the sentinel")
		c.Oblige("Validate: accepts valid")
		acc := false
		for _, o := range c.Explore(newEngine(c.P, f), nil) {
			r := o.Res[0]
			var addr, perr *Term
			for _, d := range o.doms {
				if d.t.isLoadOf("Node.Address") {
					addr = d.t
				}
				if d.t.isCall("net.SplitHostPort") && d.t.idx == 2 {
					perr = d.t
				}
			}
			if o.KnownNil(r) {
				acc = true
				if addr == nil || o.Decide(eq(addr, tEmpty)) != no {
					c.Fail("Validate: empty address rejected", f.Pos(), o.Trace(), "an empty address can be accepted")
				}
				if perr == nil || !o.KnownNil(perr) {
					c.Fail("Validate: unparsable address rejected", f.Pos(), o.Trace(), "an address that does not parse can be accepted")
				}
			} else if !wrapsSentinel(r, "internal/cluster.ErrInvalidAddress") {
				c.Fail("Validate: errors carry the sentinel", f.Pos(), o.Trace(), "returns %s, which does not identify an invalid address", short(r))
			} else if addr != nil && o.Decide(eq(addr, tEmpty)) == no && perr != nil && o.KnownNil(perr) {
				c.Fail("Validate: accepts valid", f.Pos(), o.Trace(), "a parsable address is rejected")
			}
		}
		c.Check("Validate: some address accepted", acc, f.Pos(), "no path accepts an address")
	}
	if f := c.NeedM(relCluster, "NodeState", "String"); f != nil {
		want := map[int64]string{nodeStateConst(c, "NodeAlive"): "alive", nodeStateConst(c, "NodeSuspect"): "suspect", nodeStateConst(c, "NodeDead"): "dead"}
		c.Check("state constants distinct", len(want) == 3, f.Pos(), "node states are not distinct")
		c.enumString("state name", f, want, "unknown")
	}
}

// enumString checks a constant-to-name mapping over its finite partition.
func (c *Ctx) enumString(key string, f *ssa.Function, want map[int64]string, def string) {
	s := rootParam(f, 0)
	for v, n := range want {
		k := fmt.Sprintf("%s %d=%s", key, v, n)
		c.Oblige(k)
		x := newEngine(c.P, f)
		outs := c.Explore(x, func(p *Path, _ []*Term) { p.Assume(eq(s, tInt(v)), true) })
		if len(outs) == 0 {
			c.Fail(k, f.Pos(), "", "no outcome")
		}
		for _, o := range outs {
			if got, ok := o.Res[0].strConst(); !ok || got != n {
				c.Fail(k, f.Pos(), o.Trace(), "value %d is named %s, want %q", v, short(o.Res[0]), n)
			}
		}
	}
	if def != "" {
		k := key + " default"
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, func(p *Path, _ []*Term) {
			for v := range want {
				p.Assume(eq(s, tInt(v)), false)
			}
		}) {
			if got, ok := o.Res[0].strConst(); !ok || got != def {
				c.Fail(k, f.Pos(), o.Trace(), "other values are named %s, want %q", short(o.Res[0]), def)
			}
		}
	}
}

// wrapsSentinel: the error term is the sentinel or wraps it (errors.Is holds).
func wrapsSentinel(t *Term, global string) bool {
	t = t.unbox()
	isG := func(u *Term) bool {
		u = u.unbox()
		return u.op == "load" && u.args[0].op == "global" && u.args[0].name == global
	}
	if isG(t) {
		return true
	}
	if t.op == "pcall" {
		switch t.name {
		case "fmt.Errorf":
			f, ok := t.args[0].strConst()
			if !ok || len(t.args) < 2 || t.args[1].op != "list" {
				return false
			}
			verbs := fmtVerbs(f)
			for i, a := range t.args[1].args {
				if i < len(verbs) && verbs[i] == 'w' && wrapsSentinel(a, global) {
					return true
				}
			}
		case "errors.Join":
			for _, a := range t.args {
				if a.op == "list" {
					for _, b := range a.args {
						if wrapsSentinel(b, global) {
							return true
						}
					}
				}
			}
		case "github.com/hyp3rd/ewrap.Wrap", "github.com/hyp3rd/ewrap.Wrapf":
			return wrapsSentinel(t.args[0], global)
		}
	}
	return false
}

func fmtVerbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}
