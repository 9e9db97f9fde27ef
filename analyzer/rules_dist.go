package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relBackend = "pkg/backend"
	dmT        = "DistMemory"
)

func init() {
	register(&Property{ID: "Q05", Level: "proof", MinObl: 40, Run: runQ05,
		Explain: "All paths of every exported method, background loop and goroutine of the distributed backend: the hint queue and its totals, a shard's tombstones and its ownership records, and the read-repair queue's entries are touched only under their own lock, which is released on every path; and the fields the loops read without a lock are written by the constructor alone."})
}

func runQ05(c *Ctx) {
	var roots []*ssa.Function
	for _, t := range []string{dmT, "distShard", "repairQueue"} {
		roots = append(roots, c.typeMethods(relBackend, t, t == dmT)...)
	}
	roots = append(roots, c.goRoots(relBackend)...)
	guards := []guard{
		{Field: "DistMemory.hints", Lock: "DistMemory.hintsMu"},
		{Field: "DistMemory.hintTotal", Lock: "DistMemory.hintsMu"},
		{Field: "DistMemory.hintBytes", Lock: "DistMemory.hintsMu"},
		{Field: "distShard.tombs", Lock: "distShard.tombsMu", Map: true},
		{Field: "distShard.originalPrimary", Lock: "distShard.originalPrimaryMu", Map: true},
		{Field: "distShard.originalOwners", Lock: "distShard.originalOwnersMu", Map: true},
		{Field: "distShard.removedAt", Lock: "distShard.removedAtMu", Map: true},
		{Field: "repairQueue.entries", Lock: "repairQueue.mu"},
	}
	c.runLocks(relBackend, roots, lockRules{Guards: guards, Modular: true,
		Exempt: func(f *ssa.Function) bool {
			n := f.Name()
			return strings.HasPrefix(n, "New") || strings.HasPrefix(n, "With") || n == "ensureShardConfig" || n == "newRepairQueue"
		},
	})
	ctor := func(f *ssa.Function) bool {
		return f.Name() == "NewDistMemory" || strings.HasPrefix(f.Name(), "WithDist") || f.Name() == "NewDistMemoryWithConfig"
	}
	guarded := map[string]bool{}
	for _, g := range guards {
		guarded[g.Field] = true
	}
	// capacity is advisory and set by the owner; the local node is replaced by a test helper before the start
	writers := map[string]string{
		"DistMemory.capacity":  relBackend + ".(*DistMemory).SetCapacity",
		"DistMemory.localNode": relBackend + ".(*DistMemory).SetLocalNode",
		"DistMemory.nodeAddr":  relBackend + ".(*DistMemory).SetLocalNode",
	}
	stop := c.NeedM(relBackend, dmT, "Stop")
	c.frozen(relBackend, dmT, ctor, stop, guarded, writers)
	for _, t := range []string{"distShard", "repairQueue"} {
		c.frozen(relBackend, t, func(f *ssa.Function) bool { return ctor(f) }, nil, guarded, nil)
	}
}

// frozen: a field of the type is written by the constructor (and what only it
// calls) alone, unless it is a synchronised value, guarded, or listed.
// A field that, after construction, nobody but `final` (a method that runs
// once) touches may be written there.
func (c *Ctx) frozen(rel, typ string, ctor func(f *ssa.Function) bool, final *ssa.Function, skip map[string]bool, writers map[string]string) {
	ctors, last := map[*ssa.Function]bool{}, map[*ssa.Function]bool{final: true}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) == modPath+"/"+rel && f.Parent() == nil && f.Object() != nil && ctor(f) {
			ctors[f] = true
		}
	}
	tn := c.P.pkg(rel).Pkg.Scope().Lookup(typ)
	c.Check("anchor "+typ, tn != nil, 0, "no type %s", typ)
	if tn == nil {
		return
	}
	st := structOf(tn.Type())
	isCtor, isLast := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	fns := []*ssa.Function{}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || !strings.HasPrefix(fnPkgPath(f), modPath) {
			continue
		}
		fns = append(fns, f)
		isCtor[f] = c.runsOnlyIn(f, ctors)
		isLast[f] = final != nil && c.runsOnlyIn(f, last)
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		name := fieldName(fl, tn.Type())
		if skip[name] || syncType(fl.Type()) {
			continue
		}
		key := "set once: " + name
		c.Oblige(key)
		var writes, reads []ssa.Instruction // outside the constructor
		for _, f := range fns {
			if isCtor[f] {
				continue
			}
			if w, ok := writers[name]; ok && calleeName(f) == w {
				continue
			}
			eachFieldAddr(f, name, func(fa *ssa.FieldAddr) {
				for _, in := range escapes(fa) {
					if isLast[f] {
						writes = append(writes, in)
					} else {
						c.Fail(key, in.Pos(), "", "%s, which other goroutines read without a lock, is written by %s after construction", name, calleeName(f))
					}
				}
				if !isLast[f] {
					reads = append(reads, fa)
				}
			})
		}
		if len(writes) > 0 && len(reads) > 0 {
			c.Fail(key, writes[0].Pos(), "", "%s is written by %s while %s reads it without a lock", name, calleeName(writes[0].Parent()), calleeName(reads[0].Parent()))
		}
	}
}

// escapes: the uses of an address that are no read of what it holds.
func escapes(fa ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if !syncType(derefT(r.Type())) {
				out = append(out, escapes(r)...)
			}
		case *ssa.IndexAddr:
			out = append(out, escapes(r)...)
		case ssa.CallInstruction:
			// a method of a module's type answers for its own accesses
			if f := r.Common().StaticCallee(); f == nil || f.Signature.Recv() == nil || !inModule(f) || r.Common().Args[0] != fa {
				out = append(out, r)
			}
		default:
			out = append(out, r)
		}
	}
	return out
}

// syncType: a value that synchronises its own accesses.
func syncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	st := structOf(n)
	if st == nil {
		return false
	}
	// a struct of such values only
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if a, ok := ft.Underlying().(*types.Array); ok {
			ft = a.Elem()
		}
		if !syncType(ft) {
			return false
		}
	}
	return st.NumFields() > 0
}

// runsOnlyIn: f runs on behalf of the allowed functions only: called by them,
// directly or not, or a closure they return; neither started as a goroutine
// nor handed to code that may keep it.
func (c *Ctx) runsOnlyIn(f *ssa.Function, allowed map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if allowed[g] || seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() == nil && g.Object() != nil && g.Object().Exported() {
			return false
		}
		from := c.P.refsTo(g)
		if g.Parent() != nil {
			from = []*ssa.Function{g.Parent()}
		}
		if len(from) == 0 {
			return false
		}
		for _, k := range from {
			for _, b := range k.Blocks {
				for _, in := range b.Instrs {
					if !usesFn(in, g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.Go:
						return false
					case ssa.CallInstruction:
						if in.Common().Value != ssa.Value(g) && !isClosureOf(in.Common().Value, g) {
							return false
						}
					case *ssa.MakeClosure:
						for _, r := range *in.Referrers() {
							switch r := r.(type) {
							case *ssa.Go:
								return false
							case *ssa.Return, *ssa.DebugRef:
							case *ssa.ChangeType:
							case ssa.CallInstruction:
								if r.Common().Value != ssa.Value(in) {
									return false
								}
							default:
								return false
							}
						}
					case *ssa.Return, *ssa.ChangeType, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
			if !rec(k) {
				return false
			}
		}
		return true
	}
	return rec(f)
}

func usesFn(in ssa.Instruction, g *ssa.Function) bool {
	for _, o := range in.Operands(nil) {
		if *o == ssa.Value(g) {
			return true
		}
	}
	return false
}

func isClosureOf(v ssa.Value, g *ssa.Function) bool {
	m, ok := v.(*ssa.MakeClosure)
	return ok && m.Fn == ssa.Value(g)
}
