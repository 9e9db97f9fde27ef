package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relStats = "pkg/stats"
	hsc      = "HistogramStatsCollector"
)

func init() {
	register(&Property{ID: "S01", Level: "proof", MinObl: 20, Run: runS01,
		Explain: "Every path of the five recorders is followed through the atomics: one addition of the signed value to the sum, one increment of the count after the extremes are known to include the value (compare-and-swap only ever moves an extreme outward), on the shard of the statistic named, shards being published once through LoadOrStore and never replaced."})
	register(&Property{ID: "S02", Level: "proof", MinObl: 10, Run: runS02,
		Explain: "All paths of the query methods: the statistic read is the one named, the sample is a private sorted copy, and the result is the defining formula of the mean, the median and the nearest-rank percentile in every case of length, parity and rank (including NaN and out-of-range ranks)."})
	register(&Property{ID: "S03", Level: "proof", MinObl: 12, Run: runS03,
		Explain: "Guarded-by analysis of the sample ring plus path-sensitive checks of its index arithmetic: one slot written per kept sample, the next position modulo the fixed capacity, the length never past it, the lock only tried by recorders and always released, no alias of the ring handed out."})
	register(&Property{ID: "S04", Level: "proof", MinObl: 10, Run: runS04,
		Explain: "Every path of one turn of GetStats: each statistic with a recorded value gets exactly one entry, under its own name, whose eight fields are the defining formulas over that statistic's own aggregates and sample; a statistic without values gets none; extremes are read after the count."})
	register(&Property{ID: "S05", Level: "proof", MinObl: 8, Run: runS05,
		Explain: "All paths of the collector registry and constructors: which constructor is called for which name, which sentinel each refusal wraps, which capacity a collector gets."})
}

// shardField: a is field f of the shard of some statistic; returns the shard.
func shardField(a *Term) (*Term, string) {
	if a != nil && a.op == "field" && strings.HasPrefix(a.name, "statShard.") {
		return a.args[0].unbox(), strings.TrimPrefix(a.name, "statShard.")
	}
	return nil, ""
}

const mapLoad, mapLOS = "sync.(*Map).Load", "sync.(*Map).LoadOrStore"

// noteShard records how shards are found and made on this path.
func noteShard(c *Ctx, p *Path, e *Event, fail func(p *Path, e *Event, f string, a ...any)) {
	switch e.Kind {
	case "branch":
		v, truth := e.Val, e.Truth
		if v.op == "not" {
			v, truth = v.args[0], !truth
		}
		if isExt(v, 1) && (v.isCall(mapLoad) || v.isCall(mapLOS)) && v.callArgs()[0].isFieldAddr(hsc+".stats") {
			k := "hit"
			if v.isCall(mapLOS) {
				k = "los"
			}
			p.Clear(k + "+")
			p.Clear(k + "-")
			if truth {
				p.Set(k + "+")
			} else {
				p.Set(k + "-")
			}
		}
	case "store":
		if b, f := shardField(e.Addr); b != nil && b.op == "alloc" && p.Vars["fresh"] == nil {
			switch f {
			case "samples":
				v := e.Val
				if v.op == "makeslice" && len(v.attr) > 0 && v.attr[0].isLoadOf(hsc+".sampleCap") {
					p.Set("fresh.samples")
				}
			case "pos", "written":
				if n, ok := e.Val.intConst(); !ok || n != 0 {
					fail(p, e, "a new statistic starts with %s = %s", f, short(e.Val))
				}
			}
		}
	case "call":
		if len(e.Args) == 0 {
			return
		}
		if e.Name == mapLOS && e.Args[0].isFieldAddr(hsc+".stats") {
			b := e.Args[2].unbox()
			if b.op != "alloc" || !p.Has("fresh.min") || !p.Has("fresh.max") || !p.Has("fresh.samples") {
				fail(p, e, "a new statistic is published before its extremes and its ring are set up")
			}
			p.Vars["fresh"] = b
			return
		}
		b, f := shardField(e.Args[0])
		if b == nil || b.op != "alloc" || p.Vars["fresh"] != nil || !strings.HasPrefix(e.Name, "sync/atomic.") {
			return
		}
		n, ok := int64(0), false
		if len(e.Args) > 1 {
			n, ok = e.Args[1].intConst()
		}
		switch {
		case !strings.HasSuffix(e.Name, ".Store") || !ok:
			fail(p, e, "%s on %s of a new statistic", e.Name, f)
		case f == "minV" && n == math.MaxInt64:
			p.Set("fresh.min")
		case f == "maxV" && n == math.MinInt64:
			p.Set("fresh.max")
		case f == "minV" || f == "maxV" || n != 0:
			fail(p, e, "a new statistic starts with %s = %d", f, n)
		}
	}
}

// statShardOf: b is the shard of the statistic named key, published in the map.
func statShardOf(p *Path, b, key *Term) bool {
	if b.op == "alloc" {
		return p.Vars["fresh"] != nil && p.Vars["fresh"].key == b.key && p.Has("los-")
	}
	if b.op == "as" {
		b = b.args[0].unbox()
	}
	if !isExt(b, 0) || !b.isCall(mapLoad) && !b.isCall(mapLOS) {
		return false
	}
	a := b.callArgs()
	if !a[0].isFieldAddr(hsc+".stats") || a[0].args[0].key != "param:p0" && a[0].args[0].op != "param" {
		return false
	}
	if b.isCall(mapLoad) && !p.Has("hit+") {
		return false
	}
	return a[1].unbox().strip().key == key.strip().key
}

var recorders = []string{"Incr", "Decr", "Timing", "Gauge", "Histogram"}

func runS01(c *Ctx) {
	c.recorderRules("")
	c.statsMapUse()
}

// recorderRules follows every recorder; only restricts it to one rule.
func (c *Ctx) recorderRules(only string) {
	for _, m := range recorders {
		f := c.NeedM(relStats, hsc, m)
		if f == nil {
			continue
		}
		for _, k := range []string{"right statistic", "sum", "count", "extremes include the value", "extremes only widen", "returns normally"} {
			if only == "" || only == k {
				c.Oblige(m + ": " + k)
			}
		}
		x := newEngine(c.P, f)
		var value, key *Term
		fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
			if only == "" || only == k {
				c.Fail(m+": "+k, e.Pos(), p.Trace(), f2, a...)
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			noteShard(c, p, e, func(p *Path, e *Event, f string, a ...any) { fail("right statistic", p, e, f, a...) })
			switch e.Kind {
			case "branch":
				for _, s := range []string{"minV", "maxV"} {
					if cas := p.Vars["cas."+s]; cas != nil && p.IsTrue(cas) {
						p.Set("ok." + s)
					}
					cur := p.Vars["cur."+s]
					if cur == nil {
						continue
					}
					q := lt(value, cur)
					if s == "maxV" {
						q = lt(cur, value)
					}
					if p.IsFalse(q) {
						p.Set("ok." + s)
					}
				}
			case "call":
				if !strings.HasPrefix(e.Name, "sync/atomic.") || len(e.Args) == 0 {
					break
				}
				b, fd := shardField(e.Args[0])
				if b == nil || b.op == "alloc" && p.Vars["fresh"] == nil {
					break
				}
				op := e.Name[strings.LastIndex(e.Name, ".")+1:]
				if !statShardOf(p, b, key) {
					fail("right statistic", p, e, "%s of %s on %s, which is not the statistic named", op, fd, short(b))
					break
				}
				switch fd {
				case "sum":
					if op == "Load" {
						break
					}
					if op != "Add" || e.Args[1].key != value.key || p.Has("sum") {
						fail("sum", p, e, "the sum is changed by %s(%s)", op, short(e.Args[1]))
					}
					p.Set("sum")
				case "count":
					if op == "Load" {
						break
					}
					n, ok := e.Args[1].intConst()
					if op != "Add" || !ok || n != 1 || p.Has("count") {
						fail("count", p, e, "the count is changed by %s(%s)", op, short(e.Args[1]))
					}
					p.Set("count")
					if !p.Has("ok.minV") || !p.Has("ok.maxV") {
						fail("extremes include the value", p, e, "the value is counted before the extremes are known to include it: a reader that sees the count can see extremes without it")
					}
				case "minV", "maxV":
					switch op {
					case "Load":
						p.Vars["cur."+fd] = e.Res
						delete(p.Vars, "cas."+fd)
					case "CompareAndSwap":
						q := lt(value, e.Args[1])
						if fd == "maxV" {
							q = lt(e.Args[1], value)
						}
						if e.Args[2].key != value.key || !p.IsTrue(q) {
							fail("extremes only widen", p, e, "%s is replaced by %s although the old value is not known to lie inside it", fd, short(e.Args[2]))
						}
						p.Vars["cas."+fd] = e.Res
					default:
						fail("extremes only widen", p, e, "%s changed by %s: a concurrent update can be lost", fd, op)
					}
				}
			case "return":
				if !p.Has("sum") {
					fail("sum", p, e, "a value is not added to the sum")
				}
				if !p.Has("count") {
					fail("count", p, e, "a value is not counted")
				}
				if !p.Has("ok.minV") || !p.Has("ok.maxV") {
					fail("extremes include the value", p, e, "a value is recorded although an extreme does not include it")
				}
			case "panic":
				if !(len(e.Args) == 1 && corrupt(p)) {
					fail("returns normally", p, e, "recording panics")
				}
			}
			noteCorrupt(p, e)
		}
		c.Explore(x, func(p *Path, ps []*Term) {
			key, value = ps[1], ps[2]
			if m == "Decr" {
				value = mk(&Term{op: "neg", args: []*Term{ps[2]}, typ: ps[2].typ})
			}
		})
	}
}

// noteCorrupt: the map turned out to hold something that is not a shard.
func noteCorrupt(p *Path, e *Event) {
	if e.Kind == "branch" {
		v, t := e.Val, e.Truth
		if v.op == "not" {
			v, t = v.args[0], !t
		}
		if v.op == "is" && !t {
			p.Set("corrupt")
		}
	}
}

func corrupt(p *Path) bool { return p.Has("corrupt") }

// statsMapUse: shards enter the map by LoadOrStore only and never leave it.
func (c *Ctx) statsMapUse() {
	c.Oblige("shard table: entries are created once")
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relStats || f.Synthetic != "" {
			continue
		}
		eachFieldAddr(f, hsc+".stats", func(fa *ssa.FieldAddr) {
			for _, r := range *fa.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				ok := false
				if ci, is := r.(ssa.CallInstruction); is {
					if g := ci.Common().StaticCallee(); g != nil {
						switch calleeName(g) {
						case mapLoad, mapLOS, "sync.(*Map).Range":
							ok = true
						}
					}
				}
				if !ok {
					c.Fail("shard table: entries are created once", r.Pos(), "", "the table of statistics is used otherwise than by Load, LoadOrStore and Range in %s", calleeName(f))
				}
			}
		})
	}
	c.Oblige("aggregates: written by recorders only")
	for _, fd := range []string{"count", "sum", "minV", "maxV"} {
		for _, f := range c.P.Funcs {
			if fnPkgPath(f) != modPath+"/"+relStats || f.Synthetic != "" {
				continue
			}
			rec := map[*ssa.Function]bool{}
			for _, m := range recorders {
				if g := c.P.method(relStats, hsc, m); g != nil {
					rec[g] = true
				}
			}
			eachFieldAddr(f, "statShard."+fd, func(fa *ssa.FieldAddr) {
				for _, r := range *fa.Referrers() {
					ci, is := r.(ssa.CallInstruction)
					if !is {
						continue
					}
					g := ci.Common().StaticCallee()
					if g == nil || strings.HasSuffix(calleeName(g), ".Load") {
						continue
					}
					if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
						continue
					}
					if !rec[f] && !c.calledOnlyFrom(f, rec) {
						c.Fail("aggregates: written by recorders only", r.Pos(), "", "%s changes %s", calleeName(f), fd)
					}
				}
			})
		}
	}
}

// snap follows the building of a sorted private copy of a ring.
type snap struct {
	x    *Engine
	key  func(p *Path, shard *Term) bool // the right statistic
	fail func(k string, p *Path, e *Event, f string, a ...any)
}

func isRing(t *Term) (shard *Term, lo, hi *Term, ok bool) {
	none := &Term{op: "none"}
	lo, hi = none, none
	t = t.unbox()
	if t.op == "slice" {
		lo = t.args[1]
		if len(t.args) > 2 {
			hi = t.args[2]
		}
		t = t.args[0]
	}
	if t.isLoadOf("statShard.samples") {
		return loadBase(t), lo, hi, true
	}
	return nil, nil, nil, false
}

// loadBase: the object a field (isLoadOf) was read from.
func loadBase(t *Term) *Term {
	t = t.unbox()
	b := t.args[0]
	if t.op == "load" {
		return b.args[0].unbox()
	}
	if b.op == "out" && len(b.attr) > 0 {
		return b.attr[0].unbox()
	}
	return b
}

func isZeroOrNone(t *Term) bool {
	n, ok := t.intConst()
	return t.op == "none" || ok && n == 0
}

func (s *snap) isLen(p *Path, t, shard *Term, field string) bool {
	return t.isLoadOf("statShard."+field) && loadBase(t).key == shard.key
}

func (s *snap) on(p *Path, e *Event) {
	switch e.Kind {
	case "cbenter":
		if strings.HasPrefix(e.Name, "sort.") {
			p.Set("less")
		}
	case "branch":
		e.Val.any(func(t *Term) bool {
			if t.isLoadOf("statShard.written") && (p.IsFalse(lt(tInt(0), t)) || p.IsTrue(eq(t, tInt(0)))) {
				p.Set("w0")
			}
			if isCmp(t, "<") || isCmp(t, "==") {
				for i := 0; i < 2; i++ {
					w, l := t.args[i], t.args[1-i]
					if w.isLoadOf("statShard.written") && l.op == "len" && l.args[0].isLoadOf("statShard.samples") {
						if isCmp(t, "<") && i == 0 && p.IsFalse(t) || isCmp(t, "==") && p.IsTrue(t) {
							p.Set("full")
						}
					}
				}
			}
			return false
		})
	case "copy":
		dst, src := e.Args[0], e.Args[1]
		sh, lo, hi, ok := isRing(src)
		if !ok {
			return
		}
		s.held(p, e, sh)
		if !s.key(p, sh) {
			s.fail("right statistic", p, e, "the sample of %s is read", short(sh))
		}
		base, off := dst, (*Term)(nil)
		if dst.op == "slice" {
			base, off = dst.args[0], dst.args[1]
		}
		if base.op != "makeslice" {
			s.fail("whole window", p, e, "the sample is copied to %s", short(base))
			return
		}
		if n := base.attr[0]; !s.isLen(p, n, sh, "written") {
			s.fail("whole window", p, e, "the copy has %s elements instead of the number of samples kept", short(n))
		}
		p.Vars["snap"] = base
		p.Vars["snap.sh"] = sh
		atStart := off == nil || isZeroOrNone(off)
		switch {
		case atStart && isZeroOrNone(lo) && s.isLen(p, hi, sh, "written"):
			p.Set("got.all")
		case isZeroOrNone(lo) && hi.op == "none" && atStart:
			// copying the ring into a shorter slice keeps the written prefix
			p.Set("got.all")
		case s.isLen(p, lo, sh, "pos") && hi.op == "none":
			if !atStart {
				// head first, tail behind it
				if !(s.isLen(p, off, sh, "pos") || off.op == "len" && isHead(off.args[0])) {
					s.fail("whole window", p, e, "the tail is copied to offset %s", short(off))
				}
			}
			if !p.Has("full") {
				s.fail("whole window", p, e, "the tail of a ring that may not be full is taken for samples")
			}
			p.Set("got.tail")
		case isZeroOrNone(lo) && s.isLen(p, hi, sh, "pos"):
			if !atStart {
				t := off
				good := t.op == "len" && isTail(t.args[0])
				if t.op == "bin" && t.name == "-" && t.args[0].op == "len" && s.isLen(p, t.args[1], sh, "pos") {
					good = true
				}
				if t.op == "copied" {
					good = p.Has("got.tail")
				}
				if !good {
					s.fail("whole window", p, e, "the head is copied to offset %s", short(off))
				}
			} else if p.Has("got.tail") {
				s.fail("whole window", p, e, "the head overwrites the tail")
			}
			p.Set("got.head")
		default:
			s.fail("whole window", p, e, "samples [%s:%s] are copied", short(lo), short(hi))
		}
	case "append":
		if len(e.Args) == 2 && e.Args[1].op == "spread" {
			src := e.Args[1].args[0]
			sh, lo, hi, ok := isRing(src)
			if !ok {
				return
			}
			s.held(p, e, sh)
			if !s.key(p, sh) {
				s.fail("right statistic", p, e, "the sample of %s is read", short(sh))
			}
			base := e.Args[0]
			if !isEmptyList(p, base) && !(p.Vars["snap"] != nil && p.Vars["snap"].key == base.key) {
				s.fail("whole window", p, e, "samples are appended to %s", short(base))
			}
			switch {
			case isZeroOrNone(lo) && s.isLen(p, hi, sh, "written"):
				p.Set("got.all")
			case isZeroOrNone(lo) && hi.op == "none" && p.Has("full"):
				p.Set("got.all")
			case s.isLen(p, lo, sh, "pos") && hi.op == "none" && p.Has("full"):
				p.Set("got.tail")
			case isZeroOrNone(lo) && s.isLen(p, hi, sh, "pos"):
				p.Set("got.head")
			default:
				s.fail("whole window", p, e, "samples [%s:%s] are taken", short(lo), short(hi))
			}
			p.Vars["snap"] = e.Res
			p.Vars["snap.sh"] = sh
		}
	case "call":
		switch e.Name {
		case "slices.Clone":
			if sh, lo, hi, ok := isRing(e.Args[0]); ok {
				s.held(p, e, sh)
				if !s.key(p, sh) {
					s.fail("right statistic", p, e, "the sample of %s is read", short(sh))
				}
				if !(isZeroOrNone(lo) && (s.isLen(p, hi, sh, "written") || hi.op == "none" && p.Has("full"))) {
					s.fail("whole window", p, e, "samples [%s:%s] are taken", short(lo), short(hi))
				}
				p.Set("got.all")
				p.Vars["snap"] = e.Res
				p.Vars["snap.sh"] = sh
			}
		case "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			t := e.Args[0].unbox()
			if _, _, _, ok := isRing(t); ok {
				s.fail("ring not disturbed", p, e, "the ring itself is sorted")
			}
			if e.Name == "slices.Sort" || len(e.Args) == 2 && ascending(s.x, p, t, e.Args[1], strings.HasPrefix(e.Name, "sort.")) {
				p.Set("sorted")
				p.Vars["sorted"] = t
			}
		}
	case "load":
		if a := e.Addr; a.op == "idx" {
			if sh, _, _, ok := isRing(a.args[0]); ok {
				s.held(p, e, sh)
			}
		}
	}
}

// ascending: cmp orders the elements of list (their indices, if byIdx) upwards.
func ascending(x *Engine, p *Path, list, cmp *Term, byIdx bool) bool {
	cmp = cmp.unbox()
	if cmp.fn == nil {
		return false
	}
	if !byIdx && strings.HasPrefix(calleeName(cmp.fn), "cmp.Compare") {
		return true
	}
	if len(cmp.fn.Params) != 2 {
		return false
	}
	pa := mk(&Term{op: "param", name: "cmpA", typ: cmp.fn.Params[0].Type()})
	pb := mk(&Term{op: "param", name: "cmpB", typ: cmp.fn.Params[1].Type()})
	elem := func(t, i *Term) bool {
		return t.op == "load" && t.args[0].op == "idx" && t.args[0].args[0].unbox().key == list.key && t.args[0].args[1].key == i.key
	}
	outs := x.Eval(p, cmp, []*Term{pa, pb})
	for _, o := range outs {
		r := o.Res[0].unbox()
		if byIdx {
			if !(isCmp(r, "<") && elem(r.args[0], pa) && elem(r.args[1], pb)) {
				return false
			}
			continue
		}
		if r.op == "pcall" && strings.HasPrefix(r.name, "cmp.Compare") && r.args[0].key == pa.key && r.args[1].key == pb.key {
			continue
		}
		for _, sg := range []int64{-1, 0, 1} {
			q := o.Path.fork()
			if !q.Assume(lt(pa, pb), sg < 0) || !q.Assume(eq(pa, pb), sg == 0) || !q.Assume(lt(pb, pa), sg > 0) {
				continue
			}
			if n, ok := r.intConst(); !ok || n < 0 != (sg < 0) || n > 0 != (sg > 0) {
				return false
			}
		}
	}
	return len(outs) > 0
}

func isTail(t *Term) bool { return t.op == "slice" && t.args[1].isLoadOf("statShard.pos") }
func isHead(t *Term) bool {
	return t.op == "slice" && len(t.args) > 2 && isZeroOrNone(t.args[1]) && t.args[2].isLoadOf("statShard.pos")
}

func (s *snap) held(p *Path, e *Event, sh *Term) {
	if !p.HeldRW(func(t *Term) bool { return t.isFieldAddr("statShard.samplesMu") && t.args[0].unbox().key == sh.key }) {
		s.fail("ring read under its lock", p, e, "samples are read without the ring's lock")
	}
}

// ready: v is the complete sorted copy (or the empty one).
func (s *snap) ready(p *Path, v *Term) string {
	sn := p.Vars["snap"]
	if sn == nil {
		if p.Has("w0") && (v.op == "makeslice" && v.attr[0].isLoadOf("statShard.written") || isEmptyList(p, v)) {
			return ""
		}
		return "no complete sample was taken"
	}
	if v.key != sn.key {
		return "it is " + short(v) + ", not the copy of the sample"
	}
	if !p.Has("got.all") && !(p.Has("got.tail") && p.Has("got.head")) && !p.Has("w0") {
		return "part of the sample is missing"
	}
	if !p.Has("w0") && (p.Vars["sorted"] == nil || p.Vars["sorted"].key != v.key) {
		return "the sample is not sorted"
	}
	return ""
}

func lenOf(t *Term) *Term { return mk(&Term{op: "len", args: []*Term{t}, typ: types.Typ[types.Int]}) }

// elemAt: t is float64(v[i]); returns v and i.
func elemAt(t *Term) (v, i *Term, ok bool) {
	if t.op != "conv" || t.name != "float64" {
		return nil, nil, false
	}
	l := t.args[0]
	if l.op == "load" && l.args[0].op == "idx" {
		return l.args[0].args[0], l.args[0].args[1], true
	}
	return nil, nil, false
}

// quotient evaluates an index expression built from n, constants, + - / % and
// shifts for one length.
func evalIdx(t *Term, v *Term, n int64) (int64, bool) {
	if c, ok := t.intConst(); ok {
		return c, true
	}
	if t.op == "len" && t.args[0].key == v.key {
		return n, true
	}
	if t.op == "bin" && len(t.args) == 2 {
		a, ok1 := evalIdx(t.args[0], v, n)
		b, ok2 := evalIdx(t.args[1], v, n)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.name {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b == 2 {
				return a / b, true
			}
		case "%":
			if b == 2 {
				return a % b, true
			}
		case ">>":
			if b == 1 {
				return a >> 1, true
			}
		case "&":
			if b == 1 {
				return a & 1, true
			}
		}
	}
	return 0, false
}

// lengths: the lengths of v up to 9 that the path allows (the index
// expressions are linear in n and its parity, so these decide all n).
func lengths(p *Path, v *Term) []int64 {
	var out []int64
	ln := lenOf(v)
	if p.Has("w0") {
		if feasible(p, eq(ln, tInt(0)), true) {
			return []int64{0}
		}
		return nil
	}
	for n := int64(0); n < 10; n++ {
		q := p.fork()
		if !q.Assume(eq(ln, tInt(n)), true) {
			continue
		}
		ok := true
		check := func(t *Term, known func(x *Term) int) {
			if !ok {
				return
			}
			for k := int64(0); k < 2; k++ {
				d := known(eq(t, tInt(k)))
				val, _ := evalIdx(t, v, n)
				if d == yes && val != k || d == no && val == k {
					ok = false
				}
			}
		}
		two := tInt(2)
		for _, t := range []*Term{
			mk(&Term{op: "bin", name: "%", args: []*Term{ln, two}, typ: ln.typ}),
			mk(&Term{op: "bin", name: "&", args: []*Term{ln, tInt(1)}, typ: ln.typ}),
		} {
			check(t, p.Decide)
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

func floatConst(t *Term) (float64, bool) {
	if t != nil && t.op == "const" && t.cv != nil && isFloat(t.typ) {
		return constFloat(t)
	}
	return 0, false
}

// median: r is the median of the sorted slice v on this path.
func medianWrong(p *Path, v, r *Term) string {
	ns := lengths(p, v)
	if ns == nil {
		return ""
	}
	if z, ok := floatConst(r); ok {
		if z != 0 || len(ns) != 1 || ns[0] != 0 {
			return "the median of a sample that may have " + decStr(ns[len(ns)-1]) + " elements is the constant " + short(r)
		}
		return ""
	}
	var at []*Term
	if w, i, ok := elemAt(r); ok && w.key == v.key {
		at = []*Term{i}
	} else if a, b, ok := halfSum(r); ok {
		wa, ia, ok1 := elemAt(a)
		wb, ib, ok2 := elemAt(b)
		if !ok1 || !ok2 || wa.key != v.key || wb.key != v.key {
			return "it is " + short(r)
		}
		at = []*Term{ia, ib}
	} else {
		return "it is " + short(r)
	}
	for _, n := range ns {
		if n == 0 {
			return "an empty sample is indexed"
		}
		lo, hi := (n-1)/2, n/2
		var got []int64
		for _, i := range at {
			k, ok := evalIdx(i, v, n)
			if !ok {
				return "the index " + short(i) + " is not understood"
			}
			got = append(got, k)
		}
		if len(got) == 1 && (got[0] != lo || lo != hi) || len(got) == 2 && !(got[0] == lo && got[1] == hi || got[0] == hi && got[1] == lo) {
			return "of " + decStr(n) + " sorted values it takes " + itoas(got) + " instead of " + itoas([]int64{lo, hi})
		}
	}
	return ""
}

func decStr(n int64) string { return tInt(n).String() }
func itoas(ns []int64) string {
	var s []string
	for _, n := range ns {
		s = append(s, decStr(n))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// halfSum: r = (a+b)/2, a/2+b/2, (a+b)*0.5 and the like over floats.
func halfSum(r *Term) (a, b *Term, ok bool) {
	half := func(t *Term) (*Term, bool) {
		if t.op != "bin" {
			return nil, false
		}
		if c, ok := floatConst(t.args[1]); ok && (t.name == "/" && c == 2 || t.name == "*" && c == 0.5) {
			return t.args[0], true
		}
		if c, ok := floatConst(t.args[0]); ok && t.name == "*" && c == 0.5 {
			return t.args[1], true
		}
		return nil, false
	}
	if s, ok := half(r); ok {
		if s.op == "bin" && s.name == "+" {
			return s.args[0], s.args[1], true
		}
		return nil, nil, false
	}
	if r.op == "bin" && r.name == "+" {
		a, ok1 := half(r.args[0])
		b, ok2 := half(r.args[1])
		if ok1 && ok2 {
			return a, b, true
		}
		// a + (b-a)/2
		for i := 0; i < 2; i++ {
			if h, ok := half(r.args[i]); ok && h.op == "bin" && h.name == "-" && h.args[1].key == r.args[1-i].key {
				return h.args[1], h.args[0], true
			}
		}
	}
	return nil, nil, false
}

// rank classes of a percentile argument
var rankClasses = map[string][]float64{
	"nan":  {math.NaN()},
	"low":  {math.Inf(-1), -1, 0},
	"mid":  {0.001, 0.25, 0.5, 0.75, 0.999},
	"high": {1, 2, math.Inf(1)},
}

// noteRank strikes out the classes of the rank a branch excludes.
func noteRank(p *Path, e *Event, r *Term) {
	if e.Kind != "branch" {
		return
	}
	v, truth := e.Val, e.Truth
	for v.op == "not" {
		v, truth = v.args[0], !truth
	}
	val := func(t *Term, x float64) (float64, bool) {
		if t.key == r.key {
			return x, true
		}
		return floatConst(t)
	}
	for cl, xs := range rankClasses {
		any := false
		for _, xv := range xs {
			var res bool
			if v.op == "pcall" && v.name == "math.IsNaN" && v.args[0].key == r.key {
				res = math.IsNaN(xv)
			} else if v.op == "bin" && len(v.args) == 2 && (v.args[0].key == r.key || v.args[1].key == r.key) {
				a, ok1 := val(v.args[0], xv)
				b, ok2 := val(v.args[1], xv)
				if !ok1 || !ok2 {
					return
				}
				switch v.name {
				case "<":
					res = a < b
				case "<=":
					res = a <= b
				case "==":
					res = a == b
				default:
					return
				}
			} else {
				return
			}
			if res == truth {
				any = true
			}
		}
		if !any {
			p.Set("rank!" + cl)
		}
	}
}

// rankTerm: the value of t for a rank of a class: the rank itself, or 0 or 1.
func rankTerm(t, r *Term, cl string) string {
	if t.key == r.key {
		switch cl {
		case "mid":
			return "r"
		case "high":
			return ">=1"
		case "low":
			return "<=0"
		}
		return "nan"
	}
	if c, ok := floatConst(t); ok {
		if c == 0 {
			return "0"
		}
		if c == 1 {
			return "1"
		}
		return "?"
	}
	if mn, mx := isMinMax(t); mn || mx {
		a, b := rankTerm(t.args[0], r, cl), rankTerm(t.args[1], r, cl)
		for i := 0; i < 2; i++ {
			switch {
			case a == "nan":
				return "nan"
			case mx && a == "0" && b == "<=0", mn && a == "0" && b == "1":
				return "0"
			case mx && a == "0":
				return b
			case mn && a == "1" && b == ">=1":
				return "1"
			case mn && a == "1" && (b == "r" || b == "<=0"):
				return b
			}
			a, b = b, a
		}
	}
	return "?"
}

// isMinMax: t is the smaller (larger) of two values.
func isMinMax(t *Term) (mn, mx bool) {
	if t.op != "pcall" || len(t.args) != 2 {
		return false, false
	}
	switch t.name {
	case "builtin.min", "math.Min":
		return true, false
	case "builtin.max", "math.Max":
		return false, true
	}
	return false, false
}

// percentileWrong: ret is the nearest-rank percentile of v for rank r.
func percentileWrong(p *Path, v, ret, r *Term) string {
	ln := lenOf(v)
	ns := lengths(p, v)
	if ns == nil {
		return ""
	}
	if z, ok := floatConst(ret); ok {
		if z != 0 || len(ns) != 1 || ns[0] != 0 {
			return "the percentile of a sample that may have elements is the constant " + short(ret)
		}
		return ""
	}
	w, i, ok := elemAt(ret)
	if !ok || w.key != v.key {
		return "it is " + short(ret)
	}
	for _, n := range ns {
		if n == 0 {
			return "an empty sample is indexed"
		}
	}
	last := func(t *Term) bool {
		if t.op == "bin" && t.name == "-" {
			n, ok := t.args[1].intConst()
			return ok && n == 1 && t.args[0].key == ln.key
		}
		if t.op == "bin" && t.name == "+" {
			for k := 0; k < 2; k++ {
				if n, ok := t.args[k].intConst(); ok && n == -1 && t.args[1-k].key == ln.key {
					return true
				}
			}
		}
		return false
	}
	zero := func(t *Term) bool { n, ok := t.intConst(); return ok && n == 0 }
	// nearest: t = int(float64(n)*r'), r' the clamped rank
	nearest := func(t *Term) (*Term, bool) {
		if t.op != "conv" || t.name != "int" {
			return nil, false
		}
		m := t.args[0]
		if m.op == "pcall" && (m.name == "math.Floor" || m.name == "math.Trunc") {
			m = m.args[0]
		}
		if m.op != "bin" || m.name != "*" {
			return nil, false
		}
		for k := 0; k < 2; k++ {
			a := m.args[k]
			if a.op == "conv" && a.name == "float64" && a.args[0].key == ln.key {
				return m.args[1-k], true
			}
		}
		return nil, false
	}
	for _, cl := range []string{"nan", "low", "mid", "high"} {
		if p.Has("rank!" + cl) {
			continue
		}
		good := false
		if rk, ok := nearest(i); ok {
			s := rankTerm(rk, r, cl)
			good = cl == "mid" && s == "r" || cl == "low" && s == "0"
			if cl == "low" && s == "<=0" || cl == "high" {
				return "a rank outside [0,1] indexes the sample at " + short(i)
			}
		} else if mn, _ := isMinMax(i); mn {
			for k := 0; k < 2; k++ {
				if rk, ok := nearest(i.args[k]); ok && last(i.args[1-k]) {
					s := rankTerm(rk, r, cl)
					good = cl == "mid" && s == "r" || cl == "low" && s == "0" || cl == "high" && (s == "1" || s == ">=1" && false)
				}
			}
		} else if zero(i) {
			good = cl == "low" || cl == "nan"
		} else if last(i) {
			good = cl == "high"
			if cl == "mid" {
				good = p.Has("clamped")
			}
		}
		if !good {
			return "for a " + rankName[cl] + " it takes element " + short(i)
		}
	}
	return ""
}

var rankName = map[string]string{"nan": "rank that is not a number", "low": "rank of 0 or less", "mid": "rank between 0 and 1", "high": "rank of 1 or more"}

// noteClamp: the nearest rank is known to lie past the end.
func noteClamp(p *Path, e *Event) {
	if e.Kind != "branch" || !isCmp(e.Val, "<") {
		return
	}
	a, b := e.Val.args[0], e.Val.args[1]
	if a.op == "conv" && a.name == "int" && b.op == "len" {
		if e.Truth {
			p.Clear("clamped")
		} else {
			p.Set("clamped")
		}
	}
	if b.op == "conv" && b.name == "int" && e.Truth && a.op == "bin" && a.name == "-" {
		p.Set("clamped")
	}
}

func runS02(c *Ctx) {
	for _, m := range []string{"Median", "Percentile", "Mean"} {
		f := c.NeedM(relStats, hsc, m)
		if f == nil {
			continue
		}
		ks := []string{"right statistic", "formula"}
		if m != "Mean" {
			ks = append(ks, "whole window", "ring read under its lock", "ring not disturbed", "sorted before use")
		}
		for _, k := range ks {
			c.Oblige(m + ": " + k)
		}
		x := newEngine(c.P, f)
		var key, rank *Term
		fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
			c.Fail(m+": "+k, e.Pos(), p.Trace(), f2, a...)
		}
		s := &snap{x: x, fail: fail}
		s.key = func(p *Path, sh *Term) bool { return statShardOf(p, sh, key) }
		x.OnEvent = func(p *Path, e *Event) {
			noteShard(c, p, e, func(p *Path, e *Event, f string, a ...any) { fail("right statistic", p, e, f, a...) })
			noteCorrupt(p, e)
			s.on(p, e)
			if rank != nil {
				noteRank(p, e, rank)
				noteClamp(p, e)
			}
			switch e.Kind {
			case "load":
				if !p.Has("less") && e.Addr.op == "idx" && p.Vars["snap"] != nil && e.Addr.args[0].key == p.Vars["snap"].key && !p.Has("w0") && e.In != nil && !strings.Contains(calleeName(e.In), "slices.") {
					if why := s.ready(p, p.Vars["snap"]); why != "" {
						fail("sorted before use", p, e, "a value is picked, but %s", why)
					}
				}
			case "call":
				if m == "Mean" && strings.HasPrefix(e.Name, "sync/atomic.") {
					b, fd := shardField(e.Args[0])
					if b != nil && !(b.op == "alloc" && p.Vars["fresh"] == nil) {
						if !statShardOf(p, b, key) {
							fail("right statistic", p, e, "%s of %s is read", fd, short(b))
						}
						if fd == "sum" || fd == "count" {
							p.Vars[fd] = e.Res
						}
					}
				}
			case "panic":
				if !corrupt(p) {
					fail("formula", p, e, "the query panics")
				}
			case "return":
				r := e.Args[0]
				if m == "Mean" {
					if why := meanWrong(p, r); why != "" {
						fail("formula", p, e, "the mean: %s", why)
					}
					return
				}
				v := p.Vars["snap"]
				if v == nil {
					if p.Has("w0") {
						if z, ok := floatConst(r); ok && z == 0 {
							return
						}
						if w, _, ok := elemAt(r); ok && w.op == "makeslice" && lengths(p, w) == nil {
							return
						}
						if a, b, ok := halfSum(r); ok {
							wa, _, ok1 := elemAt(a)
							_, _, ok2 := elemAt(b)
							if ok1 && ok2 && wa.op == "makeslice" && lengths(p, wa) == nil {
								return
							}
						}
					}
					fail("formula", p, e, "the answer %s does not come from the sample", short(r))
					return
				}
				if why := s.ready(p, v); why != "" {
					fail("sorted before use", p, e, "%s", why)
				}
				why := ""
				if m == "Median" {
					why = medianWrong(p, v, r)
				} else {
					why = percentileWrong(p, v, r, rank)
				}
				if why != "" {
					fail("formula", p, e, "%s: %s", strings.ToLower(m), why)
				}
			}
		}
		c.Explore(x, func(p *Path, ps []*Term) {
			key = ps[1]
			if m == "Percentile" {
				rank = ps[2]
			}
		})
	}
}

func isFloatOf(t, of *Term) bool {
	return of != nil && t.op == "conv" && t.name == "float64" && t.args[0].key == of.key
}

// meanWrong: r is sum/count, or 0 when nothing was counted.
func meanWrong(p *Path, r *Term) string {
	cnt := p.Vars["count"]
	if cnt == nil {
		return "the count is not read"
	}
	zero := eq(cnt, tInt(0))
	if z, ok := floatConst(r); ok {
		if z != 0 || p.Decide(zero) != yes && p.Decide(lt(tInt(0), cnt)) != no {
			return "it is the constant " + short(r) + " although values may have been recorded"
		}
		return ""
	}
	if !(r.op == "bin" && r.name == "/" && isFloatOf(r.args[0], p.Vars["sum"]) && isFloatOf(r.args[1], cnt)) {
		return "it is " + short(r)
	}
	if p.Decide(zero) != no && !p.IsTrue(lt(tInt(0), cnt)) {
		return "it divides by a count that may be zero"
	}
	return ""
}

// windowQueries: a query copies out exactly the values the window holds.
func (c *Ctx) windowQueries() {
	for _, m := range []string{"Median", "Percentile", "GetStats"} {
		f := c.NeedM(relStats, hsc, m)
		if f == nil {
			continue
		}
		c.Oblige(m + ": the whole window is copied")
		x := newEngine(c.P, f)
		s := &snap{x: x, key: func(p *Path, sh *Term) bool { return true }}
		s.fail = func(k string, p *Path, e *Event, f2 string, a ...any) {
			if k == "whole window" {
				c.Fail(m+": the whole window is copied", e.Pos(), p.Trace(), f2, a...)
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			noteCorrupt(p, e)
			if e.Kind == "cbenter" && e.Name == "sync.(*Map).Range" {
				for k := range p.Flags {
					p.Clear(k)
				}
				for k := range p.Vars {
					delete(p.Vars, k)
				}
				if len(e.Args) == 2 {
					p.Vars["k"], p.Vars["v"] = e.Args[0], e.Args[1]
				}
			}
			s.on(p, e)
		}
		c.Explore(x, nil)
	}
}

func runS03(c *Ctx) {
	var roots []*ssa.Function
	for _, f := range c.exportedRoots(relStats) {
		roots = append(roots, f)
	}
	// the ring is touched under its own lock only
	c.runLocks(relStats, roots, lockRules{
		Guards:     []guard{{Field: "statShard.pos", Lock: "statShard.samplesMu"}, {Field: "statShard.written", Lock: "statShard.samplesMu"}},
		NoCallback: true, NoBlock: true,
	})
	for _, k := range []string{"capacity fixed at creation", "the ring never leaves the collector"} {
		c.Oblige("ring: " + k)
	}
	c.windowQueries()
	for _, m := range recorders {
		f := c.NeedM(relStats, hsc, m)
		if f == nil {
			continue
		}
		for _, k := range []string{"never waits", "value kept in the next slot", "position wraps at the capacity", "length grows up to the capacity"} {
			c.Oblige(m + ": " + k)
		}
		x := newEngine(c.P, f)
		var value *Term
		fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
			c.Fail(m+": "+k, e.Pos(), p.Trace(), f2, a...)
		}
		held := func(p *Path, sh *Term) bool {
			return p.HeldW(func(t *Term) bool { return t.isFieldAddr("statShard.samplesMu") && t.args[0].unbox().key == sh.key })
		}
		ringLen := func(t, sh *Term) bool {
			return t.op == "len" && t.args[0].isLoadOf("statShard.samples") && loadBase(t.args[0]).key == sh.key
		}
		isF := func(t, sh *Term, f string) bool {
			return t.isLoadOf("statShard."+f) && loadBase(t).key == sh.key
		}
		plus1 := func(t, sh *Term, f string) bool {
			if t.op != "bin" || t.name != "+" {
				return false
			}
			for i := 0; i < 2; i++ {
				if n, ok := t.args[i].intConst(); ok && n == 1 && isF(t.args[1-i], sh, f) {
					return true
				}
			}
			return false
		}
		done := func(p *Path, e *Event) {
			if p.Has("kept") && !p.Has("moved") {
				fail("position wraps at the capacity", p, e, "a sample is stored and the position is not advanced")
			}
			if p.Has("kept") && !p.Has("grown") && !p.Has("full") {
				fail("length grows up to the capacity", p, e, "a sample is stored in a ring that may have room and the length is not raised")
			}
		}
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "prelock":
				if e.Addr.isFieldAddr("statShard.samplesMu") && (e.Name == "Lock" || e.Name == "RLock") {
					fail("never waits", p, e, "a recorder waits for the ring's lock")
				}
			case "call":
				if e.Name == mapLOS {
					p.Set("shared")
				}
				if blockingCall(e.Name) {
					fail("never waits", p, e, "a recorder calls %s", e.Name)
				}
			case "send", "recv":
				if e.Blocking {
					fail("never waits", p, e, "a recorder waits on a channel")
				}
			case "branch":
				e.Val.any(func(t *Term) bool {
					if isCmp(t, "<") && t.args[0].isLoadOf("statShard.written") && t.args[1].op == "len" {
						if p.IsFalse(t) {
							p.Set("full")
						} else if p.IsTrue(t) {
							p.Set("room")
						}
					}
					if isCmp(t, "==") {
						for i := 0; i < 2; i++ {
							if t.args[i].isLoadOf("statShard.written") && t.args[1-i].op == "len" {
								if p.IsTrue(t) {
									p.Set("full")
								} else if p.IsFalse(t) {
									p.Set("room")
								}
							}
							if t.args[1-i].op == "len" && t.args[i].op == "bin" && p.IsTrue(t) {
								p.Set("wrap")
							} else if t.args[1-i].op == "len" && t.args[i].op == "bin" && p.IsFalse(t) {
								p.Set("nowrap")
							}
						}
					}
					if isCmp(t, "<") && t.args[1].op == "len" && t.args[0].op == "bin" {
						if p.IsFalse(t) {
							p.Set("wrap")
						} else if p.IsTrue(t) {
							p.Set("nowrap")
						}
					}
					return false
				})
			case "unlock":
				if e.Addr.isFieldAddr("statShard.samplesMu") {
					done(p, e)
				}
			case "return":
				done(p, e)
				if p.Has("locked") && !p.Has("kept") {
					fail("value kept in the next slot", p, e, "the ring was available and the value is not kept")
				}
			case "lock":
				if e.Addr.isFieldAddr("statShard.samplesMu") {
					p.Set("locked")
				}
			case "store":
				a := e.Addr
				if a.op == "idx" {
					sh, lo, _, ok := isRing(a.args[0])
					if !ok {
						return
					}
					if !held(p, sh) {
						fail("value kept in the next slot", p, e, "the ring is written without its lock")
					}
					if p.Has("kept") {
						fail("value kept in the next slot", p, e, "two slots are written for one value")
					}
					p.Set("kept")
					if e.Val.key != value.key {
						fail("value kept in the next slot", p, e, "%s is kept", short(e.Val))
					}
					if !isZeroOrNone(lo) || !isF(a.args[1], sh, "pos") {
						fail("value kept in the next slot", p, e, "the value is stored at %s", short(a.args[1]))
					}
					if p.Has("moved") {
						fail("value kept in the next slot", p, e, "the position is advanced before the value is stored")
					}
					return
				}
				sh, fd := shardField(a)
				if sh == nil || sh.op == "alloc" && !p.Has("shared") {
					return
				}
				switch fd {
				case "pos":
					v := e.Val
					good := false
					switch {
					case v.op == "bin" && v.name == "%":
						good = plus1(v.args[0], sh, "pos") && ringLen(v.args[1], sh)
					case plus1(v, sh, "pos"):
						good = p.Has("nowrap") || !p.Has("moved")
						if !p.Has("nowrap") {
							p.Set("pos.open")
						}
					default:
						if n, ok := v.intConst(); ok && n == 0 {
							good = p.Has("wrap")
							p.Clear("pos.open")
						}
					}
					if p.Has("moved") && !(p.Has("wrap") && good) || !good {
						fail("position wraps at the capacity", p, e, "the position becomes %s", short(v))
					}
					p.Set("moved")
				case "written":
					good := plus1(e.Val, sh, "written") && p.Has("room")
					if mn, _ := isMinMax(e.Val); mn {
						a, b := e.Val.args[0], e.Val.args[1]
						good = plus1(a, sh, "written") && ringLen(b, sh) || plus1(b, sh, "written") && ringLen(a, sh)
					}
					if !good || p.Has("grown") {
						fail("length grows up to the capacity", p, e, "the length becomes %s", short(e.Val))
					}
					p.Set("grown")
				case "samples":
					fail("position wraps at the capacity", p, e, "a recorder replaces the ring")
				}
			}
			if (e.Kind == "unlock" || e.Kind == "return") && p.Has("pos.open") && !p.Has("nowrap") {
				fail("position wraps at the capacity", p, e, "the position can reach the capacity")
			}
		}
		c.Explore(x, func(p *Path, ps []*Term) {
			value = ps[2]
			if m == "Decr" {
				value = mk(&Term{op: "neg", args: []*Term{ps[2]}, typ: ps[2].typ})
			}
		})
	}
	// readers: samples are read under the lock of their ring only
	for _, f := range roots {
		isRec := false
		for _, m := range recorders {
			isRec = isRec || f.Name() == m
		}
		if isRec {
			continue
		}
		k := "reader " + f.Name() + ": samples are read under the lock"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			var src *Term
			switch e.Kind {
			case "copy":
				src = e.Args[1]
			case "append":
				if len(e.Args) == 2 && e.Args[1].op == "spread" {
					src = e.Args[1].args[0]
				}
			case "call":
				if e.Name == "slices.Clone" || strings.HasPrefix(e.Name, "slices.Sort") {
					src = e.Args[0]
				}
			case "load":
				if e.Addr.op == "idx" {
					src = e.Addr.args[0]
				}
			}
			if src == nil {
				return
			}
			if sh, _, _, ok := isRing(src); ok && !p.HeldRW(func(t *Term) bool { return t.isFieldAddr("statShard.samplesMu") && t.args[0].unbox().key == sh.key }) {
				c.Fail(k, e.Pos(), p.Trace(), "samples of the ring are read without its lock: a recorder can overwrite them meanwhile")
			}
		}
		c.Explore(x, nil)
	}
	// the backing array: created with the shard, never handed out
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+relStats || f.Synthetic != "" {
			continue
		}
		eachFieldAddr(f, "statShard.samples", func(fa *ssa.FieldAddr) {
			for _, r := range *fa.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						c.Fail("ring: capacity fixed at creation", r.Pos(), "", "%s replaces the ring of an existing statistic", calleeName(f))
					}
				case *ssa.UnOp:
					c.ringUses(f, r, 0)
				}
			}
		})
	}
}

// ringUses: the backing array is only indexed, sliced, measured and copied from.
func (c *Ctx) ringUses(f *ssa.Function, v ssa.Value, d int) {
	if v.Referrers() == nil || d > 6 {
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.IndexAddr, *ssa.Range:
		case *ssa.Slice:
			c.ringUses(f, r, d+1)
		case *ssa.Phi:
			c.ringUses(f, r, d+1)
		case *ssa.Call:
			n := ""
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				n = b.Name()
				if n == "append" && r.Call.Args[0] == v {
					n = "append to"
				}
			} else if g := r.Call.StaticCallee(); g != nil {
				n = calleeName(g)
				if inModule(g) && len(g.Blocks) > 0 {
					for i, a := range r.Call.Args {
						if a == v && i < len(g.Params) {
							c.ringUses(g, g.Params[i], d+1)
						}
					}
					continue
				}
			}
			switch n {
			case "len", "cap", "copy", "append", "slices.Clone":
			default:
				c.Fail("ring: the ring never leaves the collector", r.Pos(), "", "%s passes the live ring to %s", calleeName(f), n)
			}
		default:
			c.Fail("ring: the ring never leaves the collector", v.Pos(), "", "%s lets the live ring out of the lock (%T)", calleeName(f), r)
		}
	}
}

func constFloat(t *Term) (float64, bool) {
	v := constant.ToFloat(t.cv)
	if v.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(v)
	return f, true
}

// varianceWrong: r is the mean squared distance of the elements of v from mean.
func varianceWrong(p *Path, v, r, mean *Term, all bool) string {
	ns := lengths(p, v)
	if ns == nil {
		return ""
	}
	if z, ok := floatConst(r); ok {
		if z != 0 || len(ns) != 1 || ns[0] != 0 {
			return "the variance of a sample that may have elements is the constant " + short(r)
		}
		return ""
	}
	if r.op == "wide" {
		return ""
	}
	if !(r.op == "bin" && r.name == "/" && isFloatOf(r.args[1], lenOf(v))) {
		return "it is " + short(r)
	}
	if feasible(p, eq(lenOf(v), tInt(0)), true) && !p.Has("w0") {
		return "it divides by a length that may be zero"
	}
	if !all {
		return "elements are left out"
	}
	n := 0
	var leaf func(t *Term) string
	leaf = func(t *Term) string {
		if t.op == "bin" && t.name == "+" {
			if w := leaf(t.args[0]); w != "" {
				return w
			}
			return leaf(t.args[1])
		}
		if z, ok := floatConst(t); ok && z == 0 || t.op == "wide" {
			return ""
		}
		var d *Term
		if t.op == "bin" && t.name == "*" && t.args[0].key == t.args[1].key {
			d = t.args[0]
		} else if t.op == "pcall" && t.name == "math.Pow" {
			if e, ok := floatConst(t.args[1]); ok && e == 2 {
				d = t.args[0]
			}
		}
		if d == nil || d.op != "bin" || d.name != "-" {
			return "it sums " + short(t)
		}
		for i := 0; i < 2; i++ {
			if w, _, ok := elemAt(d.args[i]); ok && w.key == v.key && mean != nil && d.args[1-i].key == mean.key {
				n++
				return ""
			}
		}
		return "it sums squares of " + short(d)
	}
	return leaf(r.args[0])
}

func runS04(c *Ctx) {
	f := c.NeedM(relStats, hsc, "GetStats")
	if f == nil {
		return
	}
	for _, k := range []string{"every statistic visited", "one entry per recorded statistic", "no entry without values", "own name", "Mean", "Median", "Min", "Max", "Values", "Count", "Sum", "Variance", "extremes read after the count", "whole window", "ring read under its lock", "sorted before use", "the filled table is returned"} {
		c.Oblige("GetStats: " + k)
	}
	// a counted value is in the extremes already, so the markers are never seen
	c.recorderRules("extremes include the value")
	x := newEngine(c.P, f)
	fail := func(k string, p *Path, e *Event, f2 string, a ...any) {
		c.Fail("GetStats: "+k, e.Pos(), p.Trace(), f2, a...)
	}
	fields := []string{"Mean", "Median", "Min", "Max", "Values", "Count", "Sum", "Variance"}
	s := &snap{x: x, fail: fail}
	s.key = func(p *Path, sh *Term) bool { return own(p, sh) }
	loop := &turns{tag: "var", over: func(p *Path, t *Term) bool { return p.Vars["snap"] != nil && p.Vars["snap"].key == t.key }}
	end := func(p *Path, e *Event) {
		if p.Has("corrupt") {
			return
		}
		cnt := p.Vars["count"]
		if p.Has("put") || cnt != nil && (p.IsTrue(eq(cnt, tInt(0))) || p.Has("none")) {
			return
		}
		fail("one entry per recorded statistic", p, e, "a statistic with recorded values may get no entry")
	}
	x.OnEvent = func(p *Path, e *Event) {
		noteCorrupt(p, e)
		s.on(p, e)
		loop.step(p, e)
		switch e.Kind {
		case "cbenter":
			if e.Name != "sync.(*Map).Range" {
				return
			}
			for k := range p.Flags {
				p.Clear(k)
			}
			for k := range p.Vars {
				delete(p.Vars, k)
			}
			p.Set("turn")
			if len(e.Args) == 2 {
				p.Vars["k"], p.Vars["v"] = e.Args[0], e.Args[1]
			}
		case "cbexit":
			if e.Name != "sync.(*Map).Range" {
				return
			}
			end(p, e)
			if len(e.Args) != 1 || !p.IsTrue(e.Args[0]) {
				fail("every statistic visited", p, e, "the iteration stops early")
			}
			p.Clear("turn")
			p.Set("ranged")
		case "branch":
			if cnt := p.Vars["count"]; cnt != nil {
				if p.IsTrue(eq(cnt, tInt(0))) || p.IsFalse(lt(tInt(0), cnt)) {
					p.Set("none")
				}
				if p.IsFalse(eq(cnt, tInt(0))) || p.IsTrue(lt(tInt(0), cnt)) {
					p.Set("some")
				}
			}
		case "call":
			if e.Name == "sync.(*Map).Range" {
				if len(e.Args) == 0 || !e.Args[0].isFieldAddr(hsc+".stats") {
					fail("every statistic visited", p, e, "another table is visited")
				}
				p.Set("ranged")
				return
			}
			if strings.HasPrefix(e.Name, "sync/atomic.") {
				b, fd := shardField(e.Args[0])
				if b == nil || !strings.HasSuffix(e.Name, ".Load") {
					return
				}
				if !own(p, b) {
					fail("own name", p, e, "%s of another statistic is read", fd)
				}
				p.Vars[fd] = e.Res
				if fd == "count" {
					p.Clear("late.minV")
					p.Clear("late.maxV")
				} else if p.Vars["count"] != nil {
					p.Set("late." + fd)
				}
			}
		case "mapupdate":
			if !p.Has("turn") {
				fail("one entry per recorded statistic", p, e, "an entry is made outside the iteration")
				return
			}
			if p.Has("put") {
				fail("one entry per recorded statistic", p, e, "two entries for one statistic")
			}
			p.Set("put")
			p.Set("put.some")
			if k := e.Args[1].unbox(); p.Vars["k"] == nil || k.op != "as" || k.args[0].key != p.Vars["k"].key {
				fail("own name", p, e, "the entry is filed under %s", short(e.Args[1]))
			}
			if !p.Has("some") {
				fail("no entry without values", p, e, "a statistic that may have no values gets an entry")
			}
			if !p.Has("late.minV") || !p.Has("late.maxV") {
				fail("extremes read after the count", p, e, "an extreme is read before the count: the entry can count a value its extremes do not include")
			}
			get := map[string]*Term{}
			for _, fd := range fields {
				get[fd] = x.fieldByName(p, e.Val.unbox(), fd)
				if get[fd] == nil {
					fail(fd, p, e, "the entry has no %s", fd)
					return
				}
			}
			p2 := p
			same := func(fd, src string) {
				if w := p2.Vars[src]; w == nil || get[fd].key != w.key {
					fail(fd, p, e, "%s becomes %s", fd, short(get[fd]))
				}
			}
			same("Min", "minV")
			same("Max", "maxV")
			same("Sum", "sum")
			if g := wideConv(get["Count"]); p.Vars["count"] == nil || g.key != p.Vars["count"].key {
				fail("Count", p, e, "Count becomes %s", short(get["Count"]))
			}
			if m := get["Mean"]; !(m.op == "bin" && m.name == "/" && isFloatOf(m.args[0], p.Vars["sum"]) && isFloatOf(m.args[1], p.Vars["count"])) {
				fail("Mean", p, e, "Mean becomes %s", short(m))
			}
			v := get["Values"]
			if why := s.ready(p, v); why != "" {
				fail("Values", p, e, "Values: %s", why)
			}
			if why := medianWrong(p, v, get["Median"]); why != "" {
				fail("Median", p, e, "Median: %s", why)
			}
			if why := varianceWrong(p, v, get["Variance"], get["Mean"], p.Has("var.all")); why != "" {
				fail("Variance", p, e, "Variance: %s", why)
			}
		case "load":
			if !p.Has("less") && e.Addr.op == "idx" && p.Vars["snap"] != nil && e.Addr.args[0].key == p.Vars["snap"].key {
				if why := s.ready(p, p.Vars["snap"]); why != "" && !p.Has("w0") {
					fail("sorted before use", p, e, "a value is picked, but %s", why)
				}
			}
		case "return":
			r := e.Args[0].unbox()
			if !p.Has("ranged") {
				fail("every statistic visited", p, e, "GetStats returns without visiting the statistics")
			}
			if r.op != "makemap" {
				fail("the filled table is returned", p, e, "it returns %s", short(r))
			}
		case "panic":
			if !corrupt(p) {
				fail("every statistic visited", p, e, "GetStats panics")
			}
		}
	}
	c.Explore(x, nil)
}

// wideConv strips conversions that keep every 64 bit count.
func wideConv(t *Term) *Term {
	for t.op == "conv" && (t.name == "int" || t.name == "int64" || t.name == "uint64" || t.name == "uint") {
		t = t.args[0]
	}
	return t
}

// own: b is the shard the current turn of Range was given.
func own(p *Path, b *Term) bool {
	b = b.unbox()
	return b.op == "as" && p.Vars["v"] != nil && b.args[0].key == p.Vars["v"].key
}

func runS05(c *Ctx) {
	c.registryRules(registrySpec{
		rel: relStats, typ: "CollectorRegistry", table: "collectors", create: "NewCollector", top: "NewCollector",
		ctor: "NewCollectorRegistry", empty: "NewEmptyCollectorRegistry", register: "Register",
		unknown: "internal/sentinel.ErrStatsCollectorNotFound", blank: "internal/sentinel.ErrParamCannotBeEmpty",
		defaults: map[string]string{"default": "*" + relStats + "." + hsc},
	})
	// capacities
	if f := c.NeedF(relStats, "NewHistogramStatsCollectorWithCapacity"); f != nil {
		c.Oblige("capacity: positive capacities are kept, others become the default")
		def, _ := c.intConstOf(relStats, "DefaultSampleCapacity")
		x := newEngine(c.P, f)
		k := "capacity: positive capacities are kept, others become the default"
		var prm *Term
		outs := c.Explore(x, func(p *Path, ps []*Term) { prm = ps[0] })
		for _, o := range outs {
			p := o.Path
			v := x.fieldByName(p, o.Res[0], "sampleCap")
			lo, hi := p.interval(prm)
			switch {
			case v == nil:
				c.Fail(k, f.Pos(), p.Trace(), "no capacity is set")
			case v.key == prm.key:
				if lo == nil || *lo < 1 {
					c.Fail(k, f.Pos(), p.Trace(), "a capacity that may not be positive is used: a ring without slots")
				}
			default:
				n, ok := v.intConst()
				if !ok || n != def || def <= 0 {
					c.Fail(k, f.Pos(), p.Trace(), "the capacity becomes %s", short(v))
				}
				if hi == nil || *hi > 0 {
					c.Fail(k, f.Pos(), p.Trace(), "a positive capacity may be ignored")
				}
			}
		}
	}
	if f := c.NeedF(relStats, "NewHistogramStatsCollector"); f != nil {
		k := "capacity: the default collector has the default window"
		c.Oblige(k)
		x := newEngine(c.P, f)
		def, _ := c.intConstOf(relStats, "DefaultSampleCapacity")
		for _, o := range c.Explore(x, nil) {
			v := x.fieldByName(o.Path, o.Res[0], "sampleCap")
			if n, ok := v.intConst(); !ok || n != def {
				c.Fail(k, f.Pos(), o.Path.Trace(), "the capacity becomes %s", short(v))
			}
		}
	}
}
