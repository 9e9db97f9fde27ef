package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// branch splits p on cond the way an if statement does.
func (x *Engine) branch(p *Path, cond *Term, in ssa.Instruction) (t, f []*Path) {
	d := p.Decide(cond)
	emit := func(r *Path, truth bool) bool {
		if d == unknown {
			if !r.Assume(cond, truth) {
				return false
			}
			r.note(in.Pos(), fmt.Sprintf("%v=%v", short(cond), truth))
		}
		c, v := cond, truth
		if c.op == "not" {
			c, v = c.args[0], !v
		}
		x.event(r, &Event{Kind: "branch", Val: c, Truth: v, Instr: in, In: in.Parent()})
		return !r.Dead
	}
	if d != no {
		r := p
		if d == unknown {
			r = p.fork()
		}
		if emit(r, true) {
			t = append(t, r)
		}
	}
	if d != yes && emit(p, false) {
		f = append(f, p)
	}
	return
}

// scanFunc treats slices.ContainsFunc and slices.IndexFunc as the loop they
// stand for, so that a rule sees the same events for either form.
func (x *Engine) scanFunc(p *Path, in ssa.Instruction, name string, args []*Term) ([]Outcome, bool) {
	if name != "slices.ContainsFunc" && name != "slices.IndexFunc" {
		return nil, false
	}
	cb := args[1].unbox()
	if cb.op != "closure" && cb.op != "fn" || cb.fn == nil || len(cb.fn.Blocks) == 0 || !inModule(cb.fn) || x.onStack(p, cb.fn) || len(p.frames) > x.MaxDepth {
		return nil, false
	}
	s := x.siteOf(p.top().ctx, instrKey(in)+"/scan")
	x.age(p, s)
	list := x.ageTerm(args[0], s)
	cb = x.ageTerm(cb, s)
	iv := mk(&Term{op: "iv", site: s, typ: types.Typ[types.Int]})
	n := x.builtin(p, in, "len", []*Term{list}, nil, false)[0].Res[0]
	ct, neg := cmp(token.LSS, iv, n)
	if neg {
		ct = tNot(ct)
	}
	index := strings.HasSuffix(name, "IndexFunc")
	var outs []Outcome
	end := func(ps []*Path) {
		for _, q := range ps {
			if index {
				outs = append(outs, Outcome{q, []*Term{tInt(-1)}})
			} else {
				outs = append(outs, Outcome{q, []*Term{tFalse}})
			}
		}
	}
	run, done := x.branch(p, ct, in)
	end(done)
	for _, q := range run {
		var et types.Type
		if list.typ != nil {
			if sl, ok := list.typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		var el *Term
		if list.op == "list" {
			// a known list: its elements are looked at in turn
			el = x.freshK(q, "elem", name, instrKey(in)+"/el", et, list)
		} else {
			el = x.Load(q, mk(&Term{op: "idx", args: []*Term{list, iv}, typ: types.NewPointer(orAny(et))}), et)
		}
		for _, o := range x.call(q, cb.fn, []*Term{el}, cb.args, in) {
			hit, miss := x.branch(o.Path, o.Res[0], in)
			for _, r := range hit {
				if index {
					outs = append(outs, Outcome{r, []*Term{iv}})
				} else {
					outs = append(outs, Outcome{r, []*Term{tTrue}})
				}
			}
			for _, r := range miss {
				// whatever the remaining elements are, the scan ends
				x.age(r, s)
				_, d := x.branch(r, ct, in)
				end(d)
			}
		}
	}
	return outs, true
}

func orAny(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}
