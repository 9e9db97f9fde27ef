package main

// linear writes an integer term as a sum of other terms with whole
// coefficients, plus a constant.
func linear(t *Term) (map[string]int64, int64) {
	m := map[string]int64{}
	var k int64
	var walk func(t *Term, f int64)
	walk = func(t *Term, f int64) {
		if c, ok := t.intConst(); ok {
			k += f * c
			return
		}
		switch {
		case t.op == "neg":
			walk(t.args[0], -f)
			return
		case t.op == "conv" && isIntT(t.typ) && isIntT(t.args[0].typ):
			walk(t.args[0], f)
			return
		case t.op == "bin" && (t.name == "+" || t.name == "-") && isIntT(t.typ):
			walk(t.args[0], f)
			if t.name == "-" {
				f = -f
			}
			walk(t.args[1], f)
			return
		case isZeroInt(t):
			return
		}
		m[t.key] += f
		if m[t.key] == 0 {
			delete(m, t.key)
		}
	}
	walk(t, 1)
	return m, k
}

// linSame: a and b are the same sum.
func linSame(a, b *Term) bool {
	ma, ka := linear(a)
	mb, kb := linear(b)
	if ka != kb || len(ma) != len(mb) {
		return false
	}
	for k, v := range ma {
		if mb[k] != v {
			return false
		}
	}
	return true
}

func linSub(a, b *Term) *Term {
	return mk(&Term{op: "bin", name: "-", args: []*Term{a, b}, typ: a.typ})
}

// counted follows loops that run a given number of times: it knows, at the
// test of the loop, how many turns there are in all. over is asked whether the
// count is the one looked for; end is told when a turn (but not the loop) ends.
type counted struct {
	tag  string
	over func(p *Path, n *Term) bool
	end  func(p *Path, e *Event)
}

// step follows one event: the flag tag is set inside a turn, tag+".all" once
// all turns are done; tag+"/" flags last for one turn.
func (l *counted) step(p *Path, e *Event) bool {
	switch e.Kind {
	case "advance":
		k := "start|" + e.Addr.key
		if !e.Truth {
			v := e.Val
			if s := p.Vars["start|"+v.key]; s != nil && !p.Has("step+|"+v.key) && !p.Has("step-|"+v.key) {
				v = s // the counter of a loop that made no turn
			}
			p.Vars[k] = v
			return false
		}
		v := e.Val
		if v.op == "bin" && len(v.args) == 2 && v.args[0].key == e.Addr.key {
			if n, ok := v.args[1].intConst(); ok && n == 1 {
				p.Set("step" + v.name + "|" + e.Addr.key)
			}
		}
		return false
	case "branch":
	default:
		return false
	}
	c := e.Val
	truth := e.Truth
	if !isCmp(c, "<") && !isCmp(c, "<=") && !isCmp(c, "==") {
		return false
	}
	isVar := func(t *Term) bool { return isIv(t) || t.op != "ivp" && p.Vars["start|"+t.key] != nil }
	a, b := c.args[0], c.args[1]
	if !isVar(a) && !isVar(b) {
		return false
	}
	up := isVar(a)
	iv, lim := a, b
	if !up {
		iv, lim = b, a
	}
	start := p.Vars["start|"+iv.key]
	if start == nil || isIv(iv) {
		start = tInt(0)
	}
	var n *Term
	one := int64(0)
	switch c.name {
	case "<=": // iv <= lim, lim <= iv
		one = 1
	case "==": // turns while different
		truth = !truth
		up = !p.Has("step-|" + iv.key)
	}
	if up {
		n = linSub(lim, start)
	} else {
		n = linSub(start, lim)
	}
	if one == 1 {
		n = mk(&Term{op: "bin", name: "+", args: []*Term{n, tInt(1)}, typ: n.typ})
	}
	if !l.over(p, n) {
		return false
	}
	if p.Has(l.tag) && l.end != nil {
		l.end(p, e)
	}
	for k := range p.Flags {
		if len(k) > len(l.tag) && k[:len(l.tag)+1] == l.tag+"/" {
			p.Clear(k)
		}
	}
	p.Clear(l.tag)
	if truth {
		p.Set(l.tag)
		p.Clear(l.tag + ".all")
	} else {
		p.Set(l.tag + ".all")
	}
	return true
}
