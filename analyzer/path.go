package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dom is what is known about one term on a path: a constant value or excluded
// constants, and an integer interval.
type dom struct {
	t      *Term
	eq     *Term
	ne     map[string]*Term
	lo, hi *int64
}

func (d *dom) clone() *dom {
	c := *d
	if d.ne != nil {
		c.ne = make(map[string]*Term, len(d.ne))
		for k, v := range d.ne {
			c.ne[k] = v
		}
	}
	return &c
}

func (d *dom) str() string {
	var b strings.Builder
	b.WriteString(d.t.key)
	if d.eq != nil {
		b.WriteString("=" + d.eq.key)
		return b.String()
	}
	if d.lo != nil {
		fmt.Fprintf(&b, ">=%d", *d.lo)
	}
	if d.hi != nil {
		fmt.Fprintf(&b, "<=%d", *d.hi)
	}
	if len(d.ne) > 0 {
		ks := make([]string, 0, len(d.ne))
		for k := range d.ne {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("!=" + strings.Join(ks, ","))
	}
	return b.String()
}

type memCell struct {
	addr, val *Term
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	ctx    int
	call   ssa.Instruction
	pd     *ssa.BasicBlock
}

type deferred struct {
	instr *ssa.Defer
	fnv   *Term
	args  []*Term
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	what string
}

// Path is one abstract state of the dataflow analysis.
type Path struct {
	x      *Engine
	frames []*frame
	mem    map[string]memCell
	doms   map[string]*dom
	rels   map[string]relFact
	locks  map[string]lockHeld
	epoch  *Term
	Flags  map[string]bool
	Vars   map[string]*Term
	trace  *traceNode
	Dead   bool
	selIdx map[string]int
}

type relFact struct {
	t *Term
	v bool
}

type lockHeld struct {
	t    *Term
	w, r int
}

func (p *Path) top() *frame { return p.frames[len(p.frames)-1] }

func (p *Path) fork() *Path {
	q := &Path{x: p.x, epoch: p.epoch, trace: p.trace}
	q.frames = append([]*frame(nil), p.frames...)
	if n := len(q.frames); n > 0 {
		q.frames[n-1] = q.frames[n-1].clone()
	}
	q.mem = make(map[string]memCell, len(p.mem)+4)
	for k, v := range p.mem {
		q.mem[k] = v
	}
	q.doms = make(map[string]*dom, len(p.doms)+4)
	for k, v := range p.doms {
		q.doms[k] = v
	}
	q.rels = make(map[string]relFact, len(p.rels)+2)
	for k, v := range p.rels {
		q.rels[k] = v
	}
	q.locks = make(map[string]lockHeld, len(p.locks))
	for k, v := range p.locks {
		q.locks[k] = v
	}
	q.Flags = make(map[string]bool, len(p.Flags))
	for k, v := range p.Flags {
		q.Flags[k] = v
	}
	q.Vars = make(map[string]*Term, len(p.Vars))
	for k, v := range p.Vars {
		q.Vars[k] = v
	}
	return q
}

func (f *frame) clone() *frame {
	c := *f
	c.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = append([]deferred(nil), f.defers...)
	return &c
}

func (p *Path) note(pos token.Pos, what string) {
	p.trace = &traceNode{prev: p.trace, pos: pos, what: what}
}

// Trace renders the decisions that lead here.
func (p *Path) Trace() string {
	var out []string
	for n := p.trace; n != nil && len(out) < 40; n = n.prev {
		out = append(out, p.x.P.pos(n.pos)+" "+n.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " -> ")
}

// Set raises a flag of the property automaton.
func (p *Path) Set(f string)      { p.Flags[f] = true }
func (p *Path) Clear(f string)    { delete(p.Flags, f) }
func (p *Path) Has(f string) bool { return p.Flags[f] }

func (p *Path) key() string {
	var b strings.Builder
	for _, f := range p.frames {
		ks := make([]string, 0, len(f.env))
		for v, t := range f.env {
			ks = append(ks, v.Name()+"="+t.key)
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "!d%d", d.instr.Pos())
			for _, a := range d.args {
				b.WriteString("," + a.key)
			}
		}
		b.WriteString("|")
	}
	var ks []string
	for _, c := range p.mem {
		ks = append(ks, c.addr.key+":="+c.val.key)
	}
	for _, d := range p.doms {
		ks = append(ks, d.str())
	}
	for _, r := range p.rels {
		ks = append(ks, fmt.Sprint(r.t.key, r.v))
	}
	for k, l := range p.locks {
		ks = append(ks, fmt.Sprintf("L%s/%d/%d", k, l.w, l.r))
	}
	for k := range p.Flags {
		ks = append(ks, "F"+k)
	}
	for k, v := range p.Vars {
		ks = append(ks, "V"+k+"="+v.key)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	if p.epoch != nil {
		b.WriteString("E" + p.epoch.key)
	}
	return b.String()
}

// ---- predicates -------------------------------------------------------

func (p *Path) domOf(t *Term) *dom { return p.doms[t.key] }

func (p *Path) setDom(d *dom) { p.doms[d.t.key] = d }

func nonNilTerm(t *Term) bool {
	switch t.op {
	case "iface", "alloc", "closure", "fn", "makemap", "makechan", "makeslice", "field", "idx", "global", "boundm":
		return true
	case "slice":
		return t.args[0].op == "alloc"
	case "append":
		return false
	case "pcall", "call":
		return nonNilCalls[t.name]
	case "load":
		if t.args[0].op == "global" {
			n := t.args[0].name
			if i := strings.LastIndex(n, "."); i >= 0 {
				n = n[i+1:]
			}
			return (strings.HasPrefix(n, "Err") || strings.HasPrefix(n, "err")) && isErrorT(t.typ)
		}
	case "struct":
		return true
	}
	return false
}

func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"github.com/hyp3rd/ewrap.New": true, "github.com/hyp3rd/ewrap.Newf": true,
	"context.Background": true, "context.WithValue": true,
	"time.NewTicker": true, "time.NewTimer": true, "time.After": true,
	"bytes.NewReader": true, "strings.NewReader": true, "bytes.NewBuffer": true,
	"io.NopCloser": true, "io.LimitReader": true,
	"github.com/gofiber/fiber/v3.NewError": true, "github.com/gofiber/fiber/v3.New": true,
	"net/http.(*Request).Clone":     true,
	"golang.org/x/oauth2.NewClient": true,
	"log/slog.New":                  true, "log/slog.(*Logger).With": true, "log/slog.Default": true,
}

// cmp builds the canonical predicate for a comparison; neg reports that the
// canonical predicate is the negation of the comparison.
func cmp(op token.Token, a, b *Term) (pred *Term, neg bool) {
	switch op {
	case token.NEQ:
		pred, neg = cmp(token.EQL, a, b)
		return pred, !neg
	case token.GTR:
		return cmp(token.LSS, b, a)
	case token.LEQ:
		if isFloat(a.typ) || isFloat(b.typ) {
			return mk(&Term{op: "bin", name: "<=", args: []*Term{a, b}, typ: types.Typ[types.Bool]}), false
		}
		pred, neg = cmp(token.LSS, b, a)
		return pred, !neg
	case token.GEQ:
		if isFloat(a.typ) || isFloat(b.typ) {
			return mk(&Term{op: "bin", name: "<=", args: []*Term{b, a}, typ: types.Typ[types.Bool]}), false
		}
		pred, neg = cmp(token.LSS, a, b)
		return pred, !neg
	case token.LSS:
		// len(s) comparisons against 0/1 become s == ""
		if c, ok := a.intConst(); ok && c == 0 && b.op == "len" && isStringT(b.args[0].typ) {
			return mkEq(b.args[0], tEmpty), true
		}
		if c, ok := b.intConst(); ok && c == 1 && a.op == "len" && isStringT(a.args[0].typ) {
			return mkEq(a.args[0], tEmpty), false
		}
		if c, ok := a.intConst(); ok && c == 0 && b.op == "len" {
			return mkEq(b, a), true
		}
		if c, ok := b.intConst(); ok && c == 1 && a.op == "len" {
			return mkEq(a, tInt(0)), false
		}
		return mk(&Term{op: "bin", name: "<", args: []*Term{a, b}, typ: types.Typ[types.Bool]}), false
	case token.EQL:
		if isBoolT(a.typ) || isBoolT(b.typ) {
			if b == tTrue {
				return a, false
			}
			if b == tFalse {
				return a, true
			}
			if a == tTrue {
				return b, false
			}
			if a == tFalse {
				return b, true
			}
		}
		if c, ok := b.intConst(); ok && c == 0 && a.op == "len" && isStringT(a.args[0].typ) {
			return mkEq(a.args[0], tEmpty), false
		}
		if c, ok := a.intConst(); ok && c == 0 && b.op == "len" && isStringT(b.args[0].typ) {
			return mkEq(b.args[0], tEmpty), false
		}
		return mkEq(a, b), false
	}
	panic("cmp op")
}

func mkEq(a, b *Term) *Term {
	if a.isConst() && !b.isConst() || (a.isConst() == b.isConst() && a.key > b.key) {
		a, b = b, a
	}
	return mk(&Term{op: "bin", name: "==", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func tNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.op == "not" {
		return t.args[0]
	}
	return mk(&Term{op: "not", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func isCmp(t *Term, op string) bool {
	return t.op == "bin" && t.name == op && len(t.args) == 2
}

const (
	unknown = 0
	yes     = 1
	no      = -1
)

func b2t(b bool) int {
	if b {
		return yes
	}
	return no
}

func constEq(a, b *Term) bool {
	if a.isNil() || b.isNil() {
		return a.isNil() && b.isNil()
	}
	if a.cv.Kind() == constant.String != (b.cv.Kind() == constant.String) || (a.cv.Kind() == constant.Bool) != (b.cv.Kind() == constant.Bool) {
		return false
	}
	return constant.Compare(a.cv, token.EQL, b.cv)
}

func naturalLo(t *Term) *int64 {
	z := int64(0)
	switch t.op {
	case "len", "cap":
		return &z
	case "iv", "ivp":
		return &z
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return &z
		}
	}
	return nil
}

func (p *Path) interval(t *Term) (lo, hi *int64) {
	if c, ok := t.intConst(); ok {
		return &c, &c
	}
	lo = naturalLo(t)
	if d := p.domOf(t); d != nil {
		if d.eq != nil {
			if c, ok := d.eq.intConst(); ok {
				return &c, &c
			}
		}
		if d.lo != nil && (lo == nil || *d.lo > *lo) {
			lo = d.lo
		}
		if d.hi != nil {
			hi = d.hi
		}
	}
	return lo, hi
}

// Decide evaluates a boolean term under the path's facts.
func (p *Path) Decide(t *Term) int {
	if t == nil {
		return unknown
	}
	if t == tTrue {
		return yes
	}
	if t == tFalse {
		return no
	}
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Bool {
		return b2t(constant.BoolVal(t.cv))
	}
	if t.op == "not" {
		return -p.Decide(t.args[0])
	}
	if r, ok := p.rels[t.key]; ok {
		return b2t(r.v)
	}
	if isCmp(t, "==") {
		a, b := t.args[0], t.args[1]
		if a.key == b.key && !isFloat(a.typ) {
			return yes
		}
		if a.isConst() && b.isConst() {
			return b2t(constEq(a, b))
		}
		if b.isNil() {
			if nonNilTerm(a) {
				return no
			}
		}
		if b.key == tEmpty.key && a.op == "pcall" && a.name == "fmt.Sprintf" && len(a.args) > 0 {
			if f, ok := a.args[0].strConst(); ok && formatHasText(f) {
				return no
			}
		}
		if b.key == tEmpty.key && a.op == "bin" && a.name == "+" && isStringT(a.typ) {
			for _, q := range concat(a) {
				if s, ok := q.strConst(); ok && s != "" {
					return no
				}
			}
		}
		if b.isConst() {
			if d := p.domOf(a); d != nil {
				if d.eq != nil {
					return b2t(constEq(d.eq, b))
				}
				if _, ok := d.ne[b.key]; ok {
					return no
				}
			}
			if c, ok := b.intConst(); ok {
				lo, hi := p.interval(a)
				if lo != nil && c < *lo || hi != nil && c > *hi {
					return no
				}
				if lo != nil && hi != nil && *lo == *hi && c == *lo {
					return yes
				}
			}
			return unknown
		}
		// a==b unknown terms: use known constants
		da, db := p.domOf(a), p.domOf(b)
		if da != nil && db != nil && da.eq != nil && db.eq != nil {
			return b2t(constEq(da.eq, db.eq))
		}
		la, ha := p.interval(a)
		lb, hb := p.interval(b)
		if la != nil && hb != nil && *la > *hb || lb != nil && ha != nil && *lb > *ha {
			return no
		}
		if r, ok := p.rels[ltKey(a, b)]; ok && r.v {
			return no
		}
		if r, ok := p.rels[ltKey(b, a)]; ok && r.v {
			return no
		}
		if !isFloat(a.typ) && (isIntT(a.typ) || isIntT(b.typ)) {
			r1, ok1 := p.rels[ltKey(a, b)]
			r2, ok2 := p.rels[ltKey(b, a)]
			if ok1 && ok2 && !r1.v && !r2.v {
				return yes
			}
		}
		return unknown
	}
	if isCmp(t, "<") {
		a, b := t.args[0], t.args[1]
		if a.key == b.key {
			return no
		}
		if a.isConst() && b.isConst() && !a.isNil() && !b.isNil() {
			return b2t(constant.Compare(a.cv, token.LSS, b.cv))
		}
		la, ha := p.interval(a)
		lb, hb := p.interval(b)
		if ha != nil && lb != nil && *ha < *lb {
			return yes
		}
		if la != nil && hb != nil && *la >= *hb {
			return no
		}
		if r, ok := p.rels[ltKey(b, a)]; ok && r.v {
			return no
		}
		if r, ok := p.rels[mkEq(a, b).key]; ok && r.v {
			return no
		}
		return unknown
	}
	if t.op == "bin" && t.name == "<=" && t.args[0].isConst() && t.args[1].isConst() {
		return b2t(constant.Compare(t.args[0].cv, token.LEQ, t.args[1].cv))
	}
	if t.op == "is" {
		x := t.args[0]
		if x.op == "iface" && x.args[0].typ != nil && t.typ2() != nil {
			if it, ok := t.typ2().Underlying().(*types.Interface); ok {
				return b2t(types.Implements(x.args[0].typ, it))
			}
			return b2t(types.Identical(x.args[0].typ, t.typ2()))
		}
		if p.Decide(mkEq(x, tNil)) == yes {
			return no
		}
	}
	if d := p.domOf(t); d != nil && d.eq != nil && d.eq.cv != nil && d.eq.cv.Kind() == constant.Bool {
		return b2t(constant.BoolVal(d.eq.cv))
	}
	return unknown
}

// typ2 is the asserted type of an "is"/"tassert" term (kept in attr[0].typ).
func (t *Term) typ2() types.Type {
	if len(t.attr) > 0 {
		return t.attr[0].typ
	}
	return nil
}

func ltKey(a, b *Term) string {
	return "bin:<(" + a.key + ", " + b.key + ")"
}

// Assume adds a fact; false means the path is infeasible.
func (p *Path) Assume(t *Term, v bool) bool {
	switch p.Decide(t) {
	case yes:
		return v
	case no:
		return !v
	}
	if t.op == "not" {
		return p.Assume(t.args[0], !v)
	}
	if isCmp(t, "==") {
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			d := p.domOf(a)
			if d == nil {
				d = &dom{t: a}
			} else {
				d = d.clone()
			}
			if v {
				d.eq = b
			} else {
				if d.ne == nil {
					d.ne = map[string]*Term{}
				}
				if c, ok := b.intConst(); ok {
					lo, hi := p.interval(a)
					switch {
					case lo != nil && *lo == c:
						n := c + 1
						d.lo = &n
					case hi != nil && *hi == c:
						n := c - 1
						d.hi = &n
					default:
						d.ne[b.key] = b
					}
				} else {
					d.ne[b.key] = b
				}
			}
			p.setDom(d)
			if v && b.isNil() {
				return true
			}
			return true
		}
		p.rels[t.key] = relFact{t, v}
		if v {
			// propagate known constants across the equality
			da, db := p.domOf(a), p.domOf(b)
			if da != nil && da.eq != nil && (db == nil || db.eq == nil) {
				return p.Assume(mkEq(b, da.eq), true)
			}
			if db != nil && db.eq != nil && (da == nil || da.eq == nil) {
				return p.Assume(mkEq(a, db.eq), true)
			}
		}
		return true
	}
	if isCmp(t, "<") {
		a, b := t.args[0], t.args[1]
		if c, ok := b.intConst(); ok && !isFloat(a.typ) {
			p.bound(a, c, v, true)
			return true
		}
		if c, ok := a.intConst(); ok && !isFloat(b.typ) {
			p.bound(b, c, v, false)
			return true
		}
		p.rels[t.key] = relFact{t, v}
		return true
	}
	p.rels[t.key] = relFact{t, v}
	if t.op == "is" && v {
		return p.Assume(mkEq(t.args[0], tNil), false)
	}
	return true
}

// bound records t<c (upper) / c<t (!upper), or the negation.
func (p *Path) bound(t *Term, c int64, v, upper bool) {
	d := p.domOf(t)
	if d == nil {
		d = &dom{t: t}
	} else {
		d = d.clone()
	}
	lo, hi := p.interval(t)
	set := func(nlo, nhi *int64) {
		if nlo != nil && (lo == nil || *nlo > *lo) {
			d.lo = nlo
			lo = nlo
		}
		if nhi != nil && (hi == nil || *nhi < *hi) {
			d.hi = nhi
			hi = nhi
		}
	}
	var n int64
	switch {
	case upper && v:
		n = c - 1
		set(nil, &n)
	case upper && !v:
		n = c
		set(&n, nil)
	case !upper && v:
		n = c + 1
		set(&n, nil)
	default:
		n = c
		set(nil, &n)
	}
	for {
		ch := false
		for k, e := range d.ne {
			if ec, ok := e.intConst(); ok {
				if lo != nil && ec == *lo {
					m := ec + 1
					d.lo, lo = &m, &m
					delete(d.ne, k)
					ch = true
				} else if hi != nil && ec == *hi {
					m := ec - 1
					d.hi, hi = &m, &m
					delete(d.ne, k)
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	p.setDom(d)
}

// IsTrue / IsFalse query facts.
func (p *Path) IsTrue(t *Term) bool  { return p.Decide(t) == yes }
func (p *Path) IsFalse(t *Term) bool { return p.Decide(t) == no }

// KnownNil / KnownNonNil query nil-ness.
func (p *Path) KnownNil(t *Term) bool    { return p.Decide(mkEq(t, tNil)) == yes }
func (p *Path) KnownNonNil(t *Term) bool { return p.Decide(mkEq(t, tNil)) == no }

// Const resolves a term to a constant known on the path.
func (p *Path) Const(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if u := t.unbox(); u.isConst() {
		return u
	}
	if d := p.domOf(t); d != nil && d.eq != nil {
		return d.eq
	}
	if isBoolT(t.typ) {
		switch p.Decide(t) {
		case yes:
			return tTrue
		case no:
			return tFalse
		}
	}
	return nil
}

// HeldW / HeldR report lock state; HeldAny whether any lock is held.
func (p *Path) HeldW(match func(*Term) bool) bool {
	for _, l := range p.locks {
		if l.w > 0 && match(l.t) {
			return true
		}
	}
	return false
}

func (p *Path) HeldRW(match func(*Term) bool) bool {
	for _, l := range p.locks {
		if (l.w > 0 || l.r > 0) && match(l.t) {
			return true
		}
	}
	return false
}

func (p *Path) HeldAny() string {
	for _, l := range p.locks {
		if l.w > 0 || l.r > 0 {
			return l.t.key
		}
	}
	return ""
}

// formatHasText: a format string with literal text (or a number) in it never
// produces the empty string.
func formatHasText(f string) bool {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			return true
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0; i++ {
		}
		if i < len(f) && (f[i] == '%' || f[i] == 'd' || f[i] == 'q') {
			return true
		}
	}
	return false
}
