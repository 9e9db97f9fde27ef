package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value: where a value came from (parameter, field load,
// call result, ...) in canonical form. Two equal keys denote the same value on
// one path. Terms are values of a finite abstract domain: instance terms carry
// the program site that produced them and an age (0 = most recent execution of
// the site on the path, 1 = any earlier one), and nesting depth is bounded.
type Term struct {
	op    string
	name  string // callee, operator, field, ...
	args  []*Term
	attr  []*Term // carried for matching, not part of the identity
	typ   types.Type
	cv    constant.Value
	fn    *ssa.Function
	fld   *types.Var
	site  int // instance site, 0 if none
	age   int
	idx   int
	key   string
	sites []int // all instances in the term (sorted): 2*site, +1 for earlier ones
	depth int
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	return t.key
}

func mk(t *Term) *Term {
	var b strings.Builder
	d := 0
	var ss []int
	if t.site != 0 {
		ss = append(ss, 2*t.site+min(t.age, 1))
	}
	for _, a := range t.args {
		if a == nil {
			panic("nil term arg in " + t.op + " " + t.name)
		}
		if a.depth > d {
			d = a.depth
		}
		ss = mergeSites(ss, a.sites)
	}
	t.depth = d + 1
	t.sites = ss
	switch t.op {
	case "const":
		b.WriteString(t.name)
	case "field":
		b.WriteString(t.args[0].key + "." + t.name)
	case "load":
		b.WriteString("*(" + t.args[0].key + ")")
		if len(t.args) > 1 {
			b.WriteString("#" + t.args[1].key)
		}
	default:
		b.WriteString(t.op)
		if t.name != "" {
			b.WriteString(":" + t.name)
		}
		if t.site != 0 {
			b.WriteString("@" + strconv.Itoa(t.site))
			if t.age > 0 {
				b.WriteString("'")
			}
		}
		if t.op == "ext" {
			b.WriteString("#" + strconv.Itoa(t.idx))
		}
		if len(t.args) > 0 {
			b.WriteString("(")
			for i, a := range t.args {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(a.key)
			}
			b.WriteString(")")
		}
	}
	t.key = b.String()
	return t
}

func mergeSites(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	out := make([]int, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Ints(out)
	return out
}

// hasSite: the most recent instance of site s occurs in the term.
func (t *Term) hasSite(s int) bool {
	for _, x := range t.sites {
		if x == 2*s {
			return true
		}
	}
	return false
}

// hasOld: an earlier instance of site s occurs in t.
func (t *Term) hasOld(s int) bool {
	for _, x := range t.sites {
		if x == 2*s+1 {
			return true
		}
	}
	return false
}

var (
	tTrue  = mk(&Term{op: "const", name: "true", cv: constant.MakeBool(true), typ: types.Typ[types.Bool]})
	tFalse = mk(&Term{op: "const", name: "false", cv: constant.MakeBool(false), typ: types.Typ[types.Bool]})
	tNil   = mk(&Term{op: "const", name: "nil"})
	tEmpty = mk(&Term{op: "const", name: `""`, cv: constant.MakeString(""), typ: types.Typ[types.String]})
)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tInt(n int64) *Term {
	return mk(&Term{op: "const", name: strconv.FormatInt(n, 10), cv: constant.MakeInt64(n), typ: types.Typ[types.Int]})
}

func tStr(s string) *Term {
	return mk(&Term{op: "const", name: strconv.Quote(s), cv: constant.MakeString(s), typ: types.Typ[types.String]})
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tNil
	}
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return mk(&Term{op: "const", name: strconv.Quote(constant.StringVal(v)), cv: v, typ: typ})
	}
	if isFloat(typ) {
		v = constant.ToFloat(v)
		return mk(&Term{op: "const", name: v.String() + "f", cv: v, typ: typ})
	}
	return mk(&Term{op: "const", name: v.ExactString(), cv: v, typ: typ})
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (t *Term) isConst() bool { return t != nil && t.op == "const" }
func (t *Term) isNil() bool   { return t == tNil || (t != nil && t.op == "const" && t.cv == nil) }
func (t *Term) strConst() (string, bool) {
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) intConst() (int64, bool) {
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

// strip removes value-preserving wrappers (interface boxing, type changes).
func (t *Term) strip() *Term {
	for t != nil && (t.op == "iface" || t.op == "conv") {
		t = t.args[0]
	}
	return t
}

// unbox removes interface boxing only.
func (t *Term) unbox() *Term {
	for t != nil && t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// any reports whether some subterm (including attributes) satisfies f.
func (t *Term) any(f func(*Term) bool) bool { return t.anyD(f, 0) }
func (t *Term) anyD(f func(*Term) bool, d int) bool {
	if t == nil || d > 14 {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.anyD(f, d+1) {
			return true
		}
	}
	for _, a := range t.attr {
		if a.anyD(f, d+1) {
			return true
		}
	}
	return false
}

// identity-only variant of any (attributes excluded).
func (t *Term) anyArg(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.anyArg(f) {
			return true
		}
	}
	return false
}

func (t *Term) contains(u *Term) bool {
	return t.any(func(x *Term) bool { return x.key == u.key })
}

// isLoadOf reports whether t is a load of field typ.field (any base).
func (t *Term) isLoadOf(field string) bool {
	t = t.unbox()
	return t != nil && ((t.op == "load" && t.args[0].op == "field" && t.args[0].name == field) || (t.op == "fld" && t.name == field))
}

func (t *Term) isFieldAddr(field string) bool {
	return t != nil && t.op == "field" && t.name == field
}

func (t *Term) isCall(name string) bool {
	t = t.unbox()
	if t != nil && t.op == "ext" {
		t = t.args[0]
	}
	return t != nil && (t.op == "call" || t.op == "pcall") && t.name == name
}

// callArgs returns the arguments of a call term (pure or instance).
func (t *Term) callArgs() []*Term {
	t = t.unbox()
	if t != nil && t.op == "ext" {
		t = t.args[0]
	}
	if t == nil {
		return nil
	}
	if t.op == "pcall" {
		return t.args
	}
	if t.op == "call" {
		return t.attr
	}
	return nil
}

func (t *Term) root() *Term {
	for t != nil {
		switch t.op {
		case "field", "idx", "load", "fld", "slice", "iface", "conv", "lookup", "ext":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

// addrRoot follows an address to the object it lies in (not through loads).
func (t *Term) addrRoot() *Term {
	for t != nil && (t.op == "field" || t.op == "idx") {
		t = t.args[0]
	}
	return t
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func fieldName(v *types.Var, owner types.Type) string {
	n := ""
	if p, ok := owner.Underlying().(*types.Pointer); ok {
		owner = p.Elem()
	}
	if nt, ok := types.Unalias(owner).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n + "." + v.Name()
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		return strings.TrimPrefix(strings.TrimPrefix(s, modPath+"/"), modPath)
	})
}

var _ = fmt.Sprint
