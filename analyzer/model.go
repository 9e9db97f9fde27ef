package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelRes struct {
	res   []*Term
	forks []Outcome
	dead  bool
}

// pure standard-library functions: result depends on the arguments only.
var purePrefixes = []string{
	"strings.", "strconv.", "path.", "path/filepath.", "unicode.", "unicode/utf8.", "math.", "cmp.", "net/url.QueryEscape", "net/url.PathEscape",
	"errors.Is", "errors.New", "errors.Join", "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "html.", "net.JoinHostPort", "encoding/hex.EncodeToString",
	"crypto/subtle.ConstantTimeCompare", "crypto/subtle.ConstantTimeByteEq",
	"github.com/hyp3rd/ewrap.", "golang.org/x/crypto/bcrypt.CompareHashAndPassword", "golang.org/x/crypto/bcrypt.Cost",
	"github.com/gofiber/fiber/v3.NewError", "time.Duration.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.ContainsFunc",
	"time.(Duration).", "time.(Time).", "time.UnixMilli", "time.Unix", "bytes.Equal", "bytes.TrimSpace", "encoding/base64.(*Encoding).EncodeToString",
	"encoding/base64.(*Encoding).DecodeString", "maps.Clone", "net/http.StatusText",
	"github.com/cespare/xxhash/v2.Sum64", "context.Context.Done", "context.Context.Err", "reflect.TypeOf", "net/http.(Header).Get", "os.Getenv", "github.com/gofiber/fiber/v3.Ctx.Get", "github.com/gofiber/fiber/v3.Ctx.RequestCtx", "github.com/valyala/fasthttp.(*RequestCtx).TLSConnectionState", "context.Context.Value",
	"hash/fnv.New", "encoding/binary.(bigEndian).Uint", "encoding/binary.(littleEndian).Uint",
	"sync/atomic.(*Pointer).", "time.ParseDuration", "time.Until", "error.Error", "net.SplitHostPort", "net.ParseIP",
}

func isPure(name string) bool {
	if strings.HasPrefix(name, "sync/atomic.") || name == "time.Until" || strings.HasPrefix(name, "strings.New") || strings.HasPrefix(name, "strings.(*") {
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			if name == "context.Context.Err" {
				return false
			}
			return true
		}
	}
	return false
}

// noEscape: opaque functions that do not write through their arguments.
func noEscape(name string) bool {
	for _, p := range []string{"fmt.", "log/slog.", "context.", "encoding/json.Marshal", "github.com/goccy/go-json.Marshal", "errors.", "time.", "strings.", "slices.Contains", "slices.Index"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Engine) model(p *Path, in ssa.Instruction, name string, args, full []*Term, sig *types.Signature) *modelRes {
	switch name {
	case "strings.Clone":
		if !x.KeepClone {
			return &modelRes{res: []*Term{args[0]}}
		}
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		if s, ok := args[0].strConst(); ok {
			switch name {
			case "strings.TrimSpace":
				s = strings.TrimSpace(s)
			case "strings.ToLower":
				s = strings.ToLower(s)
			default:
				s = strings.ToUpper(s)
			}
			return &modelRes{res: []*Term{tStr(s)}}
		}
	case "cmp.Compare", "strings.Compare":
		a, b := args[0], args[1]
		if isFloat(a.typ) || isFloat(b.typ) {
			break
		}
		var outs []Outcome
		for _, sgn := range []int64{-1, 0, 1} {
			q := p.fork()
			if q.Assume(lt(a, b), sgn < 0) && q.Assume(eq(a, b), sgn == 0) && q.Assume(lt(b, a), sgn > 0) {
				outs = append(outs, Outcome{q, []*Term{mkConst(constant.MakeInt64(sgn), types.Typ[types.Int])}})
			}
		}
		if outs == nil {
			return &modelRes{dead: true}
		}
		return &modelRes{forks: outs}
	case "cmp.Or":
		l := args
		if len(args) == 1 {
			if els := x.Elems(p, args[0]); els != nil {
				l = els
			} else if args[0].op == "list" {
				l = args[0].args
			}
		}
		for i, a := range l {
			if !a.isConst() {
				break
			}
			if n, ok := a.intConst(); !ok || n != 0 || i == len(l)-1 {
				if s, ok := a.strConst(); ok && s == "" && i < len(l)-1 {
					continue
				}
				return &modelRes{res: []*Term{a}}
			}
		}
	case "os.LookupEnv":
		v := mk(&Term{op: "pcall", name: "os.Getenv", args: args[:1], typ: types.Typ[types.String]})
		ok := x.fresh(p, "call", name, in, types.Typ[types.Bool], full...)
		tup := func(a, b *Term) []*Term { return []*Term{a, b} }
		q := p.fork()
		q.Assume(ok, true)
		outs := []Outcome{{q, tup(v, tTrue)}}
		if p.Assume(mkEq(v, tEmpty), true) {
			p.Assume(ok, false)
			x.event(p, &Event{Kind: "branch", Val: mkEq(v, tEmpty), Truth: true, Instr: in, In: in.Parent()})
			outs = append(outs, Outcome{p, tup(tEmpty, tFalse)})
		}
		return &modelRes{forks: outs}
	case "errors.As":
		// target is a pointer to a variable: on success it receives the matched error
		tgt := args[1].unbox()
		et := types.Type(nil)
		if tgt.typ != nil {
			et = derefT(tgt.typ)
		}
		tn := "?"
		if et != nil {
			tn = typeStr(et)
		}
		pr := mk(&Term{op: "pcall", name: "errors.As:" + tn, args: []*Term{args[0]}, typ: types.Typ[types.Bool]})
		av := mk(&Term{op: "asErr", name: tn, args: []*Term{args[0]}, typ: et})
		if p.KnownNil(args[0]) {
			return &modelRes{res: []*Term{tFalse}}
		}
		foreign := et != nil && moduleType(et)
		for _, b := range wrapLeaves(args[0]) {
			if b.typ != nil && et != nil && types.Identical(b.typ, et) && p.KnownNonNil(args[0]) {
				x.Store(p, tgt, b)
				return &modelRes{res: []*Term{tTrue}}
			}
			if !foreignErr(b) && !isWrapper(b) {
				foreign = false
			}
		}
		if foreign {
			// an error made outside the module is never one of its types
			return &modelRes{res: []*Term{tFalse}}
		}
		q := p.fork()
		var outs []Outcome
		if q.Assume(pr, true) {
			q.Assume(mkEq(args[0], tNil), false)
			x.Store(q, tgt, av)
			q.Assume(mkEq(av, tNil), false)
			q.note(in.Pos(), short(pr)+"=true")
			outs = append(outs, Outcome{q, []*Term{tTrue}})
		}
		if p.Assume(pr, false) {
			p.note(in.Pos(), short(pr)+"=false")
			outs = append(outs, Outcome{p, []*Term{tFalse}})
		}
		if outs == nil {
			return &modelRes{dead: true}
		}
		return &modelRes{forks: outs}
	case "errors.Is":
		if args[0].key == args[1].key {
			return &modelRes{res: []*Term{tTrue}}
		}
		if p.KnownNil(args[0]) {
			return &modelRes{res: []*Term{tFalse}}
		}
	case "github.com/hyp3rd/ewrap.Wrap", "github.com/hyp3rd/ewrap.Wrapf":
		t := mk(&Term{op: "pcall", name: name, args: full, typ: resType(sig)})
		if p.KnownNonNil(full[0]) {
			p.Assume(mkEq(t, tNil), false)
			b := mkEq(t, tNil)
			_ = b
		}
		return &modelRes{res: []*Term{t}}
	case "sort.Search":
		t := x.fresh(p, "call", name, in, resType(sig), full...)
		p.Assume(mk(&Term{op: "bin", name: "<", args: []*Term{t, tInt(0)}, typ: types.Typ[types.Bool]}), false)
		pr, neg := cmp(token.LEQ, t, full[0])
		p.Assume(pr, !neg)
		return &modelRes{res: []*Term{t}}
	}
	// atomic value methods: a load is a new observation every time
	if strings.HasPrefix(name, "sync/atomic.") {
		t := x.fresh(p, "call", name, in, resType(sig), full...)
		if sig != nil && sig.Results().Len() == 0 {
			return &modelRes{}
		}
		return &modelRes{res: []*Term{t}}
	}
	return nil
}

func isSyncHOF(name string) bool {
	switch name {
	case "sort.Search", "sort.Slice", "sort.SliceStable", "sync.(*Map).Range", "strings.Map", "strings.FieldsFunc", "maps.DeleteFunc", "strings.ContainsFunc", "strings.IndexFunc":
		return true
	}
	return strings.HasPrefix(name, "slices.") && strings.HasSuffix(name, "Func")
}

// Eval runs a function term on a copy of the path, without events.
func (x *Engine) Eval(p *Path, f *Term, args []*Term) []Outcome {
	f = f.unbox()
	if f.fn == nil || len(f.fn.Blocks) == 0 {
		return nil
	}
	save := x.OnEvent
	x.OnEvent = nil
	defer func() { x.OnEvent = save }()
	q := p.fork()
	var bind []*Term
	if f.op == "closure" {
		bind = f.args
	}
	return x.call(q, f.fn, args, bind, f.fn.Blocks[0].Instrs[0])
}

func moduleType(t types.Type) bool {
	n, ok := types.Unalias(derefT(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath || strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/"))
}

// foreignErr: the error result of a call into a dependency.
func foreignErr(t *Term) bool {
	if t.isNil() {
		return true
	}
	if t.op == "ext" {
		t = t.args[0]
	}
	if t.op == "call" || t.op == "pcall" {
		return hasPrefixAny(t.name, "net/http.", "io.", "os.", "encoding/", "strconv.", "net/url.", "net.", "crypto/", "errors.New", "fmt.Errorf") && t.name != "fmt.Errorf"
	}
	return false
}

// isWrapper: an error expression whose wrapped errors are known.
func isWrapper(t *Term) bool {
	if t.op != "pcall" {
		return false
	}
	switch t.name {
	case "fmt.Errorf":
		_, ok := t.args[0].strConst()
		return ok && (len(t.args) < 2 || t.args[1].op == "list" || t.args[1].isNil())
	case "errors.Join":
		for _, a := range t.args {
			if a.op != "list" && !isErrorT(a.typ) {
				return false
			}
		}
		return true
	case "errors.New", "github.com/hyp3rd/ewrap.Wrap", "github.com/hyp3rd/ewrap.Wrapf", "github.com/hyp3rd/ewrap.New", "github.com/hyp3rd/ewrap.Newf":
		return true
	}
	return false
}
