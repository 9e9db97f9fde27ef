package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relSer = "internal/libs/serializer"

func init() {
	register(&Property{ID: "R01", Level: "proof", MinObl: 16, Run: runR01,
		Explain: "All paths of the registry (which constructor is called for which name, what each refusal wraps) and of the serializers: what is handed to the JSON library, what becomes of its result and its error, and that the disabled serializer never yields data."})
	register(&Property{ID: "R02", Level: "proof", MinObl: 30, Run: runR02,
		Explain: "Every option constructor is evaluated on an arbitrary options value: exactly one store, to the field it is named after, of its argument. Every path of the store constructors: defaults stored before the first option, each option applied once and in order to the value the client is made from, nothing stored afterwards, no store returned unless every address is known not to be blank."})
	register(&Property{ID: "R03", Level: "proof", MinObl: 20, Run: runR03,
		Explain: "Effect analysis of the whole module: every sentinel error is created once, from its own call of an error constructor that yields a new identity, with a message no other sentinel has, and is never assigned anywhere else."})
}

func runR01(c *Ctx) {
	c.registryRules(registrySpec{
		rel: relSer, typ: "Registry", table: "serializers", create: "New", top: "New",
		ctor: "NewSerializerRegistry", empty: "NewEmptySerializerRegistry", register: "Register",
		unknown: "internal/sentinel.ErrSerializerNotFound", blank: "internal/sentinel.ErrParamCannotBeEmpty",
		defaults: map[string]string{"default": "*" + relSer + ".DefaultJSONSerializer", "msgpack": "*" + relSer + ".MsgpackSerializer"},
	})
	jsonCall := func(n, op string) bool {
		return strings.HasSuffix(n, "json."+op) && !strings.Contains(n, "(")
	}
	if f := c.NeedM(relSer, "DefaultJSONSerializer", "Marshal"); f != nil {
		x := newEngine(c.P, f)
		c.Oblige("json Marshal: encodes exactly the value")
		c.Oblige("json Marshal: the encoding or the error, never both")
		var ps []*Term
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, f2 string, a ...any) { c.Fail("json Marshal: "+k, e.Pos(), p.Trace(), f2, a...) }
			switch e.Kind {
			case "precall":
				if jsonCall(e.Name, "Marshal") {
					if p.Has("enc") || !isValueOf(x, p, e.Args[0], ps[1]) {
						fail("encodes exactly the value", "%s is encoded", short(e.Args[0]))
					}
					p.Set("enc")
				}
			case "call":
				if jsonCall(e.Name, "Marshal") {
					p.Vars["data"], p.Vars["err"] = e.Res.args[0], e.Res.args[1]
				}
			case "return":
				d, er := e.Args[0], e.Args[1]
				data, err := p.Vars["data"], p.Vars["err"]
				if data == nil {
					fail("encodes exactly the value", "returns without encoding")
					return
				}
				switch {
				case p.KnownNil(err):
					if d.key != data.key || !er.isNil() {
						fail("the encoding or the error, never both", "(%s, %s) after success", short(d), short(er))
					}
				case p.KnownNonNil(err):
					if !d.isNil() || !carries(er, err) {
						fail("the encoding or the error, never both", "(%s, %s) after a failure", short(d), short(er))
					}
				default:
					if d.key != data.key || er.key != err.key {
						fail("the encoding or the error, never both", "(%s, %s) whether or not it failed", short(d), short(er))
					}
				}
			}
		}
		c.Explore(x, func(p *Path, q []*Term) { ps = q })
	}
	if f := c.NeedM(relSer, "DefaultJSONSerializer", "Unmarshal"); f != nil {
		x := newEngine(c.P, f)
		c.Oblige("json Unmarshal: decodes exactly the data into the value")
		c.Oblige("json Unmarshal: every failure is reported")
		var ps []*Term
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(k, f2 string, a ...any) { c.Fail("json Unmarshal: "+k, e.Pos(), p.Trace(), f2, a...) }
			switch e.Kind {
			case "precall":
				if jsonCall(e.Name, "Unmarshal") {
					if p.Has("dec") || e.Args[0].key != ps[1].key || !isValueOf(x, p, e.Args[1], ps[2]) {
						fail("decodes exactly the data into the value", "%s is decoded into %s", short(e.Args[0]), short(e.Args[1]))
					}
					p.Set("dec")
				}
			case "call":
				if jsonCall(e.Name, "Unmarshal") {
					p.Vars["err"] = e.Res
				}
			case "return":
				er, err := e.Args[0], p.Vars["err"]
				if err == nil {
					fail("decodes exactly the data into the value", "returns without decoding")
					return
				}
				ok := false
				switch {
				case p.KnownNil(err):
					ok = er.isNil() || er.key == err.key
				case p.KnownNonNil(err):
					ok = carries(er, err)
				default:
					ok = er.key == err.key
				}
				if !ok {
					fail("every failure is reported", "%s is returned", short(er))
				}
			}
		}
		c.Explore(x, func(p *Path, q []*Term) { ps = q })
	}
	for _, m := range []string{"Marshal", "Unmarshal"} {
		f := c.NeedM(relSer, "MsgpackSerializer", m)
		if f == nil {
			continue
		}
		k := "msgpack " + m + ": always refuses, without data"
		c.Oblige(k)
		x := newEngine(c.P, f)
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "return":
				er := e.Args[len(e.Args)-1]
				if !nonNilTerm(er) && !nonNilTerm(er.unbox()) && !p.KnownNonNil(er) || len(e.Args) == 2 && !e.Args[0].isNil() {
					c.Fail(k, e.Pos(), p.Trace(), "(%s) is returned", termList(e.Args))
				}
			case "store":
				if r := e.Addr.addrRoot(); r.op == "param" {
					c.Fail(k, e.Pos(), p.Trace(), "%s is changed", short(e.Addr))
				}
			}
		}
		c.Explore(x, nil)
	}
}

// isValueOf: a is v, or the address of a variable holding v.
func isValueOf(x *Engine, p *Path, a, v *Term) bool {
	u := a.unbox()
	if u.key == v.key || a.key == v.key {
		return true
	}
	if u.op == "alloc" {
		w := x.Load(p, u, v.typ)
		return w != nil && (w.key == v.key || w.unbox().key == v.key)
	}
	return false
}

// carries: the error is err or wraps it.
func carries(er, err *Term) bool {
	return er.key == err.key || er.unbox().key == err.key || wrapsPred(er, func(t *Term) bool { return t.key == err.key || t.unbox().key == err.key })
}

func runR02(c *Ctx) {
	common := map[string]string{
		"MaxRetries": "RedisClientMaxRetries", "DialTimeout": "RedisDialTimeout", "ReadTimeout": "RedisClientReadTimeout",
		"WriteTimeout": "RedisClientWriteTimeout", "PoolSize": "RedisClientPoolSize", "MinIdleConns": "RedisClientMinIdleConns", "PoolTimeout": "RedisClientPoolTimeout",
	}
	c.redisStore("pkg/backend/redis", "Options", "NewClient", "Addr", common,
		[]string{"Addr", "Username", "Password", "DB", "MaxRetries", "DialTimeout", "ReadTimeout", "WriteTimeout", "PoolFIFO", "PoolSize", "PoolTimeout", "TLSConfig", "MinIdleConns"})
	c.redisStore("pkg/backend/rediscluster", "ClusterOptions", "NewClusterClient", "Addrs", common,
		[]string{"Addrs", "Username", "Password", "MaxRetries", "ReadTimeout", "WriteTimeout", "TLSConfig", "PoolSize", "MinIdleConns", "PoolTimeout"})
}

func (c *Ctx) redisStore(rel, optType, newClient, addrField string, defaults map[string]string, opts []string) {
	newF := c.NeedF(rel, "New")
	apply := c.NeedF(rel, "ApplyOptions")
	if newF == nil || apply == nil {
		return
	}
	full := "github.com/redis/go-redis/v9." + optType
	optT := apply.Params[0].Type()
	if typeStr(derefT(optT)) != full {
		c.Fail("anchor "+rel+".ApplyOptions", apply.Pos(), "", "ApplyOptions takes %s", typeStr(optT))
		return
	}
	// every option writes the one field it is named after
	for _, n := range opts {
		c.NeedF(rel, "With"+n)
	}
	for _, f := range c.exportedRoots(rel) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || typeStr(f.Signature.Results().At(0).Type()) != rel+".Option" {
			continue
		}
		field := strings.TrimPrefix(f.Name(), "With")
		k := rel + "." + f.Name() + ": sets exactly " + field
		c.Oblige(k)
		x := newEngine(c.P, f)
		opt := mk(&Term{op: "param", name: "opt", typ: optT})
		n := 0
		for _, o := range c.Explore(x, nil) {
			q := o.Path.fork()
			q.Assume(mkEq(opt, tNil), false)
			outs := evalEvents(x, q, o.Res[0], []*Term{opt}, func(p *Path, e *Event) {
				noteCopies(p, e)
				if e.Kind != "store" {
					return
				}
				if r := e.Addr.addrRoot(); r.key != opt.key {
					if r.op == "param" || r.op == "global" {
						c.Fail(k, e.Pos(), p.Trace(), "writes %s", short(e.Addr))
					}
					return
				}
				prm := rootParam(f, 0)
				v := e.Val.unbox()
				same := v.key == prm.key || addrField == field && copyOfSlice(p, v, prm)
				if e.Addr.op != "field" || e.Addr.name != optType+"."+field || !same {
					c.Fail(k, e.Pos(), p.Trace(), "%s = %s", short(e.Addr), short(e.Val))
				}
				p.Set("set")
			})
			for _, r := range outs {
				n++
				if !r.Path.Has("set") {
					c.Fail(k, f.Pos(), r.Path.Trace(), "the field is not set")
				}
			}
		}
		if n == 0 {
			c.Fail(k, f.Pos(), "", "does not return an option that can be followed")
		}
	}
	// options are applied in order, each once
	for _, f := range []*ssa.Function{apply, newF} {
		k := rel + "." + f.Name() + ": each option once and in order"
		c.Oblige(k)
		x := newEngine(c.P, f)
		list := rootParam(f, len(f.Params)-1)
		tr := &turns{tag: "o", over: func(p *Path, s *Term) bool { return s.key == list.key }, end: func(p *Path, e *Event) {
			if !p.Has("o/applied") {
				c.Fail(k, e.Pos(), p.Trace(), "an option is not applied")
			}
		}}
		isOpt := func(t *Term) bool { return typeStr(derefT(t.typ)) == full && t.typ != nil }
		fieldKey := rel + "." + f.Name()
		if f == newF {
			for _, s := range []string{": defaults before options", ": nothing changed after the options", ": blank addresses refused", ": client made from the options"} {
				c.Oblige(fieldKey + s)
			}
		}
		addrs := &turns{tag: "a", over: func(p *Path, s *Term) bool { return p.Vars["addrs"] != nil && s.key == p.Vars["addrs"].key }, end: func(p *Path, e *Event) {
			if !p.Has("a/ok") {
				c.Fail(fieldKey+": blank addresses refused", e.Pos(), p.Trace(), "an address is passed over unchecked")
			}
		}}
		x.OnEvent = func(p *Path, e *Event) {
			fail := func(s, f2 string, a ...any) { c.Fail(fieldKey+s, e.Pos(), p.Trace(), f2, a...) }
			tr.step(p, e)
			if e.Kind == "branch" {
				if p.Has("o.all") {
					p.Set("o.was")
				}
				for i, a := range e.Val.args {
					// an option that is not there has nothing to apply
					if iv := p.Vars["o"]; iv != nil && isCmp(e.Val, "==") && e.Truth && e.Val.args[1-i].isNil() && a.op == "load" && a.args[0].op == "idx" && a.args[0].args[0].key == list.key && a.args[0].args[1].key == iv.key {
						p.Set("o/applied")
					}
				}
			}
			if f == newF && e.Kind == "branch" && isCmp(e.Val, "<") && e.Val.args[1].op == "len" {
				if s := e.Val.args[1].args[0]; fieldOfOpt(s, optType, addrField) {
					p.Vars["addrs"] = s
				}
			}
			addrs.step(p, e)
			switch e.Kind {
			case "branch":
				if t, ok := isEmptyTest(e.Val); ok && t.op == "pcall" && t.name == "strings.TrimSpace" {
					a := t.args[0]
					if fieldOfOpt(a, optType, addrField) {
						p.Clear("blank")
						p.Clear("notblank")
						if e.Truth {
							p.Set("blank")
						} else {
							p.Set("notblank")
						}
					}
					if iv := p.Vars["a"]; iv != nil && a.op == "load" && a.args[0].op == "idx" && a.args[0].args[0].key == p.Vars["addrs"].key && a.args[0].args[1].key == iv.key {
						if e.Truth {
							p.Set("blank")
						} else {
							p.Set("a/ok")
						}
					}
				}
				if v := e.Val; isCmp(v, "==") || isCmp(v, "<") {
					for _, a := range v.args {
						if a.op == "len" && fieldOfOpt(a.args[0], optType, addrField) && p.IsTrue(eq(a, tInt(0))) && !p.Has("a.ran") {
							p.Set("blank")
						}
					}
				}
			case "store":
				if f == newF && p.Has("o.all") && isOpt(mk(&Term{op: "x", typ: rootTypeOf(e.Addr)})) {
					fail(": nothing changed after the options", "%s = %s", short(e.Addr), short(e.Val))
				}
			case "precall":
				if strings.HasPrefix(e.Name, "dyn:") && p.Has("o") && len(e.Args) == 1 && strings.Contains(e.Name, list.key) {
					if p.Has("o/applied") || p.Has("o.was") {
						c.Fail(k, e.Pos(), p.Trace(), "an option is applied twice")
					}
					iv := p.Vars["o"]
					if e.Name != "dyn:*(idx("+list.key+", "+iv.key+"))" {
						c.Fail(k, e.Pos(), p.Trace(), "another option is applied: %s", e.Name)
					}
					if f == apply && e.Args[0].key != "param:p0" {
						c.Fail(k, e.Pos(), p.Trace(), "applied to %s", short(e.Args[0]))
					}
					p.Set("o/applied")
					if o := p.Vars["opt"]; o != nil && o.key != e.Args[0].key {
						c.Fail(k, e.Pos(), p.Trace(), "applied to %s, not the same options", short(e.Args[0]))
					}
					if f == newF && !p.Has("any") {
						c.redisDefaults(x, p, e.Args[0], defaults, func(f2 string, a ...any) { fail(": defaults before options", f2, a...) })
					}
					p.Set("any")
					p.Vars["opt"] = e.Args[0]
				}
				if f == newF && strings.HasSuffix(e.Name, "go-redis/v9."+newClient) {
					o := e.Args[0]
					if p.Vars["opt"] != nil && o.key != p.Vars["opt"].key || o.op != "alloc" {
						fail(": client made from the options", "made from %s", short(o))
					}
					if !p.Has("o.all") {
						fail(": client made from the options", "made before all options are applied")
					}
					if p.Vars["opt"] == nil {
						c.redisDefaults(x, p, o, defaults, func(f2 string, a ...any) { fail(": defaults before options", f2, a...) })
					}
					p.Set("made")
				}
			case "call":
				if f == newF && strings.HasSuffix(e.Name, "go-redis/v9."+newClient) {
					p.Vars["client"] = e.Res
				}
			case "return":
				if !p.Has("o.all") {
					c.Fail(k, e.Pos(), p.Trace(), "returns before all options are applied")
				}
				if f != newF {
					return
				}
				s, er := e.Args[0], e.Args[1]
				if s.isNil() {
					if !nonNilTerm(er) && !nonNilTerm(er.unbox()) {
						fail(": blank addresses refused", "no store and no error")
					}
					if !p.Has("blank") && p.Has("any") {
						fail(": blank addresses refused", "refused although no address is known to be blank")
					}
					return
				}
				if !er.isNil() {
					fail(": client made from the options", "(%s, %s)", short(s), short(er))
				}
				cl := x.fieldByName(p, s.unbox(), "Client")
				if cl == nil || p.Vars["client"] == nil || cl.key != p.Vars["client"].key {
					fail(": client made from the options", "the store holds %s", short(cl))
				}
				if p.Has("blank") {
					fail(": blank addresses refused", "accepted with a blank address")
				}
				ok := p.Has("notblank")
				if addrField == "Addrs" {
					ok = p.Has("a.all") && p.Vars["addrs"] != nil
					if ok {
						ln := mk(&Term{op: "len", args: []*Term{p.Vars["addrs"]}, typ: types.Typ[types.Int]})
						ok = p.IsFalse(eq(ln, tInt(0)))
					}
				}
				if !ok {
					fail(": blank addresses refused", "accepted with an address that may be blank")
				}
			}
		}
		c.Explore(x, nil)
	}
}

// rootTypeOf: the type of the object an address lies in.
func rootTypeOf(a *Term) types.Type {
	r := a.addrRoot()
	return r.typ
}

// fieldOfOpt: t is the current value of options field f.
func fieldOfOpt(t *Term, typ, f string) bool {
	return t.op == "fld" && t.name == typ+"."+f || t.isLoadOf(typ+"."+f)
}

func (c *Ctx) redisDefaults(x *Engine, p *Path, opt *Term, want map[string]string, fail func(f string, a ...any)) {
	st := structOf(derefT(opt.typ))
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		v := x.fieldByName(p, opt, n)
		if w := want[n]; w != "" {
			k, ok := c.intConstOf("internal/constants", w)
			g, isc := int64(0), false
			if v != nil {
				g, isc = v.intConst()
			}
			if !ok || !isc || g != k {
				fail("%s is %s before the options, not constants.%s", n, short(v), w)
			}
			continue
		}
		if v == nil || !isZeroVal(v) {
			fail("%s is preset to %s", n, short(v))
		}
	}
}

func isZeroVal(v *Term) bool {
	if v.op == "zero" || v.isNil() {
		return true
	}
	if n, ok := v.intConst(); ok {
		return n == 0
	}
	if s, ok := v.strConst(); ok {
		return s == ""
	}
	return v.key == tFalse.key
}

func runR03(c *Ctx) {
	pkg := c.P.pkg("internal/sentinel")
	if pkg == nil {
		c.failAt("anchor internal/sentinel", "?", "", "package not loaded")
		return
	}
	var globals []*ssa.Global
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "Err") {
			globals = append(globals, g)
			c.Oblige("sentinel " + g.Name() + ": one identity of its own")
			c.Oblige("sentinel " + g.Name() + ": never reassigned")
		}
	}
	set := map[*ssa.Global]*Term{}
	init := pkg.Func("init")
	if init == nil {
		c.failAt("anchor internal/sentinel.init", "?", "", "package is not initialised")
		return
	}
	x := newEngine(c.P, init)
	x.OnEvent = func(p *Path, e *Event) {
		if e.Kind != "store" || e.Addr.op != "global" {
			return
		}
		for _, g := range globals {
			if e.Addr.name != "internal/sentinel."+g.Name() {
				continue
			}
			k := "sentinel " + g.Name() + ": one identity of its own"
			if set[g] != nil {
				c.Fail(k, e.Pos(), p.Trace(), "initialised twice")
			}
			v := e.Val.unbox()
			set[g] = v
			if !v.isCall("github.com/hyp3rd/ewrap.New") && !v.isCall("errors.New") && !v.isCall("github.com/hyp3rd/ewrap.Newf") {
				c.Fail(k, e.Pos(), p.Trace(), "is %s, not an error of its own", short(v))
			} else if _, ok := v.callArgs()[0].strConst(); !ok {
				c.Fail(k, e.Pos(), p.Trace(), "has the message %s", short(v.callArgs()[0]))
			}
		}
	}
	c.Explore(x, nil)
	msgs := map[string]string{}
	for _, g := range globals {
		v := set[g]
		k := "sentinel " + g.Name() + ": one identity of its own"
		if v == nil {
			c.Fail(k, g.Pos(), "", "is never initialised")
			continue
		}
		if len(v.callArgs()) == 0 {
			continue
		}
		m := v.callArgs()[0].key
		if o := msgs[m]; o != "" {
			c.Fail(k, g.Pos(), "", "has the same message as %s", o)
		}
		msgs[m] = g.Name()
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != pkg || !strings.HasPrefix(g.Name(), "Err") {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if f == init {
						continue
					}
					c.Fail("sentinel "+g.Name()+": never reassigned", in.Pos(), "", "%s writes it or takes its address", calleeName(f))
				}
			}
		}
	}
}
