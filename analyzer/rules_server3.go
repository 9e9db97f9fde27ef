package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "Z05", Level: "proof", MinObl: 8, Run: runZ05,
		Explain: "All paths of the binary's main body: the policy the ports are built with is the loaded one with the OIDC verifier attached, anonymous access is switched on only on paths where every credential class of that very policy is known to be empty, every failed step ends the start with a nonzero code before the next one, and on shutdown the drain, the API's shutdown and the cache's stop happen once each, in that order.",
		Assume:  []string{"a verifier built without an error is not nil; os/signal delivers signals as documented; how a policy decides is checked under A01 to A05"}})
}

func runZ05(c *Ctx) {
	c.serverMain()
	c.serverEnd()
}

func (c *Ctx) serverMain() {
	f := c.NeedF(relServer, "run")
	if f == nil {
		return
	}
	const (
		kp = "start: the policy in force is the loaded one with the OIDC verifier attached"
		ko = "start: anonymous access is switched on only without any credential class"
		kn = "start: without any credential class the server is open, as documented"
		ke = "start: a failed step ends the start"
		ks = "start: both ports stand before the server waits for its end"
	)
	for _, k := range []string{kp, ko, kn, ke, ks} {
		c.Oblige(k)
	}
	sv := relServer + "."
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool {
		switch calleeName(g) {
		case sv + "loadConfig", sv + "buildOIDCVerifier", sv + "buildHyperCache", sv + "runClientAPI", sv + "awaitShutdown":
			return true
		}
		return strings.HasPrefix(calleeName(g), hcM)
	}
	bad := func(k string, p *Path, pos token.Pos, m string, a ...any) { c.Fail(k, pos, p.Trace(), m, a...) }
	ports := 0
	// the policy with which a port is opened
	policy := func(p *Path, pos token.Pos, cfg *Term) {
		l := p.Vars["cfg"]
		if l == nil || !p.KnownNil(resAt(l, 1)) {
			bad(ke, p, pos, "a port is opened although the configuration may not have loaded")
			return
		}
		ver := p.Vars["ver"]
		if ver != nil && !p.KnownNil(resAt(ver, 1)) {
			bad(ke, p, pos, "a port is opened although the OIDC verifier may not have been built")
			return
		}
		if ver != nil && p.KnownNil(resAt(ver, 0)) {
			return // not with a verifier that was built
		}
		ports++
		was, pol := valField(x, resAt(l, 0), "AuthPolicy"), valField(x, cfg, "AuthPolicy")
		issuer := p.Decide(eq(valField(x, resAt(l, 0), "OIDCIssuer"), tStr("")))
		none := true
		some := false
		for _, n := range []string{"Tokens", "BasicIdentities", "CertIdentities"} {
			a, b := valField(x, was, n), valField(x, pol, n)
			if a == nil || b == nil || a.key != b.key {
				bad(kp, p, pos, "the %s in force are %v", n, b)
				return
			}
			d := p.Decide(eq(lenOf(b), tInt(0)))
			none = none && (d == yes || p.KnownNil(b))
			some = some || d == no
		}
		v := orNil(valField(x, pol, "ServerVerify"))
		switch {
		case issuer == yes && v.key != orNil(valField(x, was, "ServerVerify")).key, issuer == unknown:
			bad(kp, p, pos, "without an OIDC issuer the verifier in force is %v", v)
		case issuer == no && (ver == nil || v.key != resAt(ver, 0).key):
			bad(kp, p, pos, "with an OIDC issuer the verifier in force is %v", v)
		}
		if issuer == no {
			none, some = false, true
		} else {
			none = none && p.KnownNil(v)
			some = some || p.KnownNonNil(v)
		}
		anon := orNil(valField(x, pol, "AllowAnonymous"))
		loaded := anon.key == orNil(valField(x, was, "AllowAnonymous")).key
		switch {
		case !loaded && !p.IsTrue(anon):
			bad(kp, p, pos, "anonymous access in force is %v", anon)
		case !loaded && !none:
			bad(ko, p, pos, "anonymous access is switched on although credentials may be configured")
		case loaded && !some && !p.IsTrue(anon):
			bad(kn, p, pos, "without any credential class the server refuses everything")
		}
	}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "call":
			switch e.Name {
			case sv + "loadConfig":
				setVar(p, "cfg", e.Res)
			case sv + "buildOIDCVerifier":
				setVar(p, "ver", e.Res)
			case sv + "buildHyperCache":
				policy(p, e.Pos(), e.Args[1])
				setVar(p, "hc", e.Res)
				setVar(p, "hcfg", e.Args[1])
			case sv + "runClientAPI":
				policy(p, e.Pos(), e.Args[0])
				h := p.Vars["hc"]
				if h == nil || !p.KnownNil(resAt(h, 1)) || e.Args[1].key != resAt(h, 0).key {
					bad(ke, p, e.Pos(), "the client API serves %v", e.Args[1])
				}
				setVar(p, "api", e.Res)
			case sv + "awaitShutdown":
				h, a := p.Vars["hc"], p.Vars["api"]
				if h == nil || a == nil || !p.KnownNil(resAt(a, 1)) || e.Args[1].key != resAt(h, 0).key || e.Args[2].key != resAt(a, 0).key {
					bad(ks, p, e.Pos(), "the server waits for the end of %v and %v", e.Args[1], e.Args[2])
				}
				p.Set("waited")
			case hcM + "Stop":
				if h := p.Vars["hc"]; h != nil && e.Args[0].key == resAt(h, 0).key {
					p.Set("stopped")
				}
			}
		case "return":
			if !p.Has("waited") {
				if z := p.Decide(eq(e.Args[0], tInt(0))); z != no {
					bad(ke, p, e.Pos(), "a start that failed is reported as a clean end")
				}
				if h := p.Vars["hc"]; h != nil && !p.KnownNonNil(resAt(h, 1)) && !p.Has("stopped") {
					bad(ke, p, e.Pos(), "the cache is left running when the client API fails")
				}
			}
		}
	}
	c.Explore(x, nil)
	c.Check("start: ports followed", ports > 3, f.Pos(), "only %d ways to open a port were seen", ports)
}

func (c *Ctx) serverEnd() {
	f := c.NeedF(relServer, "awaitShutdown")
	if f == nil {
		return
	}
	const k = "stop: drain, then the API's shutdown, then the cache's stop, once each"
	const kw = "stop: nothing ends before a signal"
	c.Oblige(k)
	c.Oblige(kw)
	x := newEngine(c.P, f)
	x.NoInline = func(g *ssa.Function) bool { return strings.HasPrefix(calleeName(g), hcM) }
	hc, api := rootParam(f, 1), rootParam(f, 2)
	steps := map[string]int{hcM + "DistDrain": 1, fiberApp + "ShutdownWithContext": 2, hcM + "Stop": 3}
	tags := []string{"", "drained", "closed", "stopped"}
	x.OnEvent = func(p *Path, e *Event) {
		switch e.Kind {
		case "recv":
			p.Set("signal")
		case "call":
			i := steps[e.Name]
			if i == 0 {
				return
			}
			if !p.Has("signal") {
				c.Fail(kw, e.Pos(), p.Trace(), "%s happens without a signal", e.Name)
			}
			who := hc
			if i == 2 {
				who = api
			}
			if e.Args[0].key != who.key || p.Has(tags[i]) || i > 1 && !p.Has(tags[i-1]) {
				c.Fail(k, e.Pos(), p.Trace(), "%s of %v comes out of turn", e.Name, e.Args[0])
			}
			p.Set(tags[i])
		case "return":
			for _, t := range tags[1:] {
				if !p.Has(t) {
					c.Fail(k, e.Pos(), p.Trace(), "the server ends without being %s", t)
				}
			}
		}
	}
	c.Explore(x, nil)
}
