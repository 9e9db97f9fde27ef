package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct that breaks a rule.
type Violation struct {
	Key   string `json:"key"` // rule + construct, stable across line moves
	Where string `json:"where"`
	Msg   string `json:"msg"`
	Trace string `json:"trace,omitempty"`
}

// Ctx collects what one property's rules analysed and found.
type Ctx struct {
	P       *Prog
	Prop    string
	Tier    string
	Viol    []Violation
	seen    map[string]bool
	Obl     map[string]bool // obligation -> discharged
	OblList []string
	Fns     map[string]bool
	Paths   int
	Events  int
	Steps   int
	Roots   map[string]bool
}

func newCtx(P *Prog, prop, tier string) *Ctx {
	return &Ctx{P: P, Prop: prop, Tier: tier, seen: map[string]bool{}, Obl: map[string]bool{}, Fns: map[string]bool{}, Roots: map[string]bool{}}
}

// Fail records a violation (once per key).
func (c *Ctx) Fail(key string, pos token.Pos, trace string, format string, a ...any) {
	c.failAt(key, c.P.pos(pos), trace, fmt.Sprintf(format, a...))
}

func (c *Ctx) failAt(key, where, trace, msg string) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.Viol = append(c.Viol, Violation{Key: key, Where: where, Msg: msg, Trace: trace})
}

// Oblige registers an obligation; it counts as discharged unless a violation
// with the same key prefix is recorded.
func (c *Ctx) Oblige(key string) {
	if _, ok := c.Obl[key]; !ok {
		c.Obl[key] = true
		c.OblList = append(c.OblList, key)
	}
}

// Check is an obligation decided on the spot.
func (c *Ctx) Check(key string, ok bool, pos token.Pos, format string, a ...any) bool {
	c.Oblige(key)
	if !ok {
		c.Fail(key, pos, "", format, a...)
	}
	return ok
}

// Need resolves an anchor function or fails.
func (c *Ctx) Need(f *ssa.Function, what string) *ssa.Function {
	c.Oblige("anchor " + what)
	if f == nil || len(f.Blocks) == 0 {
		c.failAt("anchor "+what, "?", "", "anchor "+what+" is not in the analysed program")
		return nil
	}
	return f
}

func (c *Ctx) NeedM(rel, typ, name string) *ssa.Function {
	return c.Need(c.P.method(rel, typ, name), rel+".("+typ+")."+name)
}

func (c *Ctx) NeedF(rel, name string) *ssa.Function {
	return c.Need(c.P.fn(rel, name), rel+"."+name)
}

// Explore runs the dataflow on root and accounts for what was covered.
func (c *Ctx) Explore(x *Engine, init func(p *Path, params []*Term)) []Outcome {
	var outs []Outcome
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.failAt("analysis "+x.Root.String(), c.P.pos(x.Root.Pos()), "", fmt.Sprintf("analysis of %s did not finish: %v", x.Root, r))
				if os.Getenv("HCV_DEBUG") != "" {
					panic(r)
				}
			}
		}()
		outs = x.RunWith(init)
	}()
	c.account(x)
	return outs
}

func (c *Ctx) account(x *Engine) {
	c.Roots[x.Root.String()] = true
	for f := range x.Fns {
		c.Fns[f.String()] = true
	}
	c.Paths += x.Paths
	c.Events += x.Events
	c.Steps += x.steps
	for _, u := range x.Undec {
		c.failAt("undecided "+x.Root.String(), c.P.pos(x.Root.Pos()), "", "undecided: "+u)
	}
}

// absorb takes over what a sub-analysis covered, not what it found.
func (c *Ctx) absorb(s *Ctx) {
	for _, k := range s.OblList {
		c.Oblige(k)
	}
	for k := range s.Fns {
		c.Fns[k] = true
	}
	for k := range s.Roots {
		c.Roots[k] = true
	}
	c.Paths += s.Paths
	c.Events += s.Events
	c.Steps += s.Steps
}

// Property is one registered check.
type Property struct {
	ID      string
	Level   string
	Explain string
	Assume  []string
	Run     func(c *Ctx)
	MinObl  int
}

var registry = map[string]*Property{}

func register(p *Property) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown() ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	return k.Findings, nil
}

var baseAssumptions = []string{
	"calls that leave the module (standard library, fiber, redis, oauth2, yaml) behave as documented; their bodies are not analysed",
	"github.com/hyp3rd/sectools is replaced by a signature-compatible stand-in for type-checking",
	"no two differently named base pointers of one type alias inside a single analysed path, unless the path compares them",
	"no unsafe/reflect writes to the analysed state (none occur in the analysed functions)",
}

func runProperty(P *Prog, loadErr error, id, tier string, seed int, start time.Time) int {
	pr := registry[id]
	if pr == nil {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	c := newCtx(P, id, tier)
	if loadErr != nil {
		c.failAt("load", "?", "", "the current tree cannot be loaded and type-checked: "+loadErr.Error())
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("HCV_DEBUG") != "" {
						panic(r)
					}
					c.failAt("panic", "?", "", fmt.Sprintf("the analysis panicked: %v", r))
				}
			}()
			pr.Run(c)
		}()
		if len(c.OblList) < pr.MinObl {
			c.failAt("vacuity", "?", "", fmt.Sprintf("only %d obligations were found, at least %d were confirmed by hand on the reference tree", len(c.OblList), pr.MinObl))
		}
	}
	known, kerr := loadKnown()
	if kerr != nil {
		c.failAt("known_findings.json", "known_findings.json", "", kerr.Error())
	}
	var fresh []Violation
	var knownHit []string
	for _, v := range c.Viol {
		hit := false
		for _, k := range known {
			if k.Status == "known" && k.Property == id && k.Key == v.Key {
				hit = true
				knownHit = append(knownHit, fmt.Sprintf("%s [%s] %s", v.Key, v.Where, k.What))
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	failed := map[string]bool{}
	for _, v := range c.Viol {
		failed[v.Key] = true
	}
	disch := 0
	for _, o := range c.OblList {
		if !failed[o] {
			disch++
		}
	}
	samples := c.OblList
	if len(samples) > 12 {
		st := len(samples) / 12
		var s []string
		for i := 0; i < len(samples) && len(s) < 12; i += st {
			s = append(s, samples[i])
		}
		samples = s
	}
	cov := map[string]any{
		"obligations": len(c.OblList), "discharged": disch,
		"functions_analysed": len(c.Fns), "entry_points": len(c.Roots), "abstract_paths": c.Paths, "events_checked": c.Events, "abstract_steps": c.Steps,
		"samples": samples,
	}
	if P != nil {
		cov["module_functions_loaded"] = len(P.Funcs)
		cov["packages_loaded"] = len(P.Pkgs)
	}
	ex := pr.Explain
	cov["explanation"] = ex
	if pr.Level == "proof" {
		cov["checker_cmd"] = "bin/check " + id
		cov["trusted_base"] = []string{"golang.org/x/tools go/packages, go/ssa", "the abstract transfer functions in /verif/analyzer", "the stated assumptions"}
	}
	if len(knownHit) > 0 {
		cov["known_findings_hit"] = knownHit
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": pr.Level, "coverage": cov,
		"assumptions": append(append([]string(nil), baseAssumptions...), pr.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(fresh),
	}
	evd := filepath.Join(verifDir(), "evidence")
	if d := os.Getenv("HCV_EVIDENCE"); d != "" {
		evd = d
	}
	os.MkdirAll(evd, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evd, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(fresh) > 0 {
		rp := filepath.Join(evd, id+".violation.txt")
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "property %s\nrule      %s\nwhere     %s\nproblem   %s\n", id, v.Key, v.Where, v.Msg)
			if v.Trace != "" {
				fmt.Fprintf(&sb, "path      %s\n", v.Trace)
			}
			sb.WriteString("\n")
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("ok %s: %d obligations discharged over %d functions, %d entry points, %d abstract paths (%.1fs)\n", id, disch, len(c.Fns), len(c.Roots), c.Paths, time.Since(start).Seconds())
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
