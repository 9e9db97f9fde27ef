package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func repoDir() string {
	if d := os.Getenv("HCV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("HCV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "list" {
		out := map[string]any{"base": baseAssumptions}
		for id, p := range registry {
			out[id] = map[string]any{"level": p.Level, "explain": p.Explain, "assume": p.Assume, "min": p.MinObl}
		}
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
		return
	}
	t := time.Now()
	P, err := loadProgram(repoDir(), verifDir()+"/stubs/sectools")
	if len(os.Args) > 1 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed := 1
		fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = sortedKeys(registry)
		}
		rc := 0
		for _, id := range ids {
			if len(ids) > 1 {
				t = time.Now()
			}
			if r := runProperty(P, err, id, tier, seed, t); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(P, os.Args[2], len(os.Args) > 3)
		return
	}
	fmt.Println(len(P.Funcs), time.Since(t))
}

func findFn(P *Prog, name string) *ssa.Function {
	for _, f := range P.Funcs {
		if calleeName(f) == name || f.String() == name {
			return f
		}
	}
	return nil
}

func dump(P *Prog, name string, ev bool) {
	f := findFn(P, name)
	if f == nil {
		fmt.Println("no such function")
		for _, g := range P.Funcs {
			if strings.Contains(calleeName(g), name) {
				fmt.Println("  ", calleeName(g))
			}
		}
		return
	}
	x := newEngine(P, f)
	if o := os.Getenv("HCV_OPAQUE"); o != "" {
		x.NoInline = func(g *ssa.Function) bool {
			for _, s := range strings.Split(o, ",") {
				if strings.Contains(calleeName(g), s) {
					return true
				}
			}
			return false
		}
	}
	if ev {
		x.OnEvent = func(p *Path, e *Event) {
			switch e.Kind {
			case "load", "index", "slice":
				return
			}
			s := ""
			for _, a := range e.Args {
				s += short(a) + ", "
			}
			fmt.Printf("  [%s] %s %s(%s) addr=%v val=%v res=%v held=%s\n", P.pos(e.Pos()), e.Kind, e.Name, s, e.Addr, e.Val, e.Res, p.HeldAny())
		}
	}
	t := time.Now()
	outs := x.Run()
	for i, o := range outs {
		fmt.Printf("OUT %d:", i)
		for _, r := range o.Res {
			fmt.Printf(" %s;", short(r))
		}
		var fs []string
		for _, d := range o.doms {
			fs = append(fs, d.str())
		}
		for _, r := range o.rels {
			fs = append(fs, fmt.Sprint(r.t.key, "=", r.v))
		}
		sort.Strings(fs)
		fmt.Printf("\n    facts: %s\n", strings.Join(fs, "\n           "))
		if len(o.locks) > 0 {
			fmt.Printf("    locks: %v\n", o.locks)
		}
		fmt.Printf("    trace: %s\n", o.Trace())
	}
	fmt.Println("steps", x.steps, "outs", len(outs), "undec", x.Undec, "fns", len(x.Fns), time.Since(t))
}
