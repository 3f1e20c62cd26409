// Command analyzer decides the properties of /verif/properties.jsonl from the source of
// /repo: an abstract interpreter (package ai) over the type-checked SSA form, with one
// specification per property (spec_*.go).
package main

import (
	"embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/ai"
)

//go:embed drivers
var drivers embed.FS

// driverOverlay adds client functions (never compiled into the repository) to the analysed packages.
func driverOverlay(repo string) map[string][]byte {
	out := map[string][]byte{}
	ds, _ := drivers.ReadDir("drivers")
	abs, _ := filepath.Abs(repo)
	for _, d := range ds {
		b, err := drivers.ReadFile("drivers/" + d.Name() + "/driver.go.txt")
		if err == nil {
			if st, err := os.Stat(filepath.Join(abs, d.Name())); err == nil && st.IsDir() {
				out[filepath.Join(abs, d.Name(), "zz_verif_driver.go")] = b
			}
		}
	}
	return out
}

// Spec decides one property.
type Spec struct {
	ID   string
	Rule string
	Run  func(c *Ctx)
}

var specs = map[string]*Spec{}

func register(id, rule string, run func(c *Ctx)) { specs[id] = &Spec{id, rule, run} }

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func main() {
	prop := flag.String("property", "", "property id, comma list, or all")
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	only := flag.String("only", "", "run only scenarios whose name contains this (debugging)")
	debug := flag.Bool("debug", false, "dump violating states")
	known := flag.String("known", "/verif/known_findings.json", "known findings")
	flag.Parse()
	var ids []string
	if *prop == "all" {
		for id := range specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	e, err := ai.Load(*repo, driverOverlay(*repo))
	code := 0
	for _, id := range ids {
		if !runOne(id, e, err, *repo, *out, *only, *known, *debug) {
			code = 1
		}
	}
	os.Exit(code)
}

func runOne(id string, e *ai.Engine, loadErr error, repo, out, only, known string, debug bool) bool {
	start := time.Now()
	c := &Ctx{E: e, Prop: id, Only: only, Debug: debug, touched: map[string]string{}, seen: map[string]bool{}}
	sp := specs[id]
	switch {
	case sp == nil:
		c.addViolation(Violation{Clause: "no specification for property " + id, Kind: "internal"})
	case loadErr != nil:
		c.addViolation(Violation{Clause: "the repository does not type-check: " + loadErr.Error(), Kind: "unresolved"})
	default:
		func() {
			defer func() {
				if x := recover(); x != nil {
					if debug {
						panic(x)
					}
					c.addViolation(Violation{Clause: fmt.Sprintf("analysis failed in %s: %v", c.cur, x), Kind: "undecided"})
				}
			}()
			sp.Run(c)
		}()
		if c.Obligations == 0 && len(c.Viol) == 0 {
			c.addViolation(Violation{Clause: "nothing was analysed", Kind: "vacuous"})
		}
	}
	// known findings
	var kf struct {
		Findings []knownFinding `json:"findings"`
	}
	if b, err := os.ReadFile(known); err == nil {
		_ = json.Unmarshal(b, &kf)
	}
	var viol []Violation
	for _, v := range c.Viol {
		hit := false
		for _, k := range kf.Findings {
			if k.Property == id && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				hit = true
			}
		}
		if !hit {
			viol = append(viol, v)
		}
	}
	os.MkdirAll(out, 0o755)
	replay := filepath.Join(out, id+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: ", id)
	if sp != nil {
		sb.WriteString(sp.Rule)
	}
	sb.WriteString("\n\n")
	for i, v := range viol {
		fmt.Fprintf(&sb, "violation %d [%s]\n  key: %s\n  function: %s\n  at: %s\n  case: %s\n  broken: %s\n", i+1, v.Kind, v.Key, v.Fn, v.Pos, v.Case, v.Clause)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    path: %s\n", t)
		}
		if debug {
			sb.WriteString(v.Dump)
		}
	}
	for _, k := range sortedNames(c.touched) {
		fmt.Fprintf(&sb, "analysed: %s (%s)\n", k, c.touched[k])
	}
	for _, s := range c.cases {
		fmt.Fprintf(&sb, "scenario: %s\n", s)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	rule := ""
	if sp != nil {
		rule = sp.Rule
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(start).Seconds(),
		"coverage": map[string]interface{}{
			"kind":               "static analysis (abstract interpretation of the SSA form, all paths to a fixpoint)",
			"rule":               rule,
			"functions_analysed": sortedNames(c.touched),
			"functions":          len(c.touched),
			"scenarios":          len(c.cases),
			"obligations":        c.Obligations,
			"abstract_paths":     c.Paths,
			"instructions":       c.Steps,
			"loop_head_joins":    c.Loops,
			"violations":         len(viol),
			"scenario_names":     c.cases,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, id+".json"), b, 0o644)
	fmt.Printf("%s: %d functions, %d scenarios, %d obligations, %d abstract paths, %d violations (%.1fs)\n", id, len(c.touched), len(c.cases), c.Obligations, c.Paths, len(viol), time.Since(start).Seconds())
	if len(viol) > 0 {
		for i, v := range viol {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(viol)-i)
				break
			}
			fmt.Printf("  [%s] %s at %s: case %s: %s\n", v.Kind, v.Fn, v.Pos, v.Case, v.Clause)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return false
	}
	return true
}

func sortedNames(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
