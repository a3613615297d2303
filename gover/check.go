// The check command: verification of one property, harness, evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ssaFn = ssa.Function

type harnessResult struct {
	ran      bool
	built    bool
	cases    int
	distinct int
	samples  []string
	failures []harnessFail
	cmd      string
	out      string
	rule     string
	dur      time.Duration
}

type harnessFail struct {
	id   string // stable identification of the failing input
	text string
}

func runCheck(repo, verif, specs string, args []string) int {
	start := time.Now()
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fl.String("tier", "quick", "quick or thorough")
	id := args[0]
	fl.Parse(args[1:])
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	to := 25 * time.Second
	budget := 8
	deadline = start.Add(400 * time.Second)
	if *tier == "thorough" {
		to, budget = 90*time.Second, 120
		deadline = start.Add(2400 * time.Second)
	}
	var rs []*FnResult
	loadErr := ""
	p, err := loadProg(repo, nil)
	if err != nil {
		loadErr = err.Error()
		fmt.Printf("%s: cannot load the code: %v\n", id, err)
	} else {
		if err := p.loadSpecs(specs); err != nil {
			fmt.Println(err)
			return 3
		}
		var cs []*Contract
		for _, k := range sortedKeys(p.contracts) {
			c := p.contracts[k]
			if contains(c.props, id) && !strings.HasPrefix(k, "iface ") && !strings.HasPrefix(k, "dyn ") {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			fmt.Println("no contracts for", id)
			return 3
		}
		rs = p.verify(cs, to, 0)
	}
	nObl, nOK := 0, 0
	var failed []*Obligation
	var structural []string
	var solve time.Duration
	backends := map[string]int{}
	kinds := map[string]int{}
	var funcs []map[string]any
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	models := map[string]bool{}
	var samples []string
	for _, r := range rs {
		d := time.Duration(0)
		ok := 0
		for _, o := range r.Obs {
			nObl++
			d += o.Dur
			kinds[o.Kind]++
			if o.ok() {
				nOK++
				ok++
				backends[o.Solver]++
				if !o.Static && len(samples) < 12 && (o.Kind == "post" || o.Kind == "inv-step") {
					samples = append(samples, o.Name+" ("+o.Solver+", "+fmt.Sprintf("%.2fs", o.Dur.Seconds())+")")
				}
			} else {
				failed = append(failed, o)
			}
		}
		solve += d
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		for _, t := range r.Notes {
			models[t] = true
		}
		if r.Status == "structural" {
			structural = append(structural, r.Key+": "+r.Msg)
		}
		fmt.Printf("%-10s %-55s %d/%d obligations, %.1fs %s\n", r.Status, r.Key, ok, len(r.Obs), (r.Gen + d).Seconds(), r.Msg)
		if r.Status == "trusted" {
			trusted[r.Key] = true
			continue
		}
		funcs = append(funcs, map[string]any{"function": r.Key, "contract": r.File, "status": r.Status, "obligations": len(r.Obs), "discharged": ok,
			"paths": r.Paths, "solver_s": round2(d.Seconds()), "callee_contracts": r.Used, "callees_inlined": r.Inlined})
	}
	// solver models give values for the search on the real code
	hints := map[string]bool{}
	for _, o := range failed {
		for _, m := range regexp.MustCompile(`-? ?\b\d{1,19}\b`).FindAllString(o.Model, 200) {
			hints[strings.ReplaceAll(m, " ", "")] = true
		}
	}
	b := budget
	if len(failed) > 0 || len(structural) > 0 || loadErr != "" {
		b = max(budget, 60)
	}
	h := runHarness(repo, verif, id, seed, b, keysOf(hints))
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	var newFails []harnessFail
	for _, f := range h.failures {
		if w, ok := known[f.id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			continue
		}
		newFails = append(newFails, f)
	}
	if h.ran {
		fmt.Printf("bounded cross-check on the real code: %d cases, %d distinct, %d failing (built: %v, %.1fs)\n", h.cases, h.distinct, len(h.failures), h.built, h.dur.Seconds())
	}
	for _, o := range failed {
		fmt.Printf("FAILED OBLIGATION %s at %s (%s by %s)\n", o.Name, o.Pos, o.Result, o.Solver)
	}
	for _, s := range structural {
		fmt.Println("OUTSIDE THE VERIFIER'S REACH (bounded check stands in):", s)
	}
	violation := ""
	replay := filepath.Join(verif, "out", id+".replay.txt")
	if len(newFails) > 0 {
		violation = fmt.Sprintf("VIOLATION property=%s replay=%s", id, replay)
	} else if len(failed) > 0 {
		violation = fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", id, replay)
	}
	if violation != "" {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		var w strings.Builder
		fmt.Fprintf(&w, "property %s\n\n", id)
		if len(newFails) > 0 {
			w.WriteString("FAILING INPUT on the real code\n")
			for _, f := range newFails {
				w.WriteString(f.text + "\n")
			}
			fmt.Fprintf(&w, "reproduce with: %s\n\n", h.cmd)
		}
		for _, o := range failed {
			fmt.Fprintf(&w, "FAILED OBLIGATION %s\n  at %s, answer of the verifier: %s (%s)\n", o.Name, o.Pos, o.Result, o.Solver)
			if len(w.String()) < 400000 {
				fmt.Fprintf(&w, "  goal: %s\n", smtString(o.Goal))
				fmt.Fprintf(&w, "  solver output:\n%s\n", clip(o.Model, 6000))
			}
		}
		os.WriteFile(replay, []byte(w.String()), 0o644)
	}
	// evidence
	tb := []string{"gover (this verifier: SSA symbolic execution, contract language, models of library functions)", "golang.org/x/tools/go/ssa v0.52.0", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "the Go 1.27 compiler and runtime"}
	for _, t := range keysOf(trusted) {
		why := ""
		if p != nil {
			if c := p.contracts[t]; c != nil {
				why = ": " + c.why
			}
		}
		tb = append(tb, "assumed contract of "+t+why)
	}
	as := assumptions(filepath.Join(specs, "assumptions.txt"), id)
	for _, t := range keysOf(models) {
		as = append(as, "model: "+t)
	}
	for _, s := range structural {
		as = append(as, "NOT PROVED on this tree, only the bounded check was run: "+s)
	}
	cov := map[string]any{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":         fmt.Sprintf("/verif/check.sh %s %s", id, *tier),
		"trusted_base":        tb,
		"functions":           funcs,
		"inlined":             keysOf(inlined),
		"backends":            backends,
		"obligation_kinds":    kinds,
		"solver_s":            round2(solve.Seconds()),
		"obligation_timeout":  to.String(),
		"sample_obligations":  samples,
		"outside_reach":       structural,
		"failed_obligations":  names(failed),
		"bounded_cross_check": map[string]any{"label": "bounded, not counted as proved", "ran": h.ran, "built": h.built, "evaluations": h.cases, "distinct_nontrivial": h.distinct, "rule": h.rule, "samples": h.samples, "failing": len(h.failures), "wall_s": round2(h.dur.Seconds())},
	}
	n := 0
	if violation != "" {
		n = 1
	}
	ev := map[string]any{"property": id, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": round2(time.Since(start).Seconds()), "violations": n}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs solver time, %.1fs\n", id, nObl, nOK, len(funcs), solve.Seconds(), time.Since(start).Seconds())
	if violation != "" {
		fmt.Println(violation)
		return 1
	}
	if loadErr != "" {
		return 3
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func names(os []*Obligation) []string {
	l := []string{}
	for _, o := range os {
		l = append(l, o.Name+" at "+o.Pos)
	}
	return l
}

// loadKnown reads "known: property=<id> input=<id> text" lines.
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "input=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "input=")] = strings.Join(f[2:], " ")
	}
	return out
}

func assumptions(path, id string) []string {
	b, _ := os.ReadFile(path)
	out := []string{}
	for _, l := range strings.Split(string(b), "\n") {
		k, t, ok := strings.Cut(l, ":")
		if !ok || strings.HasPrefix(l, "#") {
			continue
		}
		for _, w := range strings.Fields(k) {
			if w == "*" || w == id {
				out = append(out, strings.TrimSpace(t))
				break
			}
		}
	}
	return out
}

// runHarness executes the bounded cross-check of a property on the real code.
func runHarness(repo, verif, id string, seed, budget int, hints []string) *harnessResult {
	h := &harnessResult{samples: []string{}}
	dir := filepath.Join(verif, "harness", id)
	if _, err := os.Stat(dir); err != nil {
		return h
	}
	rep := map[string]string{}
	pkgs := map[string]bool{}
	add := func(root string, test bool) {
		filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, path)
			rep[filepath.Join(repo, rel)] = path
			if test && strings.HasSuffix(rel, "_test.go") {
				pkgs["./"+filepath.Dir(rel)] = true
			}
			return nil
		})
	}
	add(filepath.Join(verif, "harness", "common"), false)
	add(dir, true)
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	tmp, err := os.MkdirTemp("", "gover")
	if err != nil {
		return h
	}
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-timeout", fmt.Sprintf("%ds", budget*4+120), "-run", "^TestVerif"}
	args = append(args, keysOf(pkgs)...)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*5+200)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off",
		fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_HINTS="+strings.Join(hints, ","), "VERIF_TMP="+tmp, "TMPDIR="+tmp)
	h.cmd = fmt.Sprintf("VERIF_SEED=%d VERIF_BUDGET=%d VERIF_HINTS=%s /verif/harness.sh %s", seed, budget, strings.Join(hints, ","), id)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	st := time.Now()
	_ = cmd.Run()
	h.dur = time.Since(st)
	h.ran = true
	h.out = out.String()
	h.built = !strings.Contains(h.out, "[build failed]") && !strings.Contains(h.out, "[setup failed]")
	if os.Getenv("GOVER_DEBUG") != "" || !h.built {
		fmt.Println(clip(h.out, 3000))
	}
	lines := strings.Split(h.out, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "VERIF-CASES "):
			var a, d int
			fmt.Sscanf(l, "VERIF-CASES %d %d", &a, &d)
			h.cases += a
			h.distinct += d
		case strings.HasPrefix(l, "VERIF-RULE "):
			if h.rule != "" {
				h.rule += "; "
			}
			h.rule += strings.TrimPrefix(l, "VERIF-RULE ")
		case strings.HasPrefix(l, "VERIF-SAMPLE "):
			if len(h.samples) < 6 {
				h.samples = append(h.samples, clip(strings.TrimPrefix(l, "VERIF-SAMPLE "), 400))
			}
		case strings.HasPrefix(l, "VERIF-FAIL "):
			rest := strings.TrimPrefix(l, "VERIF-FAIL ")
			fid, _, _ := strings.Cut(rest, " ")
			text := rest
			for j := i + 1; j < len(lines) && j < i+30 && strings.HasPrefix(lines[j], "    "); j++ {
				text += "\n" + lines[j]
			}
			h.failures = append(h.failures, harnessFail{fid, clip(text, 8000)})
			fmt.Println("FAILING INPUT", clip(text, 1500))
		}
	}
	sort.Strings(h.samples)
	return h
}
