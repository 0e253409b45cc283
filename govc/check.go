package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation,omitempty"` // failing obligation name
	Case       string `json:"case,omitempty"`       // failing harness case
	What       string `json:"what"`
}

type harnessResult struct {
	Ran      bool     `json:"ran"`
	Label    string   `json:"label"`
	Cmd      string   `json:"cmd"`
	Cases    int      `json:"cases"`
	Distinct int      `json:"distinct_nontrivial"`
	Bounds   []string `json:"bounds,omitempty"`
	Samples  []string `json:"samples,omitempty"`
	Fails    []string `json:"failures,omitempty"`
	Known    []string `json:"known,omitempty"`
	Note     string   `json:"note,omitempty"`
	WallS    float64  `json:"wall_s"`
	output   string
}

const baseAssumption = "machine integers are treated as mathematical integers (no overflow); memory exhaustion, stack overflow and goroutine interference are outside the model"

// hasNewCase: the harness found a failing input that is not a known finding.
func hasNewCase(h *harnessResult, known []knownFinding, prop string) bool {
	for _, c := range h.Fails {
		new := true
		for _, k := range known {
			if k.Property == prop && k.Case != "" && strings.HasPrefix(c, k.Case) {
				new = false
			}
		}
		if new {
			return true
		}
	}
	return false
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	level := fs.String("level", "proof", "")
	tier := fs.String("tier", "", "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	solverSem = make(chan struct{}, 8)
	os.Unsetenv("GOVC_CACHE")
	evFile := filepath.Join(*verif, "evidence", *prop+".json")
	os.MkdirAll(filepath.Dir(evFile), 0777)
	outDir := filepath.Join(*verif, "out", *prop)
	os.RemoveAll(outDir)
	os.MkdirAll(outDir, 0777)

	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		var kf struct {
			Known []knownFinding `json:"known"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
		known = kf.Known
	}

	// the harness compiles while the verifier runs
	hch := make(chan *harnessResult, 1)
	limit := func(d time.Duration) { solverDeadline.Store(time.Now().Add(d).UnixNano()) }
	limit(420 * time.Second)
	go func() {
		h := runHarness(*repo, *verif, *prop, seed, *tier, false)
		if hasNewCase(h, known, *prop) {
			// the outcome is settled; only name the obligations that fail
			limit(40 * time.Second)
		}
		hch <- h
	}()

	w, err := loadWorld(*repo, filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var keys []string
	var missing []string
	for k, c := range w.contracts {
		if c.trusted || c.inline || w.funcs[k] == nil || !c.hasProp(*prop) {
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, m := range w.missing {
		missing = append(missing, m)
	}
	var results []*FnResult
	if len(keys) > 0 {
		results = w.verifyAll(*prop, keys, 3000, 15000, false)
	}
	failing := func(r *FnResult) bool {
		if r.Err != "" || r.Vacuous != "" {
			return true
		}
		for _, o := range r.Obls {
			if o.Cand < 0 && o.Status != "proved" {
				return true
			}
		}
		return false
	}
	// give anything undischarged a second, slower attempt before reporting it
	h := <-hch
	retryUntil := time.Now().Add(180 * time.Second)
	if !hasNewCase(h, known, *prop) {
		limit(240 * time.Second)
	}
	for _, r := range results {
		if hasNewCase(h, known, *prop) {
			break
		}
		if !failing(r) || r.Err != "" || time.Now().After(retryUntil) {
			continue
		}
		for _, c := range r.Ex.cands {
			c.Alive = true
			c.Reason = ""
		}
		for _, o := range r.Obls {
			if o.By != "simplifier" && o.By != "generator" && (o.Cand >= 0 || o.Status != "proved") {
				o.Status, o.By, o.Model = "", "", ""
			}
		}
		r.Vacuous = ""
		w.solveFnScaled(r, 10000, 30000, 3)
	}

	// ---- collect ----
	type failure struct{ name, pos, detail string }
	var fails []failure
	nObl, nOK, nInv := 0, 0, 0
	byBack := map[string]int{}
	assumed := map[string]bool{baseAssumption: true}
	var fnsUnder []map[string]interface{}
	vacOK := 0
	for _, r := range results {
		np, nf, ni := 0, 0, 0
		for _, o := range r.Obls {
			if o.Cand >= 0 {
				if r.Ex.cands[o.Cand].Alive {
					ni++
				}
				continue
			}
			if o.Status == "proved" {
				np++
				byBack[o.By]++
			} else {
				nf++
				fails = append(fails, failure{o.Full, o.Pos, o.Model})
			}
		}
		if r.Vacuous != "" {
			fails = append(fails, failure{r.Ex.target + "/vacuity", "", r.Vacuous})
		} else {
			vacOK++
		}
		nObl += np + nf
		nOK += np
		nInv += ni
		for a := range r.Ex.assume_ {
			assumed[a] = true
		}
		for _, a := range r.Ex.axiomsUsed {
			assumed["definitional axiom "+a] = true
		}
		fnsUnder = append(fnsUnder, map[string]interface{}{"function": shortKey(r.Key), "contract": r.Contract, "obligations": np + nf, "discharged": np, "invariant_obligations": ni})
	}
	if len(keys) > 0 && nObl == 0 {
		fails = append(fails, failure{*prop + "/no-obligations", "", "the contracts of this property generated no obligation"})
	}
	if len(keys) == 0 && *level == "proof" {
		fails = append(fails, failure{*prop + "/no-contracts", "", "no contract of this property could be attached"})
	}
	for _, s := range w.stale {
		if s != "" {
			assumed["contract no longer type-checks and was left out: "+s] = true
		}
	}
	for _, m := range missing {
		assumed["contract target not found (callers are verified with the body inlined): "+m] = true
	}

	isKnown := func(name, cs string) *knownFinding {
		for i, k := range known {
			if k.Property != *prop {
				continue
			}
			if name != "" && k.Obligation == name || cs != "" && k.Case != "" && strings.HasPrefix(cs, k.Case) {
				return &known[i]
			}
		}
		return nil
	}
	var newFails []failure
	reported := map[string]bool{}
	report := func(k *knownFinding) {
		if !reported[k.What] {
			reported[k.What] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
		}
	}
	for _, f := range fails {
		if k := isKnown(f.name, ""); k != nil {
			report(k)
			continue
		}
		newFails = append(newFails, f)
	}
	if len(newFails) > 0 && len(h.Fails) == 0 && h.Ran {
		h2 := runHarness(*repo, *verif, *prop, seed, *tier, true)
		if len(h2.Fails) > 0 {
			h = h2
		}
	}
	var newCases []string
	for _, c := range h.Fails {
		if k := isKnown("", c); k != nil {
			report(k)
			continue
		}
		newCases = append(newCases, c)
	}
	for _, c := range h.Known {
		if k := isKnown("", c); k != nil {
			report(k)
		}
	}
	violated := len(newFails) > 0 || len(newCases) > 0
	replay := filepath.Join(outDir, "replay.txt")
	if violated {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		for _, f := range newFails {
			fmt.Fprintf(&b, "failed obligation: %s\n  at %s\n  verifier: %s\n", f.name, f.pos, f.detail)
		}
		for _, c := range newCases {
			fmt.Fprintf(&b, "failing input (run against the real code): %s\n", c)
		}
		fmt.Fprintf(&b, "\nre-run the proof: cd %s && bin/govc check -prop %s\n", *verif, *prop)
		if h.Ran {
			fmt.Fprintf(&b, "re-run the inputs: %s\n\n--- harness output ---\n%s\n", h.Cmd, h.output)
		}
		for i, f := range newFails {
			if i >= 3 {
				break
			}
			for _, r := range results {
				for _, o := range r.Obls {
					if o.Full == f.name && o.Script != "" {
						sp := filepath.Join(outDir, fmt.Sprintf("obligation-%d.smt2", i))
						os.WriteFile(sp, []byte(o.Script), 0666)
						fmt.Fprintf(&b, "solver script of %s: %s\n", f.name, sp)
					}
				}
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0666)
	}
	for _, f := range newFails {
		fmt.Printf("failed obligation: %s [%s] %s\n", f.name, f.pos, short2(f.detail))
	}
	for _, c := range newCases {
		fmt.Printf("failing input: %s\n", c)
	}

	// ---- evidence ----
	var trusted []string
	for a := range assumed {
		trusted = append(trusted, a)
	}
	sort.Strings(trusted)
	var totalMs int64
	backs := map[string]interface{}{}
	statMu.Lock()
	for n, s := range stats {
		totalMs += s.Ms
		backs[n] = map[string]interface{}{"queries": s.Queries, "ms": s.Ms, "unsat": s.Proved}
	}
	statMu.Unlock()
	tb := []string{"govc (verification condition generator in /verif/govc)", "golang.org/x/tools/go/ssa v0.52.0 (SSA construction, naive form)", "Z3 5.3.2", "Z3 4.8.12", "cvc5 1.1.2"}
	for _, a := range trusted {
		tb = append(tb, a)
	}
	cov := map[string]interface{}{
		"obligations":                           nObl,
		"discharged":                            nOK,
		"checker_cmd":                           "bin/govc check -prop " + *prop + " -tier " + *tier,
		"trusted_base":                          tb,
		"functions_under_contract":              fnsUnder,
		"function_count":                        len(results),
		"loop_invariant_obligations_discharged": nInv,
		"discharged_by":                         byBack,
		"solver":                                backs,
		"solver_ms":                             totalMs,
		"reachability_checks_passed":            vacOK,
		"bounded":                               h,
	}
	if *level != "proof" {
		cov["evaluations"] = h.Cases
		cov["distinct_nontrivial"] = h.Distinct
		cov["rule"] = strings.Join(h.Bounds, "; ")
		cov["samples"] = h.Samples
	}
	nv := 0
	if violated {
		nv = 1
	}
	ev := map[string]interface{}{
		"property":    *prop,
		"tier":        *tier,
		"seed":        seed,
		"level":       *level,
		"coverage":    cov,
		"assumptions": trusted,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nv,
	}
	jb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evFile, append(jb, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d invariant obligations, %d harness cases (bounded), %.1fs\n", *prop, len(results), nOK, nObl, nInv, h.Cases, time.Since(t0).Seconds())
	if violated {
		if len(newCases) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, replay)
		}
		return 1
	}
	if !h.Ran && h.Note != "no harness for this property" {
		fmt.Fprintln(os.Stderr, h.Note)
		return 2
	}
	return 0
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

// runHarness runs the bounded tests of a property against the real code.
func runHarness(repo, verif, prop string, seed int, tier string, extended bool) *harnessResult {
	res := &harnessResult{Label: "bounded: tests a stated set of inputs, proves nothing"}
	t0 := time.Now()
	root := filepath.Join(verif, "harness")
	lower := strings.ToLower(prop)
	rep := map[string]string{}
	dirs := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(base, lower+"_") {
			dirs[dir] = true
		} else if !strings.HasPrefix(base, "common") && !strings.HasPrefix(dir, "zz_vh") {
			return nil
		}
		rep[filepath.Join(repo, dir, "zz_vh_"+base)] = p
		return nil
	})
	if len(dirs) == 0 {
		res.Note = "no harness for this property"
		return res
	}
	ovf := filepath.Join(verif, "out", prop, "overlay.json")
	os.MkdirAll(filepath.Dir(ovf), 0777)
	jb, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	os.WriteFile(ovf, jb, 0666)
	var pk []string
	for d := range dirs {
		pk = append(pk, "./"+filepath.Clean(d))
	}
	sort.Strings(pk)
	ext := ""
	if extended {
		ext = "1"
	}
	env := []string{fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER=" + tier, "VERIF_EXTENDED=" + ext}
	ctx, cancel := context.WithTimeout(context.Background(), 560*time.Second)
	defer cancel()
	var out bytes.Buffer
	var err error
	for i, d := range pk {
		bin := filepath.Join(verif, "out", prop, fmt.Sprintf("harness%d.test", i))
		args := []string{"test", "-c", "-overlay", ovf, "-vet=off", "-o", bin, d}
		res.Cmd += fmt.Sprintf("(cd %s && GOFLAGS=-mod=readonly go %s) && cd %s && %s %s -test.v -test.run '^TestVerif%s($|_)'; ", repo, strings.Join(args, " "), filepath.Dir(bin), strings.Join(env, " "), bin, prop)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
		cmd.Stdout = &out
		cmd.Stderr = &out
		if err = cmd.Run(); err != nil {
			out.WriteString("\n[build failed]\n")
			break
		}
		cmd = exec.CommandContext(ctx, bin, "-test.v", "-test.timeout", "500s", "-test.run", "^TestVerif"+prop+"($|_)")
		cmd.Dir = filepath.Dir(bin)
		cmd.Env = append(os.Environ(), env...)
		cmd.Stdout = &out
		cmd.Stderr = &out
		if e := cmd.Run(); e != nil {
			err = e
		}
	}
	res.WallS = time.Since(t0).Seconds()
	txt := out.String()
	res.Ran = true
	seen := map[string]bool{}
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "VH-CASES "):
			var a, b int
			fmt.Sscanf(strings.TrimPrefix(l, "VH-CASES "), "%d %d", &a, &b)
			res.Cases += a
			res.Distinct += b
		case strings.HasPrefix(l, "VH-BOUND "):
			res.Bounds = append(res.Bounds, strings.TrimPrefix(l, "VH-BOUND "))
		case strings.HasPrefix(l, "VH-SAMPLE "):
			if len(res.Samples) < 6 {
				res.Samples = append(res.Samples, strings.TrimPrefix(l, "VH-SAMPLE "))
			}
		case strings.HasPrefix(l, "VH-FAIL "):
			x := strings.TrimPrefix(l, "VH-FAIL ")
			if !seen[x] && len(res.Fails) < 20 {
				seen[x] = true
				res.Fails = append(res.Fails, x)
			}
		case strings.HasPrefix(l, "VH-KNOWN "):
			x := strings.TrimPrefix(l, "VH-KNOWN ")
			if !seen[x] {
				seen[x] = true
				res.Known = append(res.Known, x)
			}
		}
	}
	if len(txt) > 20000 {
		txt = txt[:10000] + "\n...\n" + txt[len(txt)-10000:]
	}
	res.output = txt
	if err != nil && len(res.Fails) == 0 {
		switch {
		case strings.Contains(txt, "[build failed]") || strings.Contains(txt, "[setup failed]"):
			res.Ran = false
			res.Note = "harness does not build against this tree: " + short2(txt)
		case strings.Contains(txt, "panic: test timed out") || ctx.Err() != nil:
			res.Fails = append(res.Fails, "harness did not finish in time; last case: "+lastCase(txt))
		default:
			res.Fails = append(res.Fails, "harness failed: "+short2(firstPanic(txt)))
		}
	}
	return res
}

func lastCase(txt string) string {
	i := strings.LastIndex(txt, "VH-AT ")
	if i < 0 {
		return "unknown"
	}
	return firstLine(txt[i+6:])
}

func firstPanic(txt string) string {
	if i := strings.Index(txt, "panic:"); i >= 0 {
		e := i + 400
		if e > len(txt) {
			e = len(txt)
		}
		return strings.ReplaceAll(txt[i:e], "\n", " | ")
	}
	return strings.ReplaceAll(short2(txt), "\n", " | ")
}
