package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// tm serialises everything that touches the term tables.
var tm sync.Mutex

var solverSem chan struct{}

type solverStat struct {
	Queries int
	Ms      int64
	Proved  int
}

var (
	statMu sync.Mutex
	stats  = map[string]*solverStat{}
)

func addStat(name string, ms int64, proved bool) {
	statMu.Lock()
	defer statMu.Unlock()
	s := stats[name]
	if s == nil {
		s = &solverStat{}
		stats[name] = s
	}
	s.Queries++
	s.Ms += ms
	if proved {
		s.Proved++
	}
}

func init() {
	s := mkNamedBound("s", SStr)
	declFun("slen", []Sort{SStr}, SInt)
	l := mkFun("slen", SInt, s)
	empty := mkStrConst("")
	funDecls["slen"].Axioms = []*Term{mkForallPat([]*Term{s}, mkAnd(mkLe(tZero, l), mkImp(mkEq(l, tZero), mkEq(s, empty))), []*Term{l})}
	declFun("sat", []Sort{SStr, SInt}, SInt)
	t := mkNamedBound("t", SStr)
	declFun("sconcat", []Sort{SStr, SStr}, SStr)
	c := mkFun("sconcat", SStr, s, t)
	funDecls["sconcat"].Axioms = []*Term{mkForallPat([]*Term{s, t}, mkEq(mkFun("slen", SInt, c), mkAdd(l, mkFun("slen", SInt, t))), []*Term{c})}
}

// ancestors of a block instance.
func (ex *Ex) ancestors(inst int) map[int]bool {
	seen := map[int]bool{}
	var rec func(int)
	rec = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, p := range ex.insts[i] {
			rec(p)
		}
	}
	rec(inst)
	return seen
}

func (ex *Ex) factsFor(inst, n int, alive func(int) bool) []*Term {
	anc := ex.ancestors(inst)
	var out []*Term
	seen := map[*Term]bool{}
	for i := 0; i < n && i < len(ex.facts); i++ {
		f := ex.facts[i]
		if !anc[f.Inst] && f.Inst != 0 {
			continue
		}
		if f.Cand >= 0 && !alive(f.Cand) {
			continue
		}
		if seen[f.T] {
			continue
		}
		seen[f.T] = true
		out = append(out, f.T)
	}
	return out
}

// emit prints a script asserting facts; goals are then checked one by one.
type emitter struct {
	w       *World
	consts  map[*Term]bool
	funs    map[string]bool
	strs    map[*Term]bool
	sorts   map[Sort]bool
	visited map[*Term]bool
	refs    map[*Term]int
	axioms  []*Term
	order   []*Term
	forder  []string
}

func (e *emitter) sort(s Sort) {
	if strings.HasPrefix(s, "(Array ") {
		v := arrElem(s)
		k := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), " "+v+")")
		e.sort(k)
		e.sort(v)
		return
	}
	switch s {
	case SInt, SBool:
		return
	}
	e.sorts[s] = true
}

func (e *emitter) visit(t *Term) {
	e.refs[t]++
	if e.visited[t] {
		return
	}
	e.visited[t] = true
	e.sort(t.Sort)
	switch t.Op {
	case "var":
		if !t.bound {
			e.consts[t] = true
		}
	case "strc":
		e.strs[t] = true
	case "fun":
		if !e.funs[t.Name] {
			e.funs[t.Name] = true
			e.forder = append(e.forder, t.Name)
			d := funDecls[t.Name]
			for _, s := range d.Args {
				e.sort(s)
			}
			e.sort(d.Res)
			for _, a := range d.Axioms {
				e.axioms = append(e.axioms, a)
			}
		}
	}
	for _, a := range t.Args {
		e.visit(a)
	}
	for _, v := range t.Bound {
		e.sort(v.Sort)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			e.visit(x)
		}
	}
	e.order = append(e.order, t)
}

// axiomTerm marks facts that come from axioms.
var axiomTerm = map[*Term]bool{}

// relevant: some pattern of the axiom consists of symbols already in use.
func (e *emitter) relevant(a *Term) bool {
	var all func(t *Term) bool
	all = func(t *Term) bool {
		if t.Op == "fun" && !e.funs[t.Name] {
			return false
		}
		for _, x := range t.Args {
			if !all(x) {
				return false
			}
		}
		return true
	}
	if a.Op == "forall" && len(a.Pats) > 0 {
		for _, p := range a.Pats {
			ok := true
			for _, x := range p {
				ok = ok && all(x)
			}
			if ok {
				return true
			}
		}
		return false
	}
	found := false
	seen := map[*Term]bool{}
	var any func(t *Term)
	any = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" && e.consts[t] || t.Op == "fun" && e.funs[t.Name] && len(t.Args) == 0 {
			found = true
		}
		for _, x := range t.Args {
			any(x)
		}
	}
	any(a)
	return found
}

func newEmitter(w *World) *emitter {
	return &emitter{w: w, consts: map[*Term]bool{}, funs: map[string]bool{}, strs: map[*Term]bool{}, sorts: map[Sort]bool{}, visited: map[*Term]bool{}, refs: map[*Term]int{}}
}

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// script renders facts and goals. With one goal it is a plain check.
func (w *World) script(facts []*Term, goals []*Term, model bool) string {
	e := newEmitter(w)
	var axs []*Term
	var kept []*Term
	for _, f := range facts {
		if axiomTerm[f] {
			axs = append(axs, f)
			continue
		}
		kept = append(kept, f)
		e.visit(f)
	}
	for _, g := range goals {
		e.visit(g)
	}
	// an axiom matters only if its trigger can occur
	for changed := true; changed; {
		changed = false
		for i, a := range axs {
			if a == nil || !e.relevant(a) {
				continue
			}
			axs[i] = nil
			kept = append(kept, a)
			e.visit(a)
			changed = true
		}
	}
	facts = kept
	for i := 0; i < len(e.axioms); i++ {
		e.visit(e.axioms[i])
	}
	// interface implementation facts
	var impls []string
	for _, n := range e.forder {
		if it, ok := w.implIfaces[n]; ok && strings.HasPrefix(n, "impl.") {
			var ids []int64
			for id := range tagTypes {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				b := implements(tagTypes[id], it)
				impls = append(impls, fmt.Sprintf("(assert (= (%s %d) %v))\n", n, id, b))
			}
			impls = append(impls, fmt.Sprintf("(assert (= (%s 0) false))\n", n))
		}
	}
	var b strings.Builder
	var ss []string
	for s := range e.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, c := range sortTerms(e.consts) {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", c.Name, c.Sort)
	}
	strs := sortTerms(e.strs)
	for _, s := range strs {
		fmt.Fprintf(&b, "(declare-fun strc!%d () Str) ; %q\n", s.id, shortStr(s.Name))
	}
	sort.Strings(e.forder)
	for _, n := range e.forder {
		d := funDecls[n]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.Args, " "), d.Res)
	}
	if len(strs) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range strs {
			fmt.Fprintf(&b, " strc!%d", s.id)
		}
		b.WriteString("))\n")
	}
	if e.funs["slen"] {
		for _, s := range strs {
			fmt.Fprintf(&b, "(assert (= (slen strc!%d) %d))\n", s.id, len(s.Name))
		}
	}
	if e.funs["sat"] {
		for _, s := range strs {
			if len(s.Name) <= 8 {
				for i := 0; i < len(s.Name); i++ {
					fmt.Fprintf(&b, "(assert (= (sat strc!%d %d) %d))\n", s.id, i, s.Name[i])
				}
			}
		}
	}
	for _, s := range impls {
		b.WriteString(s)
	}
	// shared ground subterms
	names := map[*Term]string{}
	// conditionals inside patterns become constants
	inPat := map[*Term]bool{}
	var markPat func(t *Term)
	markPat = func(t *Term) {
		if !t.bound && t.Op == "ite" && t.Sort != SBool {
			inPat[t] = true
			return
		}
		for _, a := range t.Args {
			markPat(a)
		}
	}
	for _, t := range e.order {
		for _, p := range t.Pats {
			for _, x := range p {
				markPat(x)
			}
		}
	}
	for _, t := range e.order {
		if inPat[t] {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.Sort, n, printTerm(t, names))
			names[t] = n
			continue
		}
		if t.bound || len(t.Args) == 0 || e.refs[t] < 2 || t.Op == "forall" || t.Op == "exists" {
			continue
		}
		if t.Op == "fun" && allLeaf(t) || t.Op == "not" && len(t.Args[0].Args) == 0 {
			continue
		}
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, printTerm(t, names))
		names[t] = n
	}
	seen := map[*Term]bool{}
	for _, a := range e.axioms {
		if seen[a] {
			continue
		}
		seen[a] = true
		fmt.Fprintf(&b, "(assert %s)\n", topTerm(a, names))
	}
	for _, f := range facts {
		fmt.Fprintf(&b, "(assert %s)\n", topTerm(f, names))
	}
	if len(goals) == 1 {
		fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", topTerm(goals[0], names))
		if model {
			b.WriteString("(get-model)\n")
		}
		return b.String()
	}
	for _, g := range goals {
		fmt.Fprintf(&b, "(push 1)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", topTerm(g, names))
	}
	return b.String()
}

func topTerm(t *Term, names map[*Term]string) string {
	if n, ok := names[t]; ok {
		return n
	}
	return printTerm(t, names)
}

func allLeaf(t *Term) bool {
	for _, a := range t.Args {
		if len(a.Args) > 0 {
			return false
		}
	}
	return true
}

func shortStr(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

type solver struct {
	name string
	cmd  func(ms int) []string
	pre  string
}

const z3pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.relevancy 2)\n"

var (
	sZ3n = solver{"z3-5.3.2", func(ms int) []string {
		return []string{"/usr/local/bin/z3-new", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	sZ3o = solver{"z3-4.8.12", func(ms int) []string {
		return []string{"/usr/bin/z3", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	sZ3m = solver{"z3-5.3.2-mbqi", func(ms int) []string {
		return []string{"/usr/local/bin/z3-new", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, ""}
	sZ3c = solver{"z3-4.8.12-split", func(ms int) []string {
		return []string{"/usr/bin/z3", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, z3pre}
	sCvc = solver{"cvc5-1.1.2", func(ms int) []string {
		return []string{"/usr/bin/cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}, "(set-logic ALL)\n"}
)

var memo sync.Map

// solverDeadline, when set, is the time (Unix nanoseconds) after which no
// further query is started.
var solverDeadline atomic.Int64

func cacheDir() string { return os.Getenv("GOVC_CACHE") }

func runSolver(ctx context.Context, s solver, script string, ms int) (string, int64) {
	var key string
	if d := cacheDir(); d != "" {
		h := sha256.Sum256([]byte(s.name + fmt.Sprint(ms) + s.pre + script))
		key = filepath.Join(d, hex.EncodeToString(h[:]))
		if b, err := os.ReadFile(key); err == nil {
			return string(b), 0
		}
	}
	// the same query often comes up again in a later round
	mk := sha256.Sum256([]byte(s.name + fmt.Sprint(ms) + s.pre + script))
	if r, ok := memo.Load(mk); ok {
		return r.(string), 0
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "cancelled", 0
	}
	if d := solverDeadline.Load(); d != 0 && time.Now().UnixNano() > d {
		return "out of time", 0
	}
	t0 := time.Now()
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+3*time.Second)
	defer cancel()
	args := s.cmd(ms)
	cmd := exec.CommandContext(c2, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(s.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Milliseconds()
	if ctx.Err() != nil {
		return "cancelled", el
	}
	r := out.String()
	memo.Store(mk, r)
	if key != "" {
		os.MkdirAll(filepath.Dir(key), 0777)
		os.WriteFile(key, []byte(r), 0666)
	}
	return r, el
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	for strings.HasPrefix(s, "WARNING:") && strings.Contains(s, "\n") {
		s = strings.TrimSpace(s[strings.IndexByte(s, '\n'):])
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// discharge tries the portfolio on one obligation script.
func discharge(script string, quickMs, longMs int) (ok bool, by string, ms int64, out string) {
	t0 := time.Now()
	r, el := runSolver(context.Background(), sZ3n, script, quickMs)
	fl := firstLine(r)
	addStat(sZ3n.name, el, fl == "unsat")
	if fl == "unsat" {
		return true, sZ3n.name, el, ""
	}
	if strings.Contains(fl, "error") {
		return false, sZ3n.name, el, r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		ok   bool
		name string
		out  string
	}
	ss := []solver{sZ3c, sCvc, sZ3o, sZ3m}
	ch := make(chan rr, len(ss))
	for _, s := range ss {
		s := s
		go func() {
			r, el := runSolver(ctx, s, script, longMs)
			fl := firstLine(r)
			if fl != "cancelled" {
				addStat(s.name, el, fl == "unsat")
			}
			ch <- rr{fl == "unsat", s.name, r}
		}()
	}
	var outs []string
	outs = append(outs, sZ3n.name+": "+fl)
	for range ss {
		x := <-ch
		if x.ok {
			return true, x.name, time.Since(t0).Milliseconds(), ""
		}
		outs = append(outs, x.name+": "+firstLine(x.out))
	}
	return false, "", time.Since(t0).Milliseconds(), strings.Join(outs, "; ")
}

// dischargeCand spends a little more on an invariant written by hand.
func dischargeCand(script string, scale int) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// most are settled by one solver at once
	r, el := runSolver(ctx, sZ3n, script, 1000)
	addStat(sZ3n.name+" (candidates)", el, false)
	switch firstLine(r) {
	case "unsat":
		return true
	case "sat":
		return false
	}
	ss := []solver{sZ3n, sZ3c, sZ3o, sZ3m}
	ch := make(chan bool, len(ss))
	for _, s := range ss {
		s := s
		go func() {
			r, el := runSolver(ctx, s, script, 6000*scale)
			fl := firstLine(r)
			if fl != "cancelled" {
				addStat(s.name+" (candidates)", el, false)
			}
			ch <- fl == "unsat"
		}()
	}
	for range ss {
		if <-ch {
			return true
		}
	}
	return false
}

// solveFn discharges all obligations of a function.
func (w *World) solveFn(res *FnResult, quickMs, longMs int) { w.solveFnScaled(res, quickMs, longMs, 1) }

// solveFnScaled: scale multiplies the time given to invariant candidates.
func (w *World) solveFnScaled(res *FnResult, quickMs, longMs, scale int) {
	ex := res.Ex
	if ex == nil {
		return
	}
	converged := false
	alive := func(i int) bool { return ex.cands[i].Alive }
	// ---- invariant candidates (Houdini) ----
	type group struct {
		obls []*Obl
	}
	for round := 0; round < 25; round++ {
		groups := map[string]*group{}
		var gorder []string
		for _, o := range res.Obls {
			if o.Cand < 0 || !ex.cands[o.Cand].Alive || o.By == "simplifier" {
				continue
			}
			k := fmt.Sprintf("%s/%s/%d/%v", o.Kind, ex.cands[o.Cand].Loop, o.Inst, ex.cands[o.Cand].User)
			for n := 0; groups[k] != nil && len(groups[k].obls) >= 10; n++ {
				k = fmt.Sprintf("%s/%s/%d/%v/%d", o.Kind, ex.cands[o.Cand].Loop, o.Inst, ex.cands[o.Cand].User, n)
			}
			if groups[k] == nil {
				groups[k] = &group{}
				gorder = append(gorder, k)
			}
			groups[k].obls = append(groups[k].obls, o)
		}
		was := make([]bool, len(ex.cands))
		for i, c := range ex.cands {
			was[i] = c.Alive
		}
		allAlive := func(i int) bool { return was[i] }
		var wg sync.WaitGroup
		var mu sync.Mutex
		dropped := 0
		for _, k := range gorder {
			g := groups[k]
			wg.Add(1)
			go func() {
				defer wg.Done()
				tm.Lock()
				n := 0
				var goals []*Term
				for _, o := range g.obls {
					if o.NFacts > n {
						n = o.NFacts
					}
					goals = append(goals, o.Goal)
				}
				facts := ex.factsFor(g.obls[0].Inst, n, allAlive)
				script := fmt.Sprintf("(set-option :timeout %d)\n", 2500*scale) + w.script(facts, goals, false)
				if len(goals) == 1 {
					script = w.script(facts, goals, false)
				}
				tm.Unlock()
				r := ""
				if !ex.cands[g.obls[0].Cand].User {
					var el int64
					r, el = runSolver(context.Background(), sZ3n, script, 3000*scale*len(goals))
					addStat(sZ3n.name+" (candidates)", el, false)
				}
				var lines []string
				for _, l := range strings.Split(r, "\n") {
					l = strings.TrimSpace(l)
					if l == "unsat" || l == "sat" || l == "unknown" {
						lines = append(lines, l)
					} else if strings.Contains(l, "error") && os.Getenv("GOVC_TRACE") != "" {
						fmt.Fprintln(os.Stderr, "solver:", l)
					}
				}
				var gw sync.WaitGroup
				for i, o := range g.obls {
					okc := i < len(lines) && lines[i] == "unsat"
					o := o
					finish := func(okc bool) {
						mu.Lock()
						defer mu.Unlock()
						if okc {
							o.Status = "proved"
							o.By = sZ3n.name
						} else if ex.cands[o.Cand].Alive {
							ex.cands[o.Cand].Alive = false
							ex.cands[o.Cand].Reason = o.Kind
							dropped++
						}
					}
					if okc || !ex.cands[o.Cand].User {
						finish(okc)
						continue
					}
					// spend more on invariants written by hand
					gw.Add(1)
					tm.Lock()
					sc := w.script(ex.factsFor(o.Inst, o.NFacts, allAlive), []*Term{o.Goal}, false)
					tm.Unlock()
					go func() {
						defer gw.Done()
						okc := dischargeCand(sc, scale)
						if d := os.Getenv("GOVC_CANDS"); d != "" && !okc {
							os.WriteFile(filepath.Join(d, fmt.Sprintf("%d-%s.smt2", round, sanitize(o.Full))), []byte(sc), 0666)
						}
						finish(okc)
					}()
				}
				gw.Wait()
			}()
		}
		wg.Wait()
		if dropped == 0 {
			converged = true
			break
		}
	}
	if !converged {
		for _, c := range ex.cands {
			c.Alive = false
			c.Reason = "no fixpoint"
		}
	}
	// ---- main obligations ----
	var wg sync.WaitGroup
	for _, o := range res.Obls {
		if o.Cand >= 0 || o.Status != "" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			tm.Lock()
			facts := ex.factsFor(o.Inst, o.NFacts, alive)
			if debugDir != "" {
				o.Script = w.script(facts, []*Term{o.Goal}, false)
			}
			script := w.script(facts, []*Term{o.Goal}, false)
			tm.Unlock()
			ok, by, ms, out := discharge(script, quickMs, longMs)
			o.Ms = ms
			o.By = by
			if ok {
				o.Status = "proved"
			} else {
				o.Status = "failed"
				o.Model = out
				if o.Script == "" {
					o.Script = script
				}
			}
		}()
	}
	// ---- vacuity: some return is not refutable ----
	if len(res.Returns) > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			refuted := 0
			for _, r := range res.Returns {
				tm.Lock()
				facts := ex.factsFor(r.st.inst, len(ex.facts), alive)
				sc := w.script(facts, []*Term{mkNot(r.st.guard)}, false)
				tm.Unlock()
				out, _ := runSolver(context.Background(), sZ3n, sc, 2000)
				if debugDir != "" {
					os.WriteFile(filepath.Join(debugDir, "vacuity-"+sanitize(res.Key)+".smt2"), []byte(sc), 0666)
				}
				if firstLine(out) == "unsat" {
					refuted++
				} else {
					break
				}
			}
			if refuted == len(res.Returns) {
				res.Vacuous = "every return is unreachable under the contract's preconditions"
			}
		}()
	}
	wg.Wait()
}
