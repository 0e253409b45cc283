package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var (
	debugPanics bool
	debugDir    string
)

func implements(t, it types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

// verifyAll verifies the given keys and everything they rely on.
func (w *World) verifyAll(prop string, keys []string, quickMs, longMs int, verbose bool) []*FnResult {
	var out []*FnResult
	done := map[string]bool{}
	type job struct{ r *FnResult }
	var wgs []chan struct{}
	work := append([]string(nil), keys...)
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		tm.Lock()
		r := w.verify(k)
		tm.Unlock()
		out = append(out, r)
		var us []string
		for u := range r.Ex.usedCon {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			for _, i := range w.impls[u] {
				if !done[i] {
					work = append(work, i)
				}
			}
			if c := w.contracts[u]; c != nil && c.boundary && prop != "" && !c.hasProp(prop) {
				r.Ex.assume_[fmt.Sprintf("contract of %s: discharged by the check of %s, not in this run", shortKey(u), strings.Join(c.props, ", "))] = true
				continue
			}
			if w.funcs[u] != nil && !done[u] {
				work = append(work, u)
			}
		}
		ch := make(chan struct{})
		wgs = append(wgs, ch)
		go func() {
			w.solveFn(r, quickMs, longMs)
			close(ch)
		}()
	}
	for _, c := range wgs {
		<-c
	}
	return out
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	fnre := flag.String("fn", ".", "regexp on function key")
	prop := flag.String("prop", "", "")
	list := flag.Bool("list", false, "")
	dbgd := flag.String("debug", "", "directory for failing scripts")
	q := flag.Int("quick", 3000, "")
	l := flag.Int("long", 15000, "")
	noSolve := flag.Bool("nosolve", false, "")
	verbose := flag.Bool("v", false, "")
	pan := flag.Bool("panic", false, "")
	dump := flag.Bool("ssa", false, "")
	closure := flag.Bool("closure", false, "also verify contracts relied on")
	flag.Parse()
	debugPanics = *pan
	debugDir = *dbgd
	solverSem = make(chan struct{}, 8)
	t0 := time.Now()
	w, err := loadWorld(*repo, *contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "loaded in %v, %d contracts, missing targets: %v\n", time.Since(t0).Round(time.Millisecond), len(w.all), w.missing)
	if len(w.stale) > 0 {
		fmt.Fprintf(os.Stderr, "contracts left out (type errors): %v\n", w.stale)
	}
	re := regexp.MustCompile(*fnre)
	var keys []string
	for k, c := range w.contracts {
		if c.trusted || c.inline || w.funcs[k] == nil || !re.MatchString(k) {
			continue
		}
		if *prop != "" {
			has := false
			for _, p := range c.props {
				has = has || p == *prop
			}
			if !has {
				continue
			}
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if *dump {
		for k, f := range w.funcs {
			if re.MatchString(k) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *list {
		for _, k := range keys {
			fmt.Println(k)
		}
		return
	}
	var rs []*FnResult
	if *closure {
		rs = w.verifyAll(*prop, keys, *q, *l, *verbose)
	} else {
		var chs []chan struct{}
		for _, k := range keys {
			tm.Lock()
			r := w.verify(k)
			tm.Unlock()
			rs = append(rs, r)
			if *noSolve {
				continue
			}
			ch := make(chan struct{})
			chs = append(chs, ch)
			go func() { w.solveFn(r, *q, *l); close(ch) }()
		}
		for _, c := range chs {
			<-c
		}
	}
	bad := 0
	for _, r := range rs {
		np, nf, nc := 0, 0, 0
		for _, o := range r.Obls {
			if o.Cand >= 0 {
				nc++
				continue
			}
			if o.Status == "proved" {
				np++
			} else {
				nf++
			}
		}
		tag := "ok  "
		if nf > 0 || r.Err != "" || r.Vacuous != "" {
			tag = "FAIL"
			bad++
		}
		fmt.Printf("%s %s: %d proved, %d failed (%d candidate obls, %d facts) %s %s\n", tag, shortKey(r.Key), np, nf, nc, len(r.Ex.facts), r.Err, r.Vacuous)
		for i, o := range r.Obls {
			if o.Cand < 0 && o.Status != "proved" {
				fmt.Printf("     %s  [%s] %s\n", o.Full, o.Pos, short2(o.Model))
			}
			if debugDir != "" && o.Script != "" {
				os.MkdirAll(debugDir, 0777)
				os.WriteFile(filepath.Join(debugDir, fmt.Sprintf("%03d-%s.smt2", i, sanitize(o.Full))), []byte(o.Script), 0666)
			}
			if *verbose && o.Cand < 0 && o.Status == "proved" {
				fmt.Printf("     + %s %s %dms\n", o.Full, o.By, o.Ms)
			}
		}
		for _, c := range r.Ex.cands {
			if c.User && (!c.Alive || *verbose) {
				fmt.Printf("     inv %s/%s alive=%v %s\n", c.Loop, c.Name, c.Alive, c.Reason)
			} else if *verbose {
				fmt.Printf("     cand %s/%s alive=%v %s\n", c.Loop, c.Name, c.Alive, c.Reason)
			}
		}
		if *verbose {
			var as []string
			for a := range r.Ex.assume_ {
				as = append(as, a)
			}
			sort.Strings(as)
			fmt.Println("     assumes: " + strings.Join(as, "\n              "))
		}
	}
	for n, s := range stats {
		fmt.Fprintf(os.Stderr, "%s: %d queries, %d ms, %d proved\n", n, s.Queries, s.Ms, s.Proved)
	}
	fmt.Fprintf(os.Stderr, "%d functions, %d failing, %v\n", len(rs), bad, time.Since(t0).Round(time.Millisecond))
	if bad > 0 {
		os.Exit(1)
	}
}

func short2(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}
