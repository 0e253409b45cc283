package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Result of the symbolic execution of one function.
type FnResult struct {
	Key      string
	Contract string
	Ex       *Ex
	Obls     []*Obl
	Err      string
	Returns  []retInfo
	Vacuous  string
	Blocks   int
	con      *Contract
}

func shortKey(key string) string { return strings.ReplaceAll(key, modPath+"/", "") }

func (w *World) verify(key string) (res *FnResult) {
	con := w.contracts[key]
	f := w.funcs[key]
	res = &FnResult{Key: key, con: con}
	if con != nil {
		res.Contract = con.fn.Name()
	}
	ex := &Ex{w: w, target: shortKey(key),
		heapInit: map[string]*Term{}, ptrs: map[*Term]ptrInfo{}, closures: map[*Term]*closure{},
		cellType: map[*Term]types.Type{}, globals: map[*Term]Val{}, iters: map[*Term]*iterInfo{},
		names: map[string]int{}, assume_: map[string]bool{}, paramObj: map[string]Val{}, paramTyp: map[string]types.Type{},
		usedCon: map[string]bool{},
	}
	res.Ex = ex
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				res.Err = u.msg
			} else {
				if debugPanics {
					panic(r)
				}
				res.Err = fmt.Sprint("internal: ", r)
			}
			ex.pure = 0
			ex.dry = 0
			w.specStack = nil
			o := &Obl{Fn: ex.target, Kind: "unsupported", Name: res.Err, Full: ex.target + "/unsupported:" + res.Err, Goal: tFalse, Cand: -1, Status: "failed", By: "generator"}
			res.Obls = append(ex.obls, o)
		}
	}()
	declElem()
	a0 := mkConst("alloc0", SInt)
	ex.newInst()
	st := &State{guard: tTrue, inst: 0, heaps: map[string]*Term{}, cells: map[*Term]Val{}, flushed: map[*Term]bool{}, ghosts: map[string]*Term{}, alloc: a0}
	ex.entry = st
	ex.assume(st, mkLt(tZero, a0))
	var args []Val
	var ats []types.Type
	for _, p := range f.Params {
		v := freshVal("p."+p.Name(), p.Type())
		ex.wfVal(st, v, p.Type())
		args = append(args, v)
		ats = append(ats, p.Type())
		ex.paramObj[p.Name()] = v
		ex.paramTyp[p.Name()] = p.Type()
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			st.ghosts["called:"+v[0].Name] = mkConstArr(arrSort(SInt, SBool), tFalse)
		}
	}
	ex.entry = st.clone()
	for _, ax := range w.axioms {
		ex.assumeAxiom(st, ax)
	}
	var rec *specRec
	if con != nil {
		rec = ex.specEntry(st, con, args, ats, key)
		for _, r := range rec.requires {
			ex.assume(st, r.t)
		}
		for _, r := range rec.assumes {
			ex.assume(st, r.t)
			ex.assume_["assumption "+r.name+" in "+con.fn.Name()] = true
		}
		ex.invs = rec.invs
		ex.mods = rec.mods
		ex.decs = rec.decs
	}
	ex.entry = st.clone()
	if rec != nil {
		rec.entry = ex.entry
	}
	fr := &frame{ex: ex, fn: f, env: map[ssa.Value]Val{}, allocs: map[*ssa.Alloc]*Term{}}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	res.Blocks = len(f.Blocks)
	ex.stack = []*ssa.Function{f}
	fr.runBody(st)
	sres := f.Signature.Results()
	for ri, r := range fr.rets {
		v := ex.escVal(r.st, r.v)
		fr.rets[ri].v = v
		if rec == nil {
			continue
		}
		for _, e := range rec.ensures {
			t := ex.evalBool(e, r.st, ex.bindResults(e, v, sres))
			for _, c := range splitAnd(t) {
				ex.oblige(r.st, "ensures", e.name, c)
			}
		}
		ex.frameObl(r.st, rec)
	}
	res.Returns = fr.rets
	res.Obls = ex.obls
	return res
}

// splitAnd lists the conjuncts of t, each simplified by the earlier ones.
func splitAnd(t *Term) []*Term {
	var out []*Term
	known := map[*Term]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		if len(known) > 0 && (t.Op == "and" || t.Op == "or" || t.Op == "not" || t.Op == "=>" || t.Op == "ite") {
			t = subst(t, known)
		}
		switch {
		case t.Op == "and":
			for _, a := range t.Args {
				add(a)
			}
		case t == mkBool(true):
		default:
			out = append(out, t)
			known[t] = mkBool(true)
			known[mkNot(t)] = mkBool(false)
		}
	}
	add(t)
	if len(out) == 0 {
		return []*Term{mkBool(true)}
	}
	return out
}

func (ex *Ex) assumeAxiom(st *State, ax *Contract) {
	ps := ex.pureState(st)
	ps.heaps = map[string]*Term{}
	ex.inAxiom, ex.axHeaps = true, map[string]*Term{}
	ex.pure++
	ns, v := ex.runInline(ps, ax.fn, nil, nil, nil)
	ex.pure--
	ex.inAxiom = false
	if ns == nil {
		panic(unsupportedErr{"axiom " + ax.fn.Name()})
	}
	m := map[*Term]*Term{}
	for k, b := range ex.axHeaps {
		m[b] = ex.initHeap(k, arrElem(b.Sort))
	}
	if len(m) > 0 {
		v[0] = subst(v[0], m)
	}
	for _, c := range splitAnd(v[0]) {
		for _, c := range limitRecursion(c) {
			axiomTerm[c] = true
			ex.facts = append(ex.facts, Fact{c, 0, -1})
		}
	}
	ex.axiomsUsed = append(ex.axiomsUsed, ax.fn.Name())
}

// limitRecursion: a defining equation f(x) = ... f(y) ... would unfold without
// end. The inner applications are replaced by a second symbol that equals f
// but does not trigger the equation.
func limitRecursion(c *Term) []*Term {
	if c.Op != "forall" || len(c.Pats) == 0 || len(c.Args) == 0 {
		return []*Term{c}
	}
	var head *Term
	for _, p := range c.Pats {
		if len(p) == 1 && p[0].Op == "fun" && strings.HasPrefix(p[0].Name, "pf") {
			head = p[0]
			break
		}
	}
	if head == nil {
		return []*Term{c}
	}
	var inner []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "fun" && t.Name == head.Name && t != head {
			inner = append(inner, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(c.Args[0])
	if len(inner) == 0 {
		return []*Term{c}
	}
	var bs []*Term
	for i, a := range head.Args {
		bs = append(bs, mkNamedBound(fmt.Sprintf("la%d", i), a.Sort))
	}
	var out []*Term
	const fuel = 1
	name := func(k int) string { return strings.Repeat("lim.", k) + head.Name }
	for k := 0; k < fuel; k++ {
		h := mkFun(name(k), head.Sort, head.Args...)
		m := map[*Term]*Term{head: h}
		for _, t := range inner {
			m[t] = mkFun(name(k+1), t.Sort, t.Args...)
		}
		f, l := mkFun(name(k), head.Sort, bs...), mkFun(name(k+1), head.Sort, bs...)
		out = append(out, mkForallPat(c.Bound, subst(c.Args[0], m), []*Term{h}),
			mkForallPat(bs, mkEq(f, l), []*Term{f}))
	}
	return out
}

// frameObl: locations outside the modifies clause keep their entry value.
func (ex *Ex) frameObl(st *State, rec *specRec) {
	var keys []string
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := st.heaps[k]
		h0 := ex.heapInit[k]
		if eh, ok := ex.entry.heaps[k]; ok {
			h0 = eh
		}
		if h == h0 {
			continue
		}
		if rec.modAll[k] {
			continue
		}
		a := mkConst("frame", SInt)
		conds := append([]*Term{mkLt(mkFun("root", SInt, a), ex.entry.alloc)}, ex.outsideMods(rec.mods, k, a)...)
		ex.oblige(st, "frame", k, mkImp(mkAnd(conds...), mkEq(mkSelect(h, a), mkSelect(h0, a))))
	}
}

// outsideMods: address a of heap k is covered by none of the clauses.
func (ex *Ex) outsideMods(mods []modSpec, k string, a *Term) []*Term {
	var conds []*Term
	for _, m := range mods {
		for _, c := range ex.modAddrs(m, k, a) {
			x := mkNot(c)
			if m.cond != nil {
				x = mkImp(m.cond, x)
			}
			conds = append(conds, x)
		}
	}
	return conds
}

// modAddrs lists conditions under which address a of heap k is covered.
func (ex *Ex) modAddrs(m modSpec, k string, a *Term) []*Term {
	var out []*Term
	switch u := m.t.Underlying().(type) {
	case *types.Pointer:
		for _, l := range locs(u.Elem(), m.v[0]) {
			if l.Key == k {
				out = append(out, mkEq(a, l.Addr))
			}
		}
	case *types.Map:
		mk := ex.mapKeys(u)
		if k == mk.dom || k == mk.ln {
			out = append(out, mkEq(a, m.v[0]))
		}
		for _, v := range mk.vals {
			if v == k {
				out = append(out, mkEq(a, m.v[0]))
			}
		}
	case *types.Slice:
		keys := map[string]Sort{}
		typeKeys(u.Elem(), keys)
		if _, ok := keys[k]; ok {
			out = append(out, mkEq(mkFun("root", SInt, a), tRoot(m.v[0])))
		}
	}
	return out
}
