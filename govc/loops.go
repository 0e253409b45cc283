package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks []*ssa.BasicBlock // rpo order, header first
	set    map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loop
}

func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := w.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	// back edges
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &loop{header: s, set: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = l
				}
				// natural loop
				var stack []*ssa.BasicBlock
				if !l.set[b] {
					l.set[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.set[p] && seen[p] {
							l.set[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// Reverse postorder does not keep loops contiguous when a loop exit is
	// visited first; order loop bodies before the blocks after the loop.
	li.rpo = orderBlocks(li)
	for _, l := range li.headers {
		for _, b := range li.rpo {
			if l.set[b] {
				l.blocks = append(l.blocks, b)
			}
		}
	}
	w.loopCache[fn] = li
	return li
}

// orderBlocks is a topological order of the acyclic graph where each loop is
// kept contiguous: a block outside a loop comes after the whole loop if it is
// reachable from it.
func orderBlocks(li *loopInfo) []*ssa.BasicBlock {
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		idx[b] = i
	}
	// Iteratively: position of each block is fine in rpo except that loop
	// bodies must precede exit targets. runBlocks treats a loop as a unit when
	// it meets the header, and exits are delivered then, so a block following
	// the loop must come after the header only. RPO guarantees that.
	return li.rpo
}

// runLoop executes a loop with invariants and returns its exit edges.
func (fr *frame) runLoop(l *loop, es []edge) map[*ssa.BasicBlock][]edge {
	ex := fr.ex
	st0 := fr.enter(l.header, es)
	hname := fmt.Sprintf("%s.%s", fr.fn.Name(), l.header.Comment)

	modCells := map[*Term]bool{}
	modHeaps := map[string]bool{}
	modGhost := map[string]bool{}
	modAlloc := false
	preflush := map[*Term]bool{}

	var st1 *State
	var headSeq0 int
	var cmps []*Term
	var storeAddrs map[string][]*Term
	var lastBack []edge
	for iter := 0; ; iter++ {
		if iter > 40 {
			ex.unsupported(st0, "loop fixpoint")
			return nil
		}
		for c := range preflush {
			if _, ok := st0.cells[c]; ok {
				ex.flush(st0, c)
			}
		}
		escCells(ex, st0, modCells)
		for c := range modCells {
			if _, ok := st0.cells[c]; !ok {
				delete(modCells, c)
			}
		}
		st1 = st0.clone()
		st1.inst = ex.newInst(st0.inst)
		st1.guard = st0.guard
		headSeq0 = constCount
		for _, c := range sortedTerms(modCells) {
			v := st1.cells[c]
			if v == nil {
				continue
			}
			nv := make(Val, len(v))
			for i := range v {
				nv[i] = mkConst(ex.cellHint(c), v[i].Sort)
			}
			st1.cells[c] = nv
		}
		for _, k := range sortedKeys(modHeaps) {
			st1.heaps[k] = mkConst("H."+k, ex.heapInit[k].Sort)
		}
		for _, k := range sortedKeys(modGhost) {
			st1.ghosts[k] = mkConst("g."+k, st1.ghosts[k].Sort)
		}
		if modAlloc {
			st1.alloc = mkConst("alloc", SInt)
		}
		saveCmps, saveStores := ex.cmps, ex.stores
		ex.cmps = nil
		ex.stores = map[string][]*Term{}
		ex.dry++
		// phis at the header are evaluated by enter; header phis of loops do
		// not occur in naive form except for logical operators
		back := fr.runBlocks(l.blocks, map[*ssa.BasicBlock][]edge{l.header: {{st1.clone(), nil}}}, l.header, nil)
		ex.dry--
		cmps, storeAddrs = ex.cmps, ex.stores
		ex.cmps, ex.stores = append(saveCmps, cmps...), saveStores
		if ex.stores != nil {
			for k, v := range storeAddrs {
				ex.stores[k] = append(ex.stores[k], v...)
			}
		}
		lastBack = back
		changed := false
		for _, b := range back {
			escCells(ex, b.st, modCells)
			for c, v := range st1.cells {
				bv, ok := b.st.cells[c]
				if !ok {
					if !preflush[c] {
						preflush[c] = true
						changed = true
					}
					continue
				}
				if !sameVal(v, bv) && !modCells[c] {
					modCells[c] = true
					changed = true
				}
			}
			for k, v := range b.st.heaps {
				h, ok := st1.heaps[k]
				if !ok {
					h = ex.heapInit[k]
				}
				if h != v && !modHeaps[k] {
					modHeaps[k] = true
					changed = true
				}
			}
			for k, v := range st1.ghosts {
				if b.st.ghosts[k] != v && !modGhost[k] {
					modGhost[k] = true
					changed = true
				}
			}
			if b.st.alloc != st1.alloc && !modAlloc {
				modAlloc = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	headSeq1 := constCount // not tight; recomputed below
	_ = headSeq1
	// types of modified pointer-like cells: basic facts
	for _, c := range sortedTerms(modCells) {
		if v, ok := st1.cells[c]; ok {
			ex.wfVal(st1, v, ex.cellType[c])
		}
	}
	if modAlloc {
		ex.assume(st1, mkLe(st0.alloc, st1.alloc))
	}
	for _, k := range sortedKeys(modGhost) {
		if st1.ghosts[k].Sort == SInt {
			ex.assume(st1, mkLe(st0.ghosts[k], st1.ghosts[k]))
		}
	}

	// ---- candidates ----
	type candT struct {
		idx  int
		eval func(st *State) *Term
	}
	var cands []candT
	addCand := func(name string, user bool, eval func(st *State) *Term) {
		if ex.dry > 0 {
			return
		}
		ex.cands = append(ex.cands, &Cand{Name: name, User: user, Alive: true, Loop: hname})
		cands = append(cands, candT{len(ex.cands) - 1, eval})
	}
	if ex.dry == 0 {
		headConsts := map[*Term]func(*State) *Term{}
		var hcs []*Term
		reg := func(t *Term, f func(*State) *Term) {
			if t.Op == "var" && t.seq > headSeq0 {
				headConsts[t] = f
				hcs = append(hcs, t)
			}
		}
		for _, c := range sortedTerms(modCells) {
			c := c
			for i, t := range st1.cells[c] {
				i := i
				reg(t, func(s *State) *Term { return s.cells[c][i] })
			}
		}
		for _, k := range sortedKeys(modHeaps) {
			k := k
			reg(st1.heaps[k], func(s *State) *Term { return s.heaps[k] })
		}
		maxHead := headSeq0
		for _, t := range hcs {
			if t.seq > maxHead {
				maxHead = t.seq
			}
		}
		if modAlloc && st1.alloc.seq > maxHead {
			maxHead = st1.alloc.seq
		}
		for _, k := range sortedKeys(modGhost) {
			if st1.ghosts[k].seq > maxHead {
				maxHead = st1.ghosts[k].seq
			}
		}
		// user invariants
		iterOf := fr.iterFn(st0, st1, modCells, lastBack)
		for _, sc := range ex.invs {
			sc := sc
			for _, binder := range fr.bindInvariant(sc, l, st0, iterOf) {
				binder := binder
				t1, ok := fr.evaluable(sc, st1, binder)
				if !ok {
					continue
				}
				if t0, ok := fr.evaluable(sc, st0, binder); ok && t0 == t1 {
					continue // about nothing the loop changes
				}
				addCand(sc.name, true, func(s *State) *Term {
					args, ok := binder(s)
					if !ok {
						return tFalse
					}
					return ex.evalBool(sc, s, args)
				})
			}
		}
		// linear relations between two numeric leaves
		type numLeaf struct {
			name string
			get  func(*State) *Term
			d    []*Term
		}
		var nls []numLeaf
		for _, c := range sortedTerms(modCells) {
			c := c
			for _, i := range numericLeaves(ex.cellType[c]) {
				i := i
				h := st1.cells[c]
				if h == nil || st0.cells[c] == nil || h[i] == st0.cells[c][i] {
					continue
				}
				nl := numLeaf{name: fmt.Sprintf("%s.%d", ex.cellHint(c), i), get: func(s *State) *Term {
					if v := s.cells[c]; v != nil {
						return v[i]
					}
					return nil
				}}
				changed := false
				for _, b := range lastBack {
					if v := b.st.cells[c]; v != nil {
						d := mkSub(v[i], h[i])
						if d != tZero {
							changed = true
						}
						nl.d = append(nl.d, d)
					}
				}
				if changed {
					nls = append(nls, nl)
				}
			}
		}
		if len(nls) > 14 {
			nls = nls[:14]
		}
		for i, x := range nls {
			for _, y := range nls[i+1:] {
				x, y := x, y
				ox, oy := x.get(st0), y.get(st0)
				same, opp := true, true
				if len(x.d) == len(y.d) {
					for k := range x.d {
						a, aok := isInt(x.d[k])
						b, bok := isInt(y.d[k])
						if aok && bok {
							same = same && a == b
							opp = opp && a == -b
						} else if (aok && a == 0) != (bok && b == 0) {
							same, opp = false, false
						}
					}
				}
				if same {
					addCand("auto:"+x.name+"-"+y.name, false, func(s *State) *Term {
						return mkEq(mkAdd(x.get(s), oy), mkAdd(y.get(s), ox))
					})
				}
				if opp {
					addCand("auto:"+x.name+"+"+y.name, false, func(s *State) *Term {
						return mkEq(mkAdd(x.get(s), y.get(s)), mkAdd(ox, oy))
					})
				}
			}
		}
		// comparisons
		seen := map[*Term]bool{}
		nc := 0
		for _, t := range cmps {
			if nc > 30 || seen[t] || t.bound || t.seq > maxHead || t.Op == "true" || t.Op == "false" {
				continue
			}
			seen[t] = true
			has := false
			for h := range headConsts {
				if h.Sort == SInt && contains(t, h) {
					has = true
				}
			}
			if !has {
				continue
			}
			nc++
			t := t
			addCand("auto:"+short(t.String()), false, func(s *State) *Term {
				m := map[*Term]*Term{}
				for h, f := range headConsts {
					if contains(t, h) {
						x := f(s)
						if x == nil {
							return tFalse
						}
						m[h] = x
					}
				}
				return subst(t, m)
			})
		}
		for _, c := range sortedTerms(modCells) {
			c := c
			t := ex.cellType[c]
			v0 := st0.cells[c]
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					addCand("auto:"+ex.cellHint(c)+">=init", false, func(s *State) *Term { return mkLe(v0[0], s.cells[c][0]) })
					addCand("auto:"+ex.cellHint(c)+"<=init", false, func(s *State) *Term { return mkLe(s.cells[c][0], v0[0]) })
					addCand("auto:"+ex.cellHint(c)+">=0", false, func(s *State) *Term { return mkLe(tZero, s.cells[c][0]) })
				}
			case *types.Pointer, *types.Map:
				if pt, ok := u.(*types.Pointer); ok {
					// one of the local variables of that type
					var locals []*Term
					for _, f := range sortedTerms(st0.flushed) {
						if ft, ok := ex.cellType[f]; ok && types.Identical(ft, pt.Elem()) {
							locals = append(locals, f)
						}
					}
					if len(locals) > 0 && len(locals) <= 4 {
						addCand("auto:"+ex.cellHint(c)+" local", false, func(s *State) *Term {
							var eqs []*Term
							for _, f := range locals {
								eqs = append(eqs, mkEq(s.cells[c][0], f))
							}
							return mkOr(eqs...)
						})
					}
				}
				addCand("auto:"+ex.cellHint(c)+" fresh", false, func(s *State) *Term { return mkLe(ex.entry.alloc, tRoot(s.cells[c][0])) })
				addCand("auto:"+ex.cellHint(c)+"!=nil", false, func(s *State) *Term { return mkNot(mkEq(s.cells[c][0], tZero)) })
			case *types.Interface:
				addCand("auto:"+ex.cellHint(c)+"!=nil", false, func(s *State) *Term { return mkNot(mkEq(s.cells[c][0], tZero)) })
			case *types.Slice:
				if !isSeq(t) {
					addCand("auto:"+ex.cellHint(c)+" fresh", false, func(s *State) *Term {
						v := s.cells[c]
						return mkOr(mkEq(v[3], tZero), mkLe(ex.entry.alloc, tRoot(v[0])))
					})
				}
			}
		}
		// heap frames
		for _, k := range sortedKeys(modHeaps) {
			k := k
			srt := arrElem(ex.heapInit[k].Sort)
			_ = srt
			cur := func(s *State) *Term {
				if h, ok := s.heaps[k]; ok {
					return h
				}
				return ex.heapInit[k]
			}
			h0 := cur(st0)
			hE := ex.heapInit[k]
			if eh, ok := ex.entry.heaps[k]; ok {
				hE = eh
			}
			a := mkNamedBound("fa", SInt)
			declElem()
			rootA := mkFun("root", SInt, a)
			addCand("auto:frame-entry "+k, false, func(s *State) *Term {
				return mkForallPat([]*Term{a}, mkImp(mkLt(rootA, ex.entry.alloc), mkEq(mkSelectRaw(cur(s), a), mkSelectRaw(hE, a))), []*Term{mkSelectRaw(cur(s), a)})
			})
			if out := ex.outsideMods(ex.mods, k, a); len(out) > 0 {
				addCand("auto:frame-modifies "+k, false, func(s *State) *Term {
					return mkForallPat([]*Term{a}, mkImp(mkAnd(append([]*Term{mkLt(rootA, ex.entry.alloc)}, out...)...), mkEq(mkSelectRaw(cur(s), a), mkSelectRaw(hE, a))), []*Term{mkSelectRaw(cur(s), a)})
				})
			}
			var excl, exclRoot []*Term
			bad := false
			for _, ad := range storeAddrs[k] {
				if ad.seq <= headSeq0 && !ad.bound {
					excl = append(excl, mkEq(a, ad))
					exclRoot = append(exclRoot, mkEq(rootA, tRoot(ad)))
					continue
				}
				r := tRoot(ad)
				if r.seq <= headSeq0 {
					exclRoot = append(exclRoot, mkEq(rootA, r))
					bad = true
					continue
				}
				// slices held in loop-modified variables: cannot name; the
				// location must be fresh for the frame to hold
			}
			if !bad {
				addCand("auto:frame-loop "+k, false, func(s *State) *Term {
					return mkForallPat([]*Term{a}, mkImp(mkAnd(mkLt(rootA, st0.alloc), mkNot(mkOr(excl...))), mkEq(mkSelectRaw(cur(s), a), mkSelectRaw(h0, a))), []*Term{mkSelectRaw(cur(s), a)})
				})
			} else {
				addCand("auto:frame-loop-root "+k, false, func(s *State) *Term {
					return mkForallPat([]*Term{a}, mkImp(mkAnd(mkLt(rootA, st0.alloc), mkNot(mkOr(exclRoot...))), mkEq(mkSelectRaw(cur(s), a), mkSelectRaw(h0, a))), []*Term{mkSelectRaw(cur(s), a)})
				})
			}
		}
	}
	// initiation
	ex.loopSave(func() {
		for _, c := range cands {
			ex.candOblige(st0, c.idx, "init", c.eval(st0))
		}
	})
	for _, c := range cands {
		t := c.eval(st1)
		ex.assumeC(st1, t, c.idx)
	}
	// real run
	exits := map[*ssa.BasicBlock][]edge{}
	back := fr.runBlocks(l.blocks, map[*ssa.BasicBlock][]edge{l.header: {{st1, nil}}}, l.header, exits)
	if ex.dry > 0 {
		// results are only used for mod analysis
		return exits
	}
	if len(back) > 0 && len(cands) > 0 {
		var sts []*State
		for _, b := range back {
			escCells(ex, b.st, modCells)
			sts = append(sts, b.st)
		}
		bs := ex.merge(sts)
		ex.loopSave(func() {
			for _, c := range cands {
				ex.candOblige(bs, c.idx, "step", c.eval(bs))
			}
		})
	}
	if os.Getenv("GOVC_LOOPS") != "" {
		var names []string
		for _, c := range cands {
			names = append(names, ex.cands[c.idx].Name)
		}
		fmt.Fprintf(os.Stderr, "loop %s: modcells=%d heaps=%v cands=%v\n", hname, len(modCells), sortedKeys(modHeaps), names)
	}
	return exits
}

// escCells moves local variables whose address is held in a variable that a
// loop changes to the heap, since the loop forgets what that variable holds.
func escCells(ex *Ex, st *State, cells map[*Term]bool) {
	for _, c := range sortedTerms(cells) {
		v, ok := st.cells[c]
		if !ok {
			continue
		}
		for i, t := range v {
			if n := ex.escTerm(st, t); n != t {
				v = append(Val(nil), st.cells[c]...)
				v[i] = n
				st.cells[c] = v
			}
		}
	}
}

// loopSave keeps facts generated while evaluating candidate obligations (they
// are ground well-formedness facts) -- nothing to restore.
func (ex *Ex) loopSave(f func()) { f() }

func (ex *Ex) candOblige(st *State, cand int, phase string, goal *Term) {
	if ex.dry > 0 {
		return
	}
	c := ex.cands[cand]
	o := &Obl{Fn: ex.target, Kind: "invariant-" + phase, Name: c.Loop + "/" + c.Name, Inst: st.inst, NFacts: len(ex.facts), Cand: cand}
	full := ex.target + "/" + o.Kind + ":" + o.Name
	ex.names[full]++
	if n := ex.names[full]; n > 1 {
		full = fmt.Sprintf("%s#%d", full, n)
	}
	o.Full = full
	o.Goal = mkImp(st.guard, goal)
	if o.Goal.Op == "true" {
		o.Status = "proved"
		o.By = "simplifier"
	}
	ex.obls = append(ex.obls, o)
}

func mkSelectRaw(arr, k *Term) *Term {
	return mkSelect(arr, k)
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// iterFn finds a loop counter (a cell increased by one per iteration) and
// returns the number of completed iterations as a function of the state.
func (fr *frame) iterFn(st0, st1 *State, mod map[*Term]bool, back []edge) func(*State) *Term {
	ex := fr.ex
	var best *Term
	for _, c := range sortedTerms(mod) {
		v := st1.cells[c]
		if len(v) != 1 || v[0].Sort != SInt {
			continue
		}
		if b, ok := ex.cellType[c].Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		ok := len(back) > 0
		for _, b := range back {
			bv := b.st.cells[c]
			if bv == nil {
				ok = false
				break
			}
			d := mkSub(bv[0], v[0])
			if n, isC := isInt(d); !isC || n != 1 {
				ok = false
			}
		}
		if ok {
			if best == nil || strings.HasPrefix(c.Name, "rangeindex") {
				best = c
			}
		}
	}
	if best == nil {
		return nil
	}
	init := st0.cells[best][0]
	return func(s *State) *Term {
		v := s.cells[best]
		if v == nil {
			return nil
		}
		return mkSub(v[0], init)
	}
}

// bindInvariant resolves the closure's parameters to program variables. A
// parameter is matched by name and type; if there is no such variable, every
// visible variable of the type is tried, so that an invariant survives a
// renaming of the variable.
func (fr *frame) bindInvariant(sc *specClosure, l *loop, st0 *State, iterOf func(*State) *Term) []func(*State) ([]Val, bool) {
	ex := fr.ex
	fn := sc.clo.fn
	type getter func(*State) Val
	combos := [][]getter{nil}
	for _, p := range fn.Params {
		p := p
		name := p.Name()
		var gs []getter
		if name == "iter" {
			if iterOf == nil {
				return nil
			}
			gs = append(gs, func(s *State) Val {
				t := iterOf(s)
				if t == nil {
					return nil
				}
				return Val{t}
			})
		} else if ptr, _ := fr.lookupVar(name, p.Type(), l, st0); ptr != nil {
			gs = append(gs, func(s *State) Val { return ex.load(s, ptr, p.Type()) })
		} else if v, ok := ex.paramObj[name]; ok && types.Identical(ex.paramTyp[name], p.Type()) {
			// loop-independent values: parameters of the verified function
			gs = append(gs, func(*State) Val { return v })
		} else {
			for _, ptr := range fr.varsOfType(p.Type(), l, st0) {
				ptr := ptr
				gs = append(gs, func(s *State) Val { return ex.load(s, ptr, p.Type()) })
			}
		}
		var next [][]getter
		for _, c := range combos {
			for _, g := range gs {
				next = append(next, append(c[:len(c):len(c)], g))
			}
		}
		combos = next
		if len(combos) > 24 {
			combos = combos[:24]
		}
	}
	var out []func(*State) ([]Val, bool)
	for _, c := range combos {
		c := c
		out = append(out, func(s *State) ([]Val, bool) {
			var out []Val
			for _, g := range c {
				v := g(s)
				if v == nil {
					return nil, false
				}
				out = append(out, v)
			}
			return out, true
		})
	}
	return out
}

// evaluable: the invariant makes sense for this loop (it does not, say, talk
// about visited keys outside a map iteration).
func (fr *frame) evaluable(sc *specClosure, st *State, binder func(*State) ([]Val, bool)) (t *Term, ok bool) {
	ex := fr.ex
	pure, stack, spec, qd := ex.pure, len(ex.stack), len(ex.w.specStack), ex.qdepth
	defer func() {
		if r := recover(); r != nil {
			if u, isU := r.(unsupportedErr); !isU || !strings.HasPrefix(u.msg, "Visited") {
				panic(r)
			}
			ex.pure, ex.stack, ex.w.specStack, ex.qdepth = pure, ex.stack[:stack], ex.w.specStack[:spec], qd
			ok = false
		}
	}()
	if args, ok := binder(st); ok {
		return ex.evalBool(sc, st, args), true
	}
	return tFalse, true
}

// varsOfType lists the visible local variables of a type.
func (fr *frame) varsOfType(t types.Type, l *loop, st *State) []*Term {
	var out []*Term
	for f := fr; f != nil; f = f.parent {
		var as []*ssa.Alloc
		for a := range f.allocs {
			if a.Comment == "" || !types.Identical(a.Type().(*types.Pointer).Elem(), t) {
				continue
			}
			if f == fr && l != nil && (!a.Block().Dominates(l.header) || l.set[a.Block()] && a.Block() != l.header) {
				continue
			}
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
		for _, a := range as {
			p := f.allocs[a]
			if _, ok := st.cells[p]; ok || st.flushed[p] {
				out = append(out, p)
			}
		}
	}
	return out
}

// numericLeaves lists the leaves of a type that hold numbers: integers, and
// the offset and length of slices.
func numericLeaves(t types.Type) []int {
	var out []int
	var rec func(t types.Type, base int)
	rec = func(t types.Type, base int) {
		if isOpaque(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				out = append(out, base)
			}
		case *types.Slice:
			if isSeq(t) {
				return
			}
			out = append(out, base+1, base+2)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), base)
				base += len(leafSorts(u.Field(i).Type()))
			}
		}
	}
	rec(t, 0)
	return out
}

// lookupVar finds the source variable visible at the loop by name and type.
func (fr *frame) lookupVar(name string, t types.Type, l *loop, st *State) (*Term, types.Type) {
	ex := fr.ex
	want := name
	for f := fr; f != nil; f = f.parent {
		var best *ssa.Alloc
		for a := range f.allocs {
			if a.Comment != want {
				continue
			}
			at := a.Type().(*types.Pointer).Elem()
			if !types.Identical(at, t) {
				continue
			}
			if f == fr && l != nil && !a.Block().Dominates(l.header) {
				continue
			}
			if f == fr && l != nil && l.set[a.Block()] && a.Block() != l.header {
				continue
			}
			if best == nil || later(a, best) {
				best = a
			}
		}
		if best != nil {
			p := f.allocs[best]
			if _, ok := st.cells[p]; ok || st.flushed[p] {
				return p, best.Type().(*types.Pointer).Elem()
			}
		}
		for i, fv := range f.fn.FreeVars {
			if fv.Name() == want {
				if pt, ok := fv.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
					return f.free[i][0], pt.Elem()
				}
			}
		}
	}
	_ = ex
	return nil, nil
}

func later(a, b *ssa.Alloc) bool {
	if a.Block() != b.Block() {
		return b.Block().Dominates(a.Block())
	}
	return a.Pos() > b.Pos()
}
