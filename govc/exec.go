package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	T    *Term
	Inst int
	Cand int // -1, or index into cands: the fact holds only while the candidate is kept
}

type Obl struct {
	Fn     string
	Kind   string
	Name   string
	Full   string
	Goal   *Term // already guarded
	Inst   int
	NFacts int
	Cand   int // >=0: obligation of a loop invariant candidate
	Pos    string
	Status string // proved, failed, unknown, trivial
	By     string
	Ms     int64
	Model  string
	Script string
}

type Cand struct {
	Name   string
	User   bool
	Alive  bool
	Loop   string
	Reason string
}

type State struct {
	guard   *Term
	outer   *Term // guard of the code around a specification
	inst    int
	heaps   map[string]*Term
	cells   map[*Term]Val
	flushed map[*Term]bool
	ghosts  map[string]*Term
	alloc   *Term
	dead    bool
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, outer: s.outer, inst: s.inst, alloc: s.alloc, dead: s.dead}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.cells = make(map[*Term]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.flushed = make(map[*Term]bool, len(s.flushed))
	for k := range s.flushed {
		n.flushed[k] = true
	}
	n.ghosts = make(map[string]*Term, len(s.ghosts))
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	return n
}

type ptrInfo struct {
	base *Term
	st   types.Type // struct type (field) or array type
	idx  int        // field index, or array index
	isAr bool
}

type closure struct {
	fn    *ssa.Function
	binds []Val
}

type iterInfo struct {
	m        *Term
	mt       *types.Map
	domStart *Term
	str      *Term // string iteration
	ghost    string
}

// Ex verifies one function.
type Ex struct {
	w      *World
	target string
	facts  []Fact
	obls   []*Obl
	insts  [][]int
	dry    int
	pure   int
	qdepth int
	cands  []*Cand

	heapInit map[string]*Term
	ptrs     map[*Term]ptrInfo
	closures map[*Term]*closure
	cellType map[*Term]types.Type
	globals  map[*Term]Val
	iters    map[*Term]*iterInfo
	names    map[string]int
	stack    []*ssa.Function
	assume_  map[string]bool // assumptions used
	entry    *State
	cmps     []*Term // comparisons seen in a dry run (candidate material)
	stores   map[string][]*Term

	invs       []*specClosure // loop invariants of the contract
	mods       []modSpec      // modifies clauses of the contract
	decs       []*specClosure
	paramObj   map[string]Val
	paramTyp   map[string]types.Type
	lastPos    string
	touched    map[string]bool
	inAxiom    bool
	entryId    *Term // names the entry state for entry specifications
	axHeaps    map[string]*Term
	usedCon    map[string]bool
	axiomsUsed []string
	extra      *Term
}

type unsupportedErr struct{ msg string }

func (ex *Ex) newInst(parents ...int) int {
	ex.insts = append(ex.insts, parents)
	return len(ex.insts) - 1
}

func (ex *Ex) heap(st *State, key string, s Sort) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	if ex.inAxiom {
		b, ok := ex.axHeaps[key]
		if !ok {
			b = mkNamedBound("hq."+sanitize(key), arrSort(SInt, s))
			ex.axHeaps[key] = b
		}
		return b
	}
	return ex.initHeap(key, s)
}

func (ex *Ex) initHeap(key string, s Sort) *Term {
	h, ok := ex.heapInit[key]
	if !ok {
		h = mkNamed("H0."+key, arrSort(SInt, s))
		ex.heapInit[key] = h
	}
	return h
}

func (ex *Ex) heapSort(key string) Sort {
	return ex.heapInit[key].Sort
}

func (ex *Ex) assume(st *State, t *Term) { ex.assumeC(st, t, -1) }

func (ex *Ex) assumeC(st *State, t *Term, cand int) {
	if ex.dry > 0 || t.Op == "true" || st.dead {
		return
	}
	if t.bound || st.guard.bound {
		return
	}
	g := mkImp(st.guard, t)
	if st.outer != nil {
		g = mkImp(st.outer, g)
	}
	if g.Op == "true" {
		return
	}
	ex.facts = append(ex.facts, Fact{g, st.inst, cand})
}

// quiet facts in pure mode: allowed only when ground.
func (ex *Ex) wf(st *State, t *Term) {
	if ex.pure > 0 && ex.qdepth > 0 && t.bound {
		return
	}
	ex.assume(st, t)
}

func (ex *Ex) oblige(st *State, kind, name string, goal *Term) *Obl {
	if ex.pure > 0 {
		return nil
	}
	if ex.dry > 0 || st.dead {
		return nil
	}
	o := &Obl{Fn: ex.target, Kind: kind, Name: name, Inst: st.inst, NFacts: len(ex.facts), Cand: -1, Pos: ex.lastPos}
	full := ex.target + "/" + kind + ":" + name
	ex.names[full]++
	if n := ex.names[full]; n > 1 {
		full = fmt.Sprintf("%s#%d", full, n)
	}
	o.Full = full
	o.Goal = mkImp(st.guard, goal)
	if o.Goal.Op == "true" {
		o.Status = "proved"
		o.By = "simplifier"
	}
	ex.obls = append(ex.obls, o)
	ex.assume(st, goal)
	return o
}

func (ex *Ex) unsupported(st *State, what string) {
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "unsupported:", ex.target, what, ex.lastPos)
	}
	if ex.pure > 0 {
		panic(unsupportedErr{"in specification: " + what})
	}
	ex.oblige(st, "unsupported", what, tFalse)
	st.dead = true
}

// ---- memory ----

// live resolves a pointer term to a live Go-side cell range.
func (ex *Ex) live(st *State, p *Term) (cell *Term, off, n int, t types.Type, ok bool) {
	if v, ok := st.cells[p]; ok {
		return p, 0, len(v), ex.cellType[p], true
	}
	if v, ok := ex.globals[p]; ok {
		return p, 0, len(v), ex.cellType[p], true
	}
	if pi, ok := ex.ptrs[p]; ok {
		c, o, _, bt, ok := ex.live(st, pi.base)
		if !ok {
			return nil, 0, 0, nil, false
		}
		if pi.isAr {
			at, isA := bt.Underlying().(*types.Array)
			if !isA {
				return nil, 0, 0, nil, false
			}
			ln := len(leafSorts(at.Elem()))
			return c, o + ln*pi.idx, ln, at.Elem(), true
		}
		sst, isS := bt.Underlying().(*types.Struct)
		if !isS {
			return nil, 0, 0, nil, false
		}
		fo, fn := fieldOff(sst, pi.idx)
		return c, o + fo, fn, sst.Field(pi.idx).Type(), true
	}
	return nil, 0, 0, nil, false
}

func (ex *Ex) cellVal(st *State, c *Term) Val {
	if v, ok := st.cells[c]; ok {
		return v
	}
	return ex.globals[c]
}

// locsOf gives the heap locations behind a pointer that is not live.
func (ex *Ex) locsOf(st *State, p *Term, t types.Type) []Loc {
	if pi, ok := ex.ptrs[p]; ok {
		b := ex.realAddr(st, pi.base)
		if pi.isAr {
			return locs(t, mkElem(b, mkInt(int64(pi.idx))))
		}
		return fieldLocs(pi.st, pi.idx, b)
	}
	return locs(t, p)
}

// realAddr is the heap address denoted by a (possibly pseudo) pointer; live
// cells are flushed.
func (ex *Ex) realAddr(st *State, p *Term) *Term {
	if _, ok := st.cells[p]; ok {
		ex.flush(st, p)
		return p
	}
	if pi, ok := ex.ptrs[p]; ok {
		b := ex.realAddr(st, pi.base)
		if pi.isAr {
			return mkElem(b, mkInt(int64(pi.idx)))
		}
		return fldAddr(pi.st, pi.idx, b)
	}
	return p
}

// flush moves a live cell to the heap at a fresh address.
func (ex *Ex) flush(st *State, p *Term) {
	v, ok := st.cells[p]
	if !ok {
		return
	}
	if ex.pure > 0 {
		panic(unsupportedErr{"cell escapes in specification"})
	}
	delete(st.cells, p)
	st.flushed[p] = true
	declElem()
	ex.assume(st, mkAnd(mkEq(p, st.alloc), mkEq(tRoot(p), p), mkEq(mkFun("kind", SInt, p), tOne)))
	st.alloc = mkAdd(st.alloc, tOne)
	v = ex.escVal(st, v)
	t := ex.cellType[p]
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() > maxArr {
		return
	}
	for i, l := range locs(t, p) {
		ex.assume(st, mkEq(mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr), v[i]))
	}
}

// escVal replaces cell pointers inside a value by heap addresses.
func (ex *Ex) escVal(st *State, v Val) Val {
	out := make(Val, len(v))
	for i, t := range v {
		out[i] = ex.escTerm(st, t)
	}
	return out
}

func (ex *Ex) escTerm(st *State, t *Term) *Term {
	if t.Op == "int" || t.Op == "strc" {
		return t
	}
	if t.Op == "fun" && strings.HasPrefix(t.Name, "qp.") {
		ex.unsupported(st, "address of an element of a value sequence")
		return t
	}
	if _, ok := st.cells[t]; ok {
		return ex.realAddr(st, t)
	}
	if _, ok := ex.ptrs[t]; ok {
		return ex.realAddr(st, t)
	}
	if c, ok := ex.closures[t]; ok {
		_ = c
		return t
	}
	if t.Op == "fun" && (strings.HasPrefix(t.Name, "box.") || strings.HasPrefix(t.Name, "qunit.") || strings.HasPrefix(t.Name, "qcat.")) {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = ex.escTerm(st, a)
			ch = ch || args[i] != a
		}
		if ch {
			return mkFun(t.Name, t.Sort, args...)
		}
	}
	return t
}

func (ex *Ex) load(st *State, p *Term, t types.Type) Val {
	if c, off, n, _, ok := ex.live(st, p); ok {
		return append(Val(nil), ex.cellVal(st, c)[off:off+n]...)
	}
	var v Val
	for _, l := range ex.locsOf(st, p, t) {
		v = append(v, mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr))
	}
	ex.wfVal(st, v, t)
	return v
}

func (ex *Ex) store(st *State, p *Term, t types.Type, v Val) {
	if c, off, n, _, ok := ex.live(st, p); ok {
		if _, g := ex.globals[c]; g {
			ex.unsupported(st, "store to global")
			return
		}
		old := st.cells[c]
		nv := append(Val(nil), old...)
		copy(nv[off:off+n], v)
		st.cells[c] = nv
		return
	}
	if ex.pure > 0 {
		panic(unsupportedErr{"heap store in specification"})
	}
	v = ex.escVal(st, v)
	if p.Op == "fun" && (strings.HasPrefix(p.Name, "qp.") || strings.HasPrefix(p.Name, "ofp.")) {
		ex.unsupported(st, "store into an element of a value sequence")
		return
	}
	for i, l := range ex.locsOf(st, p, t) {
		ex.heapStore(st, l, v[i])
	}
}

func (ex *Ex) heapStore(st *State, l Loc, v *Term) {
	h := ex.heap(st, l.Key, l.Sort)
	st.heaps[l.Key] = mkStore(h, l.Addr, v)
	if ex.stores != nil {
		ex.stores[l.Key] = append(ex.stores[l.Key], l.Addr)
	}
}

func intRange(b *types.Basic) (lo, hi string, ok bool) {
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint16:
		return "0", "65535", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "", true
	}
	return "", "", false
}

func parseI(s string) *Term {
	var n int64
	fmt.Sscan(s, &n)
	return mkInt(n)
}

// wfVal adds the facts every well-formed value of the type satisfies.
func (ex *Ex) wfVal(st *State, v Val, t types.Type) {
	if ex.dry > 0 {
		return
	}
	var rec func(off int, t types.Type) int
	rec = func(off int, t types.Type) int {
		if isOpaque(t) {
			return off + 1
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if lo, hi, ok := intRange(u); ok && v[off].Op != "int" {
				f := mkLe(parseI(lo), v[off])
				if hi != "" {
					f = mkAnd(f, mkLe(v[off], parseI(hi)))
				}
				ex.wf(st, f)
			}
			return off + 1
		case *types.Pointer, *types.Map, *types.Chan:
			ex.wfPtr(st, v[off])
			return off + 1
		case *types.Signature:
			return off + 1
		case *types.Slice:
			if isSeq(t) {
				return off + 1
			}
			arr, o, l, c := v[off], v[off+1], v[off+2], v[off+3]
			if l.Op != "int" || c.Op != "int" {
				ex.wf(st, mkAnd(mkLe(tZero, l), mkLe(l, c), mkLe(tZero, o), mkImp(mkEq(arr, tZero), mkEq(c, tZero))))
			}
			ex.wfPtr(st, arr)
			return off + 4
		case *types.Interface:
			tag, pay := v[off], v[off+1]
			if tag.Op != "int" {
				ex.wf(st, mkAnd(mkLe(tZero, tag), mkImp(mkEq(tag, tZero), mkEq(pay, tZero))))
				ex.wfPtr(st, pay)
			}
			return off + 2
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				off = rec(off, u.Field(i).Type())
			}
			return off
		case *types.Array:
			if u.Len() > maxArr {
				return off + 1
			}
			for i := int64(0); i < u.Len(); i++ {
				off = rec(off, u.Elem())
			}
			return off
		}
		return off + 1
	}
	if tup, ok := t.(*types.Tuple); ok {
		off := 0
		for i := 0; i < tup.Len(); i++ {
			off = rec(off, tup.At(i).Type())
		}
		return
	}
	rec(0, t)
}

func (ex *Ex) wfPtr(st *State, p *Term) {
	if p.Op == "int" || p.bound {
		return
	}
	if _, ok := ex.closures[p]; ok {
		return
	}
	declElem()
	if _, _, _, _, ok := ex.live(st, p); ok {
		return
	}
	if a := ex.fromEntry(p); a != nil {
		// a value the memory at entry held refers to objects of that time
		ex.wf(st, mkImp(mkLt(tRoot(a), ex.entry.alloc), mkLt(tRoot(p), ex.entry.alloc)))
	}
	ex.wf(st, mkLt(tRoot(p), st.alloc))
}

// fromEntry returns the address if the term reads the memory at entry.
func (ex *Ex) fromEntry(p *Term) *Term {
	var a *Term
	for p.Op == "select" {
		a = p.Args[1]
		p = p.Args[0]
	}
	if ex.entry != nil && a != nil && p.Op == "var" && strings.HasPrefix(p.Name, "H0.") {
		return a
	}
	return nil
}

// newObj allocates an object address directly on the heap.
func (ex *Ex) newObj(st *State, hint string) *Term {
	declElem()
	r := mkConst(hint, SInt)
	ex.assume(st, mkAnd(mkEq(r, st.alloc), mkEq(tRoot(r), r), mkEq(mkFun("kind", SInt, r), tOne)))
	st.alloc = mkAdd(st.alloc, tOne)
	return r
}

// ---- frames ----

type frame struct {
	ex     *Ex
	fn     *ssa.Function
	env    map[ssa.Value]Val
	free   []Val
	parent *frame
	loops  *loopInfo
	rets   []retInfo
	defers []*ssa.Defer
	pure   bool
	allocs map[*ssa.Alloc]*Term // most recent cell
}

type retInfo struct {
	st *State
	v  Val
}

func (ex *Ex) globalPtr(g *ssa.Global) *Term {
	name := "gaddr." + sanitize(qual(g.Pkg.Pkg)+"."+g.Name())
	p := mkNamed(name, SInt)
	if _, ok := ex.cellType[p]; ok {
		return p
	}
	et := g.Type().(*types.Pointer).Elem()
	ex.cellType[p] = et
	if !ex.w.mutableGlobals[g] {
		var v Val
		for i, s := range leafSorts(et) {
			v = append(v, mkNamed(fmt.Sprintf("glob.%s.%s.%d", qual(g.Pkg.Pkg), g.Name(), i), s))
		}
		if isSeq(et) {
			// fine
		}
		ex.globals[p] = v
		if ex.entry != nil {
			save := ex.dry
			ex.dry = 0
			e := &State{guard: tTrue, inst: 0, alloc: ex.entry.alloc}
			ex.wfVal(e, v, et)
			if ex.w.nonNilGlobals[g] && v[0].Sort == SInt {
				ex.assume(e, mkNot(mkEq(v[0], tZero)))
			}
			for fi, c := range ex.w.globalConst[g] {
				cv := ex.constVal(c)
				base := 0
				if fi >= 0 {
					for k := 0; k < fi; k++ {
						base += len(leafSorts(et.Underlying().(*types.Struct).Field(k).Type()))
					}
				}
				for k, t := range cv {
					ex.assume(e, mkEq(v[base+k], t))
				}
			}
			if tg, ok := ex.w.globalTag[g]; ok {
				ex.assume(e, mkEq(v[0], tagOf(tg)))
			}
			ex.dry = save
		}
	} else {
		// mutable global: lives in the cell heap at its own address
		if ex.entry != nil {
			declElem()
			save := ex.dry
			ex.dry = 0
			e := &State{guard: tTrue, inst: 0, alloc: ex.entry.alloc}
			ex.assume(e, mkAnd(mkEq(tRoot(p), p), mkLt(tZero, p), mkLt(p, ex.entry.alloc)))
			ex.dry = save
		}
		ex.assume_["global variable "+g.String()+" is mutable state"] = true
	}
	return p
}

func (fr *frame) get(st *State, v ssa.Value) Val {
	ex := fr.ex
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return Val{ex.globalPtr(x)}
	case *ssa.Function:
		return Val{ex.funcTerm(x)}
	case *ssa.Builtin:
		return Val{tZero}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupportedErr{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
	}
	return r
}

func (ex *Ex) funcTerm(f *ssa.Function) *Term {
	t := mkNamed("fn."+f.String(), SInt)
	if _, ok := ex.closures[t]; !ok {
		ex.closures[t] = &closure{fn: f}
		if ex.entry != nil {
			save := ex.dry
			ex.dry = 0
			ex.assume(&State{guard: tTrue, inst: 0}, mkNot(mkEq(t, tZero)))
			ex.dry = save
		}
	}
	return t
}

func (ex *Ex) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{mkBool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return Val{mkStrConst(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if n, ok := constant.Int64Val(v); ok {
				return Val{mkInt(n)}
			}
			return Val{mkNamed("bigint."+v.ExactString(), SInt)}
		case u.Info()&types.IsFloat != 0:
			return Val{mkNamed("flt."+c.Value.ExactString(), SReal)}
		}
	}
	return freshVal("const", t)
}

// ---- state merging ----

type edge struct {
	st   *State
	from *ssa.BasicBlock
}

func rawAnd(g, c *Term) *Term {
	if g.Op == "true" {
		return c
	}
	if c.Op == "true" {
		return g
	}
	if c.Op == "false" || g.Op == "false" {
		return tFalse
	}
	return mkApp("and", SBool, g, c)
}

// joinGuards simplifies the disjunction of edge guards.
func joinGuards(gs []*Term) *Term {
	gs = append([]*Term(nil), gs...)
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(gs); i++ {
			for j := i + 1; j < len(gs); j++ {
				if r := mergeTwo(gs[i], gs[j]); r != nil {
					gs[i] = r
					gs = append(gs[:j], gs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return mkOr(gs...)
}

func mergeTwo(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == mkNot(b) {
		return tTrue
	}
	split := func(t *Term) (p, c *Term) {
		if t.Op == "and" && len(t.Args) == 2 {
			return t.Args[0], t.Args[1]
		}
		return tTrue, t
	}
	pa, ca := split(a)
	pb, cb := split(b)
	if pa == pb && ca == mkNot(cb) {
		return pa
	}
	// a = (p and c) and d, b = p and not c  -- leave
	return nil
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (ex *Ex) mergeTerms(sts []*State, vs []*Term, hint string) *Term {
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if ex.pure > 0 {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			r = mkIte(sts[i].guard, vs[i], r)
		}
		return r
	}
	c := mkConst(hint, vs[0].Sort)
	for i, v := range vs {
		if v.Sort != c.Sort {
			panic(unsupportedErr{"merge of different sorts"})
		}
		ex.assume(sts[i], mkEq(c, v))
	}
	return c
}

func (ex *Ex) merge(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	pure := ex.pure > 0
	// pointers to live cells that differ between edges must escape
	if !pure {
		for round := 0; round < 4; round++ {
			for _, c := range sortedCells(sts[0].cells) {
				var vs []Val
				ok := true
				for _, s := range sts {
					v, has := s.cells[c]
					if !has {
						ok = false
						break
					}
					vs = append(vs, v)
				}
				if !ok {
					continue
				}
				for li := range vs[0] {
					diff := false
					for _, v := range vs[1:] {
						if v[li] != vs[0][li] {
							diff = true
						}
					}
					if diff {
						for si, s := range sts {
							nv := ex.escTerm(s, vs[si][li])
							if nv != vs[si][li] {
								cp := append(Val(nil), s.cells[c]...)
								cp[li] = nv
								s.cells[c] = cp
								vs[si] = cp
							}
						}
					}
				}
			}
			// liveness agreement
			again := false
			for _, s := range sts {
				for _, c := range sortedTerms(s.flushed) {
					for _, s2 := range sts {
						if _, live := s2.cells[c]; live {
							ex.flush(s2, c)
							again = true
						}
					}
				}
			}
			if !again {
				break
			}
		}
	}
	out := &State{heaps: map[string]*Term{}, cells: map[*Term]Val{}, flushed: map[*Term]bool{}, ghosts: map[string]*Term{}}
	var gs []*Term
	var parents []int
	for _, s := range sts {
		gs = append(gs, s.guard)
		parents = append(parents, s.inst)
	}
	out.guard = joinGuards(gs)
	out.outer = sts[0].outer
	out.inst = ex.newInst(parents...)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var vs []*Term
		for _, s := range sts {
			h, ok := s.heaps[k]
			if !ok {
				h = ex.heapInit[k]
			}
			vs = append(vs, h)
		}
		out.heaps[k] = ex.mergeTerms(sts, vs, "H."+k)
	}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.ghosts {
			gk[k] = true
		}
	}
	for _, k := range sortedKeys(gk) {
		var vs []*Term
		ok := true
		for _, s := range sts {
			g, has := s.ghosts[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, g)
		}
		if ok {
			out.ghosts[k] = ex.mergeTerms(sts, vs, "g."+k)
		}
	}
	var cs []*Term
	for c := range sts[0].cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		var vs []Val
		ok := true
		for _, s := range sts {
			v, has := s.cells[c]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if !ok {
			continue
		}
		nv := make(Val, len(vs[0]))
		for li := range nv {
			var ts []*Term
			for _, v := range vs {
				ts = append(ts, v[li])
			}
			nv[li] = ex.mergeTerms(sts, ts, ex.cellHint(c))
		}
		out.cells[c] = nv
	}
	for _, s := range sts {
		for c := range s.flushed {
			out.flushed[c] = true
		}
	}
	var as []*Term
	for _, s := range sts {
		as = append(as, s.alloc)
	}
	out.alloc = ex.mergeTerms(sts, as, "alloc")
	return out
}

func (ex *Ex) cellHint(c *Term) string {
	n := c.Name
	if i := strings.IndexByte(n, '!'); i > 0 {
		n = n[:i]
	}
	return n
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- running a function body ----

// run executes fn with the given arguments; it returns the merged state after
// return and the result leaves (nil state if no path returns).
func (ex *Ex) runInline(st *State, fn *ssa.Function, args []Val, free []Val, parent *frame) (*State, Val) {
	fr := &frame{ex: ex, fn: fn, env: map[ssa.Value]Val{}, free: free, parent: parent, allocs: map[*ssa.Alloc]*Term{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	ex.stack = append(ex.stack, fn)
	fr.runBody(st)
	ex.stack = ex.stack[:len(ex.stack)-1]
	if len(fr.rets) == 0 {
		return nil, nil
	}
	if len(fr.rets) == 1 {
		return fr.rets[0].st, fr.rets[0].v
	}
	var sts []*State
	var vs []Val
	for _, r := range fr.rets {
		sts = append(sts, r.st)
		vs = append(vs, r.v)
	}
	// result values: escape differing cell pointers, then merge
	out, v := ex.mergeWith(sts, vs, fn.Name())
	return out, v
}

func (ex *Ex) mergeWith(sts []*State, vs []Val, hint string) (*State, Val) {
	n := len(vs[0])
	if ex.pure == 0 {
		for li := 0; li < n; li++ {
			diff := false
			for _, v := range vs[1:] {
				if v[li] != vs[0][li] {
					diff = true
				}
			}
			if diff {
				for i := range vs {
					nv := append(Val(nil), vs[i]...)
					nv[li] = ex.escTerm(sts[i], nv[li])
					vs[i] = nv
				}
			}
		}
	}
	out := ex.merge(sts)
	rv := make(Val, n)
	for li := 0; li < n; li++ {
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v[li])
		}
		rv[li] = ex.mergeTerms(sts, ts, "r."+hint)
	}
	return out, rv
}

func (fr *frame) runBody(st *State) {
	fr.loops = fr.ex.w.loopsOf(fr.fn)
	in := map[*ssa.BasicBlock][]edge{fr.fn.Blocks[0]: {{st, nil}}}
	fr.runBlocks(fr.loops.rpo, in, nil, nil)
}

// runBlocks executes the given blocks (in reverse postorder). hdr is the header
// of the loop being executed, outer receives edges leaving the loop.
func (fr *frame) runBlocks(blocks []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, hdr *ssa.BasicBlock, outer map[*ssa.BasicBlock][]edge) (back []edge) {
	ex := fr.ex
	inSet := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		inSet[b] = true
	}
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(b *ssa.BasicBlock, e edge) {
		if e.st.dead || e.st.guard.Op == "false" {
			return
		}
		if b == hdr {
			back = append(back, e)
			return
		}
		if inSet[b] {
			in[b] = append(in[b], e)
			return
		}
		if outer != nil {
			outer[b] = append(outer[b], e)
		}
	}
	for _, b := range blocks {
		if done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops.headers[b]; l != nil && b != hdr {
			for _, lb := range l.blocks {
				done[lb] = true
			}
			if ex.pure > 0 {
				panic(unsupportedErr{"loop in specification function " + fr.fn.String()})
			}
			exits := fr.runLoop(l, es)
			for tb, ee := range exits {
				for _, e := range ee {
					deliver(tb, e)
				}
			}
			continue
		}
		st := fr.enter(b, es)
		fr.runBlock(b, st, deliver)
	}
	return back
}

// enter merges incoming edges and evaluates phis.
func (fr *frame) enter(b *ssa.BasicBlock, es []edge) *State {
	ex := fr.ex
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	// phi values per edge
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if len(phis) == 0 {
		return ex.merge(sts)
	}
	vals := make([][]Val, len(es))
	for i, e := range es {
		pi := -1
		for k, p := range b.Preds {
			if p == e.from {
				pi = k
			}
		}
		for _, p := range phis {
			vals[i] = append(vals[i], fr.get(e.st, p.Edges[pi]))
		}
	}
	if len(es) == 1 {
		for k, p := range phis {
			fr.env[p] = vals[0][k]
		}
		return sts[0].clone()
	}
	for k := range phis {
		for li := range vals[0][k] {
			diff := false
			for i := range es {
				if vals[i][k][li] != vals[0][k][li] {
					diff = true
				}
			}
			if diff && ex.pure == 0 {
				for i := range es {
					nv := append(Val(nil), vals[i][k]...)
					nv[li] = ex.escTerm(sts[i], nv[li])
					vals[i][k] = nv
				}
			}
		}
	}
	out := ex.merge(sts)
	for k, p := range phis {
		n := len(vals[0][k])
		rv := make(Val, n)
		for li := 0; li < n; li++ {
			var ts []*Term
			for i := range es {
				ts = append(ts, vals[i][k][li])
			}
			rv[li] = ex.mergeTerms(sts, ts, "phi")
		}
		fr.env[p] = rv
	}
	return out
}

func (fr *frame) runBlock(b *ssa.BasicBlock, st *State, deliver func(*ssa.BasicBlock, edge)) {
	ex := fr.ex
	for _, ins := range b.Instrs {
		if st.dead {
			return
		}
		if p := ins.Pos(); p.IsValid() {
			pp := ex.w.fset.Position(p)
			ex.lastPos = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := fr.get(st, x.Cond)[0]
			t := st.clone()
			t.guard = rawAnd(st.guard, c)
			t.inst = ex.newInst(st.inst)
			f := st
			f.guard = rawAnd(st.guard, mkNot(c))
			f.inst = ex.newInst(st.inst)
			deliver(b.Succs[0], edge{t, b})
			deliver(b.Succs[1], edge{f, b})
			return
		case *ssa.Jump:
			deliver(b.Succs[0], edge{st, b})
			return
		case *ssa.Return:
			var v Val
			for _, r := range x.Results {
				v = append(v, fr.get(st, r)...)
			}
			fr.rets = append(fr.rets, retInfo{st, v})
			return
		case *ssa.Panic:
			ex.oblige(st, "panic", panicName(x), tFalse)
			st.dead = true
			return
		default:
			ns := fr.exec(st, ins)
			if ns == nil {
				return
			}
			st = ns
		}
	}
}

func panicName(p *ssa.Panic) string {
	var v ssa.Value = p.X
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return "explicit"
}

// ---- instructions ----

func (fr *frame) exec(st *State, ins ssa.Instruction) (out *State) {
	ex := fr.ex
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		hint := x.Comment
		if hint == "" {
			hint = "loc"
		}
		p := mkConst(hint, SInt)
		ex.cellType[p] = t
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() > maxArr {
			st.cells[p] = freshVal("bigarr", t)
			ex.unsupported(st, "large array")
			return nil
		}
		st.cells[p] = zeroVal(t)
		fr.allocs[x] = p
		set(x, Val{p})
	case *ssa.UnOp:
		return fr.unop(st, x)
	case *ssa.BinOp:
		a, b := fr.get(st, x.X), fr.get(st, x.Y)
		set(x, ex.binop(st, x, a, b))
	case *ssa.Store:
		p := fr.get(st, x.Addr)[0]
		v := fr.get(st, x.Val)
		ex.nilCheck(st, p, x.Addr)
		ex.store(st, p, x.Val.Type(), v)
		if st.dead {
			return nil
		}
	case *ssa.FieldAddr:
		p := fr.get(st, x.X)[0]
		ex.nilCheck(st, p, x.X)
		sT := x.X.Type().Underlying().(*types.Pointer).Elem()
		set(x, Val{ex.fieldPtr(st, p, sT, x.Field)})
	case *ssa.Field:
		v := fr.get(st, x.X)
		if isOpaque(x.X.Type()) {
			sst := x.X.Type().Underlying().(*types.Struct)
			set(x, ex.opaqueField(v[0], x.X.Type(), sst.Field(x.Field)))
			break
		}
		sst := x.X.Type().Underlying().(*types.Struct)
		o, n := fieldOff(sst, x.Field)
		set(x, append(Val(nil), v[o:o+n]...))
	case *ssa.IndexAddr:
		set(x, fr.indexAddr(st, x))
	case *ssa.Index:
		v := fr.get(st, x.X)
		i := fr.get(st, x.Index)[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, mkInt(u.Len()))))
			n := len(leafSorts(u.Elem()))
			if c, ok := isInt(i); ok && c >= 0 && c < u.Len() {
				set(x, append(Val(nil), v[int(c)*n:int(c+1)*n]...))
			} else {
				r := append(Val(nil), v[:n]...)
				for k := int64(1); k < u.Len(); k++ {
					for li := 0; li < n; li++ {
						r[li] = mkIte(mkEq(i, mkInt(k)), v[int(k)*n+li], r[li])
					}
				}
				set(x, r)
			}
		default: // string
			ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, mkSlen(v[0]))))
			r := Val{ex.mkSat(v[0], i)}
			ex.wfVal(st, r, x.Type())
			set(x, r)
		}
	case *ssa.Extract:
		tup := x.Tuple.Type().(*types.Tuple)
		off := 0
		for i := 0; i < x.Index; i++ {
			off += len(leafSorts(tup.At(i).Type()))
		}
		n := len(leafSorts(tup.At(x.Index).Type()))
		v := fr.get(st, x.Tuple)
		set(x, append(Val(nil), v[off:off+n]...))
	case *ssa.ChangeType:
		v := fr.get(st, x.X)
		if isSeq(x.Type()) != isSeq(x.X.Type()) {
			ex.unsupported(st, "conversion between sequence and slice")
			return nil
		}
		set(x, v)
	case *ssa.ChangeInterface:
		set(x, fr.get(st, x.X))
	case *ssa.MakeInterface:
		v := fr.get(st, x.X)
		t := x.X.Type()
		set(x, Val{tagOf(t), boxPay(t, v)})
	case *ssa.Convert:
		set(x, ex.convert(st, x.X.Type(), x.Type(), fr.get(st, x.X)))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, fr.get(st, b))
		}
		c := mkConst("closure", SInt)
		ex.closures[c] = &closure{fn: x.Fn.(*ssa.Function), binds: bs}
		ex.assume(st, mkNot(mkEq(c, tZero)))
		set(x, Val{c})
	case *ssa.MakeMap:
		if ex.pure > 0 {
			panic(unsupportedErr{"make map in specification"})
		}
		mt := x.Type().Underlying().(*types.Map)
		r := ex.newObj(st, "map")
		mk := ex.mapKeys(mt)
		ex.assume(st, mkAnd(
			mkEq(mkSelect(ex.heap(st, mk.dom, mk.domSort), r), mkConstArr(mk.domSort, tFalse)),
			mkEq(mkSelect(ex.heap(st, mk.ln, SInt), r), tZero)))
		set(x, Val{r})
	case *ssa.MakeSlice:
		n, c := fr.get(st, x.Len)[0], fr.get(st, x.Cap)[0]
		ex.oblige(st, "makeslice", "size", mkAnd(mkLe(tZero, n), mkLe(n, c)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		if isSeq(x.Type()) {
			s := seqSort(x.Type())
			declSeq(s)
			set(x, Val{mkFun("qrep."+s, s, zeroVal(et)[0], n)})
			break
		}
		r := ex.newObj(st, "slice")
		if n != tZero {
			i := ex.bvar(SInt)
			a := mkSx(r, tZero, i)
			z := zeroVal(et)
			var eqs []*Term
			for k, l := range locs(et, a) {
				eqs = append(eqs, mkEq(mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr), z[k]))
			}
			ex.assume(st, mkForall([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, n)), mkAnd(eqs...))))
		}
		set(x, Val{r, tZero, n, c})
	case *ssa.Slice:
		return fr.slice(st, x)
	case *ssa.Lookup:
		return fr.lookup(st, x)
	case *ssa.MapUpdate:
		m := fr.get(st, x.Map)[0]
		mt := x.Map.Type().Underlying().(*types.Map)
		ex.oblige(st, "nilmap", valName(x.Map), mkNot(mkEq(m, tZero)))
		k := ex.escVal(st, fr.get(st, x.Key))
		v := ex.escVal(st, fr.get(st, x.Value))
		ex.mapStore(st, mt, m, mapKeyTerm(mt.Key(), k), v)
	case *ssa.Range:
		return fr.rangeInit(st, x)
	case *ssa.Next:
		return fr.next(st, x)
	case *ssa.TypeAssert:
		return fr.typeAssert(st, x)
	case *ssa.Call:
		return fr.call(st, x, &x.Call, x)
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if !reaches(d.Block(), x.Block()) {
				continue // not deferred on any path to this return
			}
			if !d.Block().Dominates(x.Block()) {
				ex.unsupported(st, "conditional defer")
				return nil
			}
			st = fr.call(st, nil, &d.Call, d)
			if st == nil {
				return nil
			}
		}
	default:
		ex.unsupported(st, fmt.Sprintf("%T", ins))
		return nil
	}
	if st.dead {
		return nil
	}
	return st
}

// reaches reports whether control can flow from one block to another.
func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func (ex *Ex) bvar(s Sort) *Term {
	return mkNamedBound(fmt.Sprintf("q%d", ex.qdepth+1), s)
}

func valName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return valName(x.X)
		}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return valName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return valName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return valName(x.X) + "[]"
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			return c.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
	case *ssa.Extract:
		return valName(x.Tuple)
	case *ssa.TypeAssert:
		return valName(x.X)
	case *ssa.ChangeType:
		return valName(x.X)
	case *ssa.ChangeInterface:
		return valName(x.X)
	case *ssa.Lookup:
		return valName(x.X) + "[]"
	}
	return "v"
}

func (ex *Ex) nilCheck(st *State, p *Term, v ssa.Value) {
	if ex.pure > 0 {
		return
	}
	if _, ok := st.cells[p]; ok {
		return
	}
	if _, ok := ex.globals[p]; ok {
		return
	}
	if st.flushed[p] {
		return
	}
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc:
		return
	case *ssa.FreeVar:
		return
	}
	if _, ok := ex.ptrs[p]; ok {
		return
	}
	if p.Op == "fun" && (strings.HasPrefix(p.Name, "fld.") || p.Name == "sx" || p.Name == "elem") {
		return
	}
	ex.oblige(st, "nil", valName(v), mkNot(mkEq(p, tZero)))
}

func (ex *Ex) fieldPtr(st *State, p *Term, sT types.Type, i int) *Term {
	if isOpaque(sT) {
		// pointer to an external struct: read-only pseudo field
		n := "ofp." + sanitize(tstr(sT)) + "." + sT.Underlying().(*types.Struct).Field(i).Name()
		return mkFun(n, SInt, p)
	}
	_, _, _, _, live := ex.live(st, p)
	sst := sT.Underlying().(*types.Struct)
	ft := sst.Field(i).Type()
	if !live && (isAgg(ft) || addrTaken[fieldKey(sT, i)]) {
		return fldAddr(sT, i, ex.realAddr(st, p))
	}
	if !live {
		p = ex.realAddr(st, p)
	}
	t := mkFun("fp."+sanitize(fieldKey(sT, i)), SInt, p)
	ex.ptrs[t] = ptrInfo{base: p, st: sT, idx: i}
	return t
}

func (ex *Ex) opaqueField(o *Term, t types.Type, f *types.Var) Val {
	var v Val
	for i, s := range leafSorts(f.Type()) {
		v = append(v, mkFun(fmt.Sprintf("of%d.%s.%s", i, sanitize(tstr(t)), f.Name()), s, o))
	}
	return v
}

func (ex *Ex) mkSat(s, i *Term) *Term {
	if s.Op == "strc" {
		if n, ok := isInt(i); ok && n >= 0 && n < int64(len(s.Name)) {
			return mkInt(int64(s.Name[n]))
		}
	}
	return mkFun("sat", SInt, s, i)
}

func (fr *frame) indexAddr(st *State, x *ssa.IndexAddr) Val {
	ex := fr.ex
	v := fr.get(st, x.X)
	i := fr.get(st, x.Index)[0]
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if isSeq(x.X.Type()) {
			ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, mkQlen(v[0]))))
			p := mkFun("qp."+v[0].Sort, SInt, v[0], i)
			return Val{p}
		}
		ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, v[2])))
		if _, ok := st.cells[v[0]]; ok {
			if n, isC := isInt(mkAdd(v[1], i)); isC {
				if at, isA := ex.cellType[v[0]].Underlying().(*types.Array); isA && n >= 0 && n < at.Len() {
					return Val{ex.arrPtr(v[0], ex.cellType[v[0]], int(n))}
				}
			}
			return Val{mkSx(ex.realAddr(st, v[0]), v[1], i)}
		}
		return Val{mkSx(ex.realAddr(st, v[0]), v[1], i)}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ex.nilCheck(st, v[0], x.X)
		ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, mkInt(at.Len()))))
		_, _, _, _, live := ex.live(st, v[0])
		if n, ok := isInt(i); ok && live && n >= 0 && n < at.Len() {
			return Val{ex.arrPtr(v[0], u.Elem(), int(n))}
		}
		return Val{mkElem(ex.realAddr(st, v[0]), i)}
	}
	ex.unsupported(st, "IndexAddr")
	return Val{tZero}
}

func (ex *Ex) arrPtr(base *Term, at types.Type, i int) *Term {
	t := mkFun("ap", SInt, base, mkInt(int64(i)))
	ex.ptrs[t] = ptrInfo{base: base, st: at, idx: i, isAr: true}
	return t
}

func (fr *frame) unop(st *State, x *ssa.UnOp) *State {
	ex := fr.ex
	v := fr.get(st, x.X)
	switch x.Op {
	case token.MUL:
		p := v[0]
		if p.Op == "fun" && strings.HasPrefix(p.Name, "qp.") {
			r := Val{mkQat(p.Args[0], p.Args[1])}
			ex.wfVal(st, r, x.Type())
			fr.env[x] = r
			return st
		}
		if p.Op == "fun" && strings.HasPrefix(p.Name, "ofp.") {
			var r Val
			for i, s := range leafSorts(x.Type()) {
				r = append(r, mkFun(fmt.Sprintf("ld%d.%s", i, p.Name), s, p.Args[0]))
			}
			ex.wfVal(st, r, x.Type())
			fr.env[x] = r
			return st
		}
		ex.nilCheck(st, p, x.X)
		fr.env[x] = ex.load(st, p, x.Type())
	case token.NOT:
		fr.env[x] = Val{mkNot(v[0])}
	case token.SUB:
		if v[0].Sort == SInt {
			fr.env[x] = Val{mkSub(tZero, v[0])}
		} else {
			fr.env[x] = freshVal("neg", x.Type())
		}
	case token.XOR:
		fr.env[x] = freshVal("xor", x.Type())
	default:
		ex.unsupported(st, "unop "+x.Op.String())
		return nil
	}
	return st
}

// eqVals is Go equality of two values of the same type.
func (ex *Ex) eqVals(st *State, t types.Type, a, b Val) *Term {
	if isSeq(t) {
		// only comparison with nil is legal Go
		if b[0].Op == "fun" && strings.HasPrefix(b[0].Name, "qempty.") {
			return mkQnil(a[0])
		}
		return mkQnil(b[0])
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// comparison with nil
		if b[0] == tZero {
			if _, _, _, _, live := ex.live(st, a[0]); live {
				return tFalse
			}
			return mkEq(a[0], tZero)
		}
		return mkEq(b[0], tZero)
	}
	var cs []*Term
	for i := range a {
		x, y := a[i], b[i]
		if x.Sort == SInt && x != y {
			_, lx := st.cells[x]
			_, ly := st.cells[y]
			_, cx := ex.closures[x]
			_, cy := ex.closures[y]
			if lx || ly || (cx && y == tZero) || (cy && x == tZero) {
				return tFalse
			}
			if pi, ok := ex.ptrs[x]; ok && y == tZero {
				_ = pi
				return tFalse
			}
			if pi, ok := ex.ptrs[y]; ok && x == tZero {
				_ = pi
				return tFalse
			}
		}
		cs = append(cs, mkEq(x, y))
	}
	return mkAnd(cs...)
}

func (ex *Ex) binop(st *State, x *ssa.BinOp, a, b Val) Val {
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if isIface(x.X.Type()) && !isIface(x.Y.Type()) {
			b = Val{tagOf(x.Y.Type()), boxPay(x.Y.Type(), b)}
		} else if !isIface(x.X.Type()) && isIface(x.Y.Type()) {
			a = Val{tagOf(x.X.Type()), boxPay(x.X.Type(), a)}
			t = x.Y.Type()
		}
		e = ex.eqVals(st, t, a, b)
		if a[0].Sort == SInt && len(a) == 1 && ex.dry > 0 {
			ex.cmps = append(ex.cmps, mkLe(a[0], b[0]), mkLe(b[0], a[0]))
		}
		if x.Op == token.NEQ {
			e = mkNot(e)
		}
		return Val{e}
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		ex.unsupported(st, "binop on "+tstr(t))
		return freshVal("bin", x.Type())
	}
	if bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			return Val{ex.sconcat(st, a[0], b[0])}
		case token.LSS:
			return Val{mkFun("slt", SBool, a[0], b[0])}
		case token.GTR:
			return Val{mkFun("slt", SBool, b[0], a[0])}
		case token.LEQ:
			return Val{mkNot(mkFun("slt", SBool, b[0], a[0]))}
		case token.GEQ:
			return Val{mkNot(mkFun("slt", SBool, a[0], b[0]))}
		}
	}
	if bt.Info()&types.IsInteger != 0 {
		p, q := a[0], b[0]
		switch x.Op {
		case token.ADD:
			return Val{mkAdd(p, q)}
		case token.SUB:
			return Val{mkSub(p, q)}
		case token.MUL:
			return Val{mkMul(p, q)}
		case token.QUO, token.REM:
			ex.oblige(st, "divzero", x.Op.String(), mkNot(mkEq(q, tZero)))
			// Go truncates towards zero
			if pn, ok := isInt(p); ok {
				if qn, ok := isInt(q); ok && qn != 0 {
					if x.Op == token.QUO {
						return Val{mkInt(pn / qn)}
					}
					return Val{mkInt(pn % qn)}
				}
			}
			r := mkConst("div", SInt)
			d := mkApp("div", SInt, p, q)
			m := mkApp("mod", SInt, p, q)
			nonneg := mkAnd(mkLe(tZero, p), mkLt(tZero, q))
			if ex.pure > 0 {
				if x.Op == token.QUO {
					return Val{d}
				}
				return Val{m}
			}
			if x.Op == token.QUO {
				ex.assume(st, mkImp(nonneg, mkEq(r, d)))
			} else {
				ex.assume(st, mkImp(nonneg, mkEq(r, m)))
			}
			return Val{r}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			var r *Term
			switch x.Op {
			case token.LSS:
				r = mkLt(p, q)
			case token.GTR:
				r = mkLt(q, p)
			case token.LEQ:
				r = mkLe(p, q)
			case token.GEQ:
				r = mkLe(q, p)
			}
			if ex.dry > 0 {
				ex.cmps = append(ex.cmps, mkLe(p, q), mkLe(q, p), mkLt(p, q), mkLt(q, p))
			}
			return Val{r}
		default:
			// bit operations: uninterpreted
			n := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.SHL: "bshl", token.SHR: "bshr", token.AND_NOT: "bandnot"}[x.Op]
			if pn, ok := isInt(p); ok {
				if qn, ok := isInt(q); ok {
					switch x.Op {
					case token.AND:
						return Val{mkInt(pn & qn)}
					case token.OR:
						return Val{mkInt(pn | qn)}
					case token.SHL:
						if qn < 62 && qn >= 0 {
							return Val{mkInt(pn << uint(qn))}
						}
					}
				}
			}
			if n != "" {
				r := Val{mkFun(n, SInt, p, q)}
				ex.wfVal(st, r, x.Type())
				return r
			}
		}
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch x.Op {
		case token.AND:
			return Val{mkAnd(a[0], b[0])}
		case token.OR:
			return Val{mkOr(a[0], b[0])}
		}
	}
	if bt.Info()&types.IsFloat != 0 {
		return freshVal("flt", x.Type())
	}
	ex.unsupported(st, "binop "+x.Op.String()+" "+tstr(t))
	return freshVal("bin", x.Type())
}

func (ex *Ex) sconcat(st *State, a, b *Term) *Term {
	if a.Op == "strc" && b.Op == "strc" {
		return mkStrConst(a.Name + b.Name)
	}
	if a.Op == "strc" && a.Name == "" {
		return b
	}
	if b.Op == "strc" && b.Name == "" {
		return a
	}
	r := mkFun("sconcat", SStr, a, b)
	ex.wf(st, mkEq(mkSlen(r), mkAdd(mkSlen(a), mkSlen(b))))
	return r
}

func (ex *Ex) convert(st *State, from, to types.Type, v Val) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		lo, hi, ok := intRange(tb)
		flo, fhi, fok := intRange(fb)
		if !ok {
			return v
		}
		// widening within range
		if fok && flo != "" {
			l1, l2 := parseI(lo).N, parseI(flo).N
			if hi == "" && l2 >= l1 {
				return v
			}
			if hi != "" && fhi != "" && l2 >= l1 && parseI(fhi).N <= parseI(hi).N {
				return v
			}
		}
		if n, isC := isInt(v[0]); isC {
			if n >= parseI(lo).N && (hi == "" || n <= parseI(hi).N) {
				return v
			}
		}
		r := mkFun("conv."+tb.Name(), SInt, v[0])
		in := mkLe(parseI(lo), v[0])
		if hi != "" {
			in = mkAnd(in, mkLe(v[0], parseI(hi)))
		}
		ex.wf(st, mkImp(in, mkEq(r, v[0])))
		ex.wfVal(st, Val{r}, to)
		return Val{r}
	case tb != nil && tb.Info()&types.IsString != 0:
		if _, ok := from.Underlying().(*types.Slice); ok && !isSeq(from) {
			// string(bytes)
			if ex.pure > 0 {
				// functional view of the byte heap
				return Val{ex.strOfBytes(st, v)}
			}
			r := ex.strOfBytes(st, v)
			et := from.Underlying().(*types.Slice).Elem()
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				ex.assume(st, mkEq(mkSlen(r), v[2]))
				i := ex.bvar(SInt)
				l := locs(et, mkSx(ex.realAddr(st, v[0]), v[1], i))[0]
				sat := ex.mkSat(r, i)
				sel := mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr)
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, v[2])), mkEq(sat, sel)), []*Term{sat}))
			}
			return Val{r}
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return Val{mkFun("sofrune", SStr, v[0])}
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := to.Underlying().(*types.Slice); ok && !isSeq(to) {
			if ex.pure > 0 {
				panic(unsupportedErr{"[]byte(string) in specification"})
			}
			r := ex.newObj(st, "bytes")
			b, _ := sl.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				n := mkSlen(v[0])
				c := mkConst("cap", SInt)
				ex.assume(st, mkLe(n, c))
				i := ex.bvar(SInt)
				l := locs(sl.Elem(), mkSx(r, tZero, i))[0]
				sel := mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr)
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, n)), mkEq(ex.mkSat(v[0], i), sel)), []*Term{l.Addr}))
				return Val{r, tZero, n, c}
			}
			n, c := mkConst("len", SInt), mkConst("cap", SInt)
			ex.assume(st, mkAnd(mkLe(tZero, n), mkLe(n, c)))
			return Val{r, tZero, n, c}
		}
	case fb != nil && tb != nil && (fb.Info()|tb.Info())&types.IsFloat != 0:
		n := "fconv." + fb.Name() + "." + tb.Name()
		return Val{mkFun(n, leafSorts(to)[0], v[0])}
	}
	if len(leafSorts(from)) == len(leafSorts(to)) {
		same := true
		for i := range leafSorts(from) {
			if leafSorts(from)[i] != leafSorts(to)[i] {
				same = false
			}
		}
		if same {
			return v
		}
	}
	ex.unsupported(st, "convert "+tstr(from)+" to "+tstr(to))
	return freshVal("conv", to)
}

// strOfBytes: uninterpreted function of the byte heap and the slice.
func (ex *Ex) strOfBytes(st *State, v Val) *Term {
	h := ex.heap(st, "cell:uint8", SInt)
	if _, ok := st.cells[v[0]]; ok {
		v = ex.escVal(st, v)
	}
	return mkFun("sofbytes", SStr, h, v[0], v[1], v[2])
}

func (fr *frame) slice(st *State, x *ssa.Slice) *State {
	ex := fr.ex
	v := fr.get(st, x.X)
	lo, hi := tZero, (*Term)(nil)
	if x.Low != nil {
		lo = fr.get(st, x.Low)[0]
	}
	if x.High != nil {
		hi = fr.get(st, x.High)[0]
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		if hi == nil {
			hi = mkSlen(v[0])
		}
		ex.oblige(st, "slice", valName(x.X)+"[:]", mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mkSlen(v[0]))))
		r := mkFun("ssub", SStr, v[0], lo, hi)
		if ex.pure == 0 {
			ex.assume(st, mkEq(mkSlen(r), mkSub(hi, lo)))
		}
		fr.env[x] = Val{r}
	case *types.Slice:
		if isSeq(x.X.Type()) {
			n := mkQlen(v[0])
			if hi == nil {
				hi = n
			}
			// only sub-slices within the length are modelled
			ex.oblige(st, "slice", valName(x.X)+"[:]", mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, n)))
			if lo == tZero && hi == n {
				fr.env[x] = v
				return st
			}
			fr.env[x] = Val{mkFun("qsub."+v[0].Sort, v[0].Sort, v[0], lo, hi)}
			return st
		}
		if hi == nil {
			hi = v[2]
		}
		mx := v[3]
		if x.Max != nil {
			mx = fr.get(st, x.Max)[0]
			ex.oblige(st, "slice", valName(x.X)+"[::]", mkAnd(mkLe(hi, mx), mkLe(mx, v[3])))
		}
		ex.oblige(st, "slice", valName(x.X)+"[:]", mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, v[3])))
		off := mkAdd(v[1], lo)
		if ex.pure == 0 && lo != tZero {
			// elements of the part are elements of the whole
			k := mkNamedBound("sk", SInt)
			e := mkSx(v[0], off, k)
			ex.assume(st, mkForallPat([]*Term{k}, mkEq(e, mkSx(v[0], v[1], mkAdd(lo, k))), []*Term{e}))
		}
		fr.env[x] = Val{v[0], off, mkSub(hi, lo), mkSub(mx, lo)}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		ex.nilCheck(st, v[0], x.X)
		ex.oblige(st, "slice", valName(x.X)+"[:]", mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, n)))
		if isSeq(x.Type()) {
			s := seqSort(x.Type())
			c, off, _, _, ok := ex.live(st, v[0])
			l, ok1 := isInt(lo)
			h, ok2 := isInt(hi)
			if !ok || !ok1 || !ok2 {
				ex.unsupported(st, "slice of escaped array as sequence")
				return nil
			}
			q := mkSeqNil(s)
			cv := ex.cellVal(st, c)
			for i := l; i < h; i++ {
				e := cv[off+int(i)]
				if ex.pure == 0 {
					e = ex.escTerm(st, e)
				}
				if q == mkSeqNil(s) {
					q = mkQunit(s, e)
				} else {
					q = mkQcat(q, mkQunit(s, e))
				}
			}
			fr.env[x] = Val{q}
			return st
		}
		fr.env[x] = Val{v[0], lo, mkSub(hi, lo), mkSub(n, lo)}
	default:
		ex.unsupported(st, "slice of "+tstr(x.X.Type()))
		return nil
	}
	return st
}

// ---- maps ----

type mapK struct {
	dom, ln string
	vals    []string
	domSort Sort // (Array K Bool)
	valSort []Sort
	ks      Sort
}

func (ex *Ex) mapKeys(mt *types.Map) mapK {
	base := "map:" + tstr(mt.Key()) + ">" + tstr(mt.Elem())
	ks := mapKeySort(mt.Key())
	k := mapK{dom: base + ".dom", ln: base + ".len", domSort: arrSort(ks, SBool), ks: ks}
	for i, s := range leafSorts(mt.Elem()) {
		k.vals = append(k.vals, fmt.Sprintf("%s.v%d", base, i))
		k.valSort = append(k.valSort, arrSort(ks, s))
	}
	return k
}

func (ex *Ex) mapDom(st *State, mt *types.Map, m *Term) *Term {
	mk := ex.mapKeys(mt)
	return mkSelect(ex.heap(st, mk.dom, mk.domSort), m)
}

func (ex *Ex) mapLen(st *State, mt *types.Map, m *Term) *Term {
	mk := ex.mapKeys(mt)
	l := mkSelect(ex.heap(st, mk.ln, SInt), m)
	if !l.bound && !m.bound {
		ex.wf(st, mkAnd(mkLe(tZero, l), mkImp(mkEq(m, tZero), mkEq(l, tZero))))
		k := mkNamedBound("mk", mk.ks)
		d := mkSelect(ex.mapDom(st, mt, m), k)
		ex.wf(st, mkImp(mkEq(l, tZero), mkForallPat([]*Term{k}, mkNot(d), []*Term{d})))
	}
	return mkIte(mkEq(m, tZero), tZero, l)
}

func (ex *Ex) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	d := mkSelect(ex.mapDom(st, mt, m), k)
	if m == tZero {
		return tFalse
	}
	ex.wf(st, mkImp(mkEq(m, tZero), mkNot(d)))
	mk := ex.mapKeys(mt)
	ex.wf(st, mkImp(d, mkLe(tOne, mkSelect(ex.heap(st, mk.ln, SInt), m))))
	if ex.pure > 0 && ex.qdepth > 0 {
		return mkAnd(mkNot(mkEq(m, tZero)), d)
	}
	return d
}

func (ex *Ex) mapGet(st *State, mt *types.Map, m, k *Term) Val {
	mk := ex.mapKeys(mt)
	var v Val
	for i, key := range mk.vals {
		v = append(v, mkSelect(mkSelect(ex.heap(st, key, mk.valSort[i]), m), k))
	}
	return v
}

func (ex *Ex) mapStore(st *State, mt *types.Map, m, k *Term, v Val) {
	mk := ex.mapKeys(mt)
	dom := ex.mapDom(st, mt, m)
	has := mkSelect(dom, k)
	ln := mkSelect(ex.heap(st, mk.ln, SInt), m)
	ex.wf(st, mkLe(tZero, ln))
	ex.heapStore(st, Loc{mk.ln, m, SInt}, mkIte(has, ln, mkAdd(ln, tOne)))
	ex.heapStore(st, Loc{mk.dom, m, mk.domSort}, mkStore(dom, k, tTrue))
	for i, key := range mk.vals {
		old := mkSelect(ex.heap(st, key, mk.valSort[i]), m)
		ex.heapStore(st, Loc{key, m, mk.valSort[i]}, mkStore(old, k, v[i]))
	}
}

func (ex *Ex) mapDelete(st *State, mt *types.Map, m, k *Term) {
	mk := ex.mapKeys(mt)
	dom := ex.mapDom(st, mt, m)
	has := mkAnd(mkNot(mkEq(m, tZero)), mkSelect(dom, k))
	ln := mkSelect(ex.heap(st, mk.ln, SInt), m)
	ex.heapStore(st, Loc{mk.ln, m, SInt}, mkIte(has, mkSub(ln, tOne), ln))
	ex.heapStore(st, Loc{mk.dom, m, mk.domSort}, mkStore(dom, k, tFalse))
}

func (fr *frame) lookup(st *State, x *ssa.Lookup) *State {
	ex := fr.ex
	mt, ok := x.X.Type().Underlying().(*types.Map)
	v := fr.get(st, x.X)
	if !ok {
		i := fr.get(st, x.Index)[0]
		ex.oblige(st, "bounds", valName(x.X)+"[]", mkAnd(mkLe(tZero, i), mkLt(i, mkSlen(v[0]))))
		r := Val{ex.mkSat(v[0], i)}
		ex.wfVal(st, r, types.Typ[types.Uint8])
		fr.env[x] = r
		return st
	}
	kv := fr.get(st, x.Index)
	if ex.pure == 0 {
		kv = ex.escVal(st, kv)
	}
	k := mapKeyTerm(mt.Key(), kv)
	has := ex.mapHas(st, mt, v[0], k)
	val := ex.mapGet(st, mt, v[0], k)
	z := zeroVal(mt.Elem())
	r := make(Val, len(val))
	for i := range val {
		r[i] = mkIte(has, val[i], z[i])
	}
	// well-formedness of stored values
	if ex.pure == 0 || ex.qdepth == 0 {
		g := st.clone()
		g.guard = rawAnd(st.guard, has)
		ex.wfVal(g, val, mt.Elem())
	}
	if x.CommaOk {
		r = append(r, has)
	}
	fr.env[x] = r
	return st
}

func (fr *frame) rangeInit(st *State, x *ssa.Range) *State {
	ex := fr.ex
	v := fr.get(st, x.X)
	it := mkConst("iter", SInt)
	info := &iterInfo{ghost: it.Name}
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		info.m = v[0]
		info.mt = mt
		info.domStart = ex.mapDom(st, mt, v[0])
		ex.wf(st, mkImp(mkEq(v[0], tZero), ex.emptyDom(mt, info.domStart)))
		st.ghosts[info.ghost] = mkConstArr(arrSort(mapKeySort(mt.Key()), SBool), tFalse)
	} else {
		info.str = v[0]
		st.ghosts[info.ghost] = tZero
	}
	ex.iters[it] = info
	fr.env[x] = Val{it}
	return st
}

func (ex *Ex) emptyDom(mt *types.Map, dom *Term) *Term {
	k := mkNamedBound("mk", mapKeySort(mt.Key()))
	d := mkSelect(dom, k)
	return mkForallPat([]*Term{k}, mkNot(d), []*Term{d})
}

func (fr *frame) next(st *State, x *ssa.Next) *State {
	ex := fr.ex
	it := fr.get(st, x.Iter)[0]
	info := ex.iters[it]
	ok := mkConst("ok", SBool)
	if x.IsString {
		pos := st.ghosts[info.ghost]
		i, r := mkConst("i", SInt), mkConst("r", SInt)
		w := mkConst("w", SInt)
		n := mkSlen(info.str)
		ex.assume(st, mkEq(ok, mkLt(pos, n)))
		ex.assume(st, mkImp(ok, mkAnd(mkEq(i, pos), mkLe(tOne, w), mkLe(w, mkInt(4)), mkLe(mkAdd(i, w), n), mkLe(tZero, r), mkLe(r, mkInt(0x10ffff)), mkOr(mkLt(r, mkInt(0xd800)), mkLt(mkInt(0xdfff), r)))))
		st.ghosts[info.ghost] = mkAdd(pos, mkIte(ok, w, tZero))
		fr.env[x] = Val{ok, i, r}
		return st
	}
	vis := st.ghosts[info.ghost]
	ks := mapKeySort(info.mt.Key())
	k := mkConst("k", ks)
	dom := ex.mapDom(st, info.mt, info.m)
	val := ex.mapGet(st, info.mt, info.m, k)
	ex.assume(st, mkImp(ok, mkAnd(mkSelect(dom, k), mkNot(mkSelect(vis, k)), mkNot(mkEq(info.m, tZero)))))
	b := mkNamedBound("mk", ks)
	d0, d1 := mkSelect(info.domStart, b), mkSelect(dom, b)
	body := mkImp(mkAnd(d0, d1), mkSelect(vis, b))
	ex.assume(st, mkImp(mkNot(ok), mkForallPat([]*Term{b}, body, []*Term{d1}, []*Term{mkSelect(vis, b)})))
	st.ghosts[info.ghost] = mkIte(ok, mkStore(vis, k, tTrue), vis)
	kt := info.mt.Key()
	var kv Val
	if len(leafSorts(kt)) == 1 {
		kv = Val{k}
	} else {
		kv = unboxPay(kt, k)
	}
	g := st.clone()
	g.guard = rawAnd(st.guard, ok)
	ex.wfVal(g, kv, kt)
	ex.wfVal(g, val, info.mt.Elem())
	r := Val{ok}
	tup := x.Type().(*types.Tuple)
	// the tuple may carry invalid types for blank key/value
	if tup.At(1).Type() == types.Typ[types.Invalid] {
		r = append(r, freshLeaves(tup.At(1).Type())...)
	} else {
		r = append(r, kv...)
	}
	if tup.At(2).Type() == types.Typ[types.Invalid] {
		r = append(r, freshLeaves(tup.At(2).Type())...)
	} else {
		r = append(r, val...)
	}
	fr.env[x] = r
	return st
}

func freshLeaves(t types.Type) Val {
	var v Val
	for _, s := range leafSorts(t) {
		v = append(v, mkConst("inv", s))
	}
	return v
}

// ---- interfaces ----

func (ex *Ex) implTerm(it types.Type, tag *Term) *Term {
	name := "impl." + sanitize(tstr(it))
	if n, ok := isInt(tag); ok {
		if n == 0 {
			return tFalse
		}
		return mkBool(types.Implements(tagTypes[n], it.Underlying().(*types.Interface)))
	}
	ex.w.implIfaces[name] = it
	return mkFun(name, SBool, tag)
}

func (fr *frame) typeAssert(st *State, x *ssa.TypeAssert) *State {
	ex := fr.ex
	v := fr.get(st, x.X)
	tag, pay := v[0], v[1]
	var ok *Term
	var res Val
	if isIface(x.AssertedType) {
		from := x.X.Type().Underlying().(*types.Interface)
		to := x.AssertedType.Underlying().(*types.Interface)
		if types.Implements(x.X.Type(), to) || types.AssignableTo(from, to) {
			ok = mkNot(mkEq(tag, tZero))
		} else {
			ok = mkAnd(mkNot(mkEq(tag, tZero)), ex.implTerm(x.AssertedType, tag))
		}
		res = Val{tag, pay}
	} else {
		tg := tagOf(x.AssertedType)
		ok = mkEq(tag, tg)
		res = unboxPay(x.AssertedType, pay)
		if _, direct := isInt(tag); !direct && len(res) > 0 && !(len(res) == 1 && res[0] == pay) {
			g := st.clone()
			g.guard = rawAnd(st.guard, ok)
			ex.wf(g, mkEq(boxPay(x.AssertedType, res), pay))
		}
		if ex.pure == 0 || ex.qdepth == 0 {
			g := st.clone()
			g.guard = rawAnd(st.guard, ok)
			ex.wfVal(g, res, x.AssertedType)
		}
	}
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		r := make(Val, len(res))
		for i := range res {
			if c, isC := ex.closures[res[i]]; isC && c != nil {
				r[i] = res[i]
				continue
			}
			r[i] = mkIte(ok, res[i], z[i])
		}
		fr.env[x] = append(r, ok)
		return st
	}
	ex.oblige(st, "typeassert", valName(x.X)+".("+tstr(x.AssertedType)+")", ok)
	fr.env[x] = res
	return st
}

func sortedCells(m map[*Term]Val) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
