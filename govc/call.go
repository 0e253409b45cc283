package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPath = modPath + "/zz_vc"

type specClosure struct {
	name  string
	clo   *closure
	guard *Term
	st    *State // cells of the contract frame
	entry *State // heaps at contract entry
	fr    *frame
}

type specRec struct {
	requires []specCond
	ensures  []*specClosure
	invs     []*specClosure
	decs     []*specClosure
	assumes  []specCond
	mods     []modSpec
	modAll   map[string]bool
	modSorts map[string]Sort
	entry    *State
}

type specCond struct {
	name string
	t    *Term
}

type modSpec struct {
	kind string // obj, elems
	t    types.Type
	v    Val
	cond *Term
}

func fnKey(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.String()
}

// call executes a call instruction. x may be nil (deferred call).
func (fr *frame) call(st *State, x ssa.Value, c *ssa.CallCommon, ins ssa.Instruction) *State {
	ex := fr.ex
	set := func(v Val) {
		if x != nil {
			fr.env[x] = v
		}
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.get(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, x, b, c, args)
	}
	if c.IsInvoke() {
		recv := fr.get(st, c.Value)
		if ex.pure == 0 {
			ex.oblige(st, "nil", valName(c.Value)+"."+c.Method.Name(), mkNot(mkEq(recv[0], tZero)))
		}
		if n, ok := isInt(recv[0]); ok && n != 0 {
			t := tagTypes[n]
			if m := ex.w.methodOf(t, c.Method); m != nil {
				all := append([]Val{unboxPay(t, recv[1])}, args...)
				ns, v := ex.callFn(st, m, all, nil, fr, c)
				if ns == nil {
					return nil
				}
				set(v)
				return ns
			}
		}
		key := c.Method.FullName()
		all := append([]Val{recv}, args...)
		ats := []types.Type{c.Value.Type()}
		for _, a := range c.Args {
			ats = append(ats, a.Type())
		}
		if ex.w.contracts[key] == nil && strings.HasPrefix(key, "(") {
			// an interface declared inside a function is named by its
			// counterpart vc_X in the contract files
			if i := strings.LastIndex(key[:strings.Index(key, ")")], "."); i > 0 {
				if k := key[:i+1] + "vc_" + key[i+1:]; ex.w.contracts[k] != nil {
					key = k
				}
			}
		}
		if con := ex.w.contracts[key]; con != nil {
			if ex.pure > 0 {
				if !con.pureFn {
					panic(unsupportedErr{"call of " + key + " in specification"})
				}
				set(ex.pureApp(st, key, all, ats, c.Signature().Results(), con))
				return st
			}
			ns, v := ex.applyContract(st, con, key, all, ats, c.Signature().Results(), c.Method.Name())
			if ns == nil {
				return nil
			}
			set(v)
			return ns
		}
		ns, v := ex.external(st, key, all, ats, c.Signature().Results())
		set(v)
		return ns
	}
	if f := c.StaticCallee(); f != nil {
		var free []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, fr.get(st, b))
			}
		}
		ns, v := ex.callFn(st, f, args, free, fr, c)
		if ns == nil {
			return nil
		}
		set(v)
		return ns
	}
	// dynamic function value
	fv := fr.get(st, c.Value)[0]
	if cl, ok := ex.closures[fv]; ok {
		ns, v := ex.callFn(st, cl.fn, args, cl.binds, fr, c)
		if ns == nil {
			return nil
		}
		set(v)
		return ns
	}
	if ex.pure == 0 {
		ex.oblige(st, "nil", valName(c.Value)+"()", mkNot(mkEq(fv, tZero)))
	}
	var ats []types.Type
	for _, a := range c.Args {
		ats = append(ats, a.Type())
	}
	// contract for calls of this function type
	if nt, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		key := nt.Obj().Pkg().Path() + "." + nt.Obj().Name()
		if con := ex.w.contracts[key]; con != nil {
			ex.extra = fv
			if ex.pure > 0 {
				if !con.pureFn {
					panic(unsupportedErr{"call of a function value in specification"})
				}
				v := ex.pureApp(st, key, args, ats, c.Signature().Results(), con)
				ex.extra = nil
				set(v)
				return st
			}
			ns, v := ex.applyContract(st, con, key, args, ats, c.Signature().Results(), nt.Obj().Name())
			ex.extra = nil
			if ns == nil {
				return nil
			}
			ex.logCall(ns, fv, ats, args)
			set(v)
			return ns
		}
	}
	ns, v := ex.external(st, "func value "+valName(c.Value)+" in "+fr.fn.String(), args, ats, c.Signature().Results())
	ex.logCall(ns, fv, ats, args)
	set(v)
	return ns
}

// logCall records the first argument in the ghost call log of a function value.
func (ex *Ex) logCall(st *State, fv *Term, ats []types.Type, args []Val) {
	if len(args) == 0 || ex.pure > 0 {
		return
	}
	g := "called:" + fv.Name
	cur, ok := st.ghosts[g]
	if !ok {
		return
	}
	a := ex.escVal(st, args[0])
	st.ghosts[g] = mkStore(cur, logKey(ats[0], a), tTrue)
}

func logKey(t types.Type, v Val) *Term {
	if isIface(t) {
		return mkFun("pairI", SInt, v...)
	}
	if len(v) == 1 && v[0].Sort == SInt {
		return v[0]
	}
	return boxPay(t, v)
}

func (ex *Ex) callFn(st *State, f *ssa.Function, args []Val, free []Val, fr *frame, c *ssa.CallCommon) (*State, Val) {
	if f.Pkg != nil && f.Pkg.Pkg.Path() == vcPath {
		return ex.vcCall(st, f, args, fr, c)
	}
	key := fnKey(f)
	if f.Synthetic != "" && f.Object() != nil && f.Blocks != nil && ex.w.contracts[key] != nil && strings.Contains(f.Synthetic, "wrapper") {
		// promoted-method wrapper: inline it so the real method's contract is used
		return ex.runInline(st, f, args, free, fr)
	}
	con := ex.w.contracts[key]
	if f.Parent() != nil && con == nil {
		con = ex.w.contracts[f.String()]
	}
	sig := f.Signature
	var ats []types.Type
	for _, p := range f.Params {
		ats = append(ats, p.Type())
	}
	if f.Params == nil {
		if sig.Recv() != nil {
			ats = append(ats, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
	}
	if ex.pure > 0 {
		if con != nil && con.pureFn {
			return st, ex.pureApp(st, key, args, ats, sig.Results(), con)
		}
		if len(f.Blocks) > 0 && ex.w.isRepo(f) {
			if len(ex.stack) > 60 {
				panic(unsupportedErr{"recursion in specification: " + key})
			}
			return ex.runInline(st, f, args, free, fr)
		}
		return st, ex.pureApp(st, key, args, ats, sig.Results(), nil)
	}
	if con != nil && !con.inline {
		return ex.applyContract(st, con, key, args, ats, sig.Results(), f.Name())
	}
	if len(f.Blocks) > 0 && (ex.w.isRepo(f) || f.Synthetic != "") {
		depth := 0
		for _, s := range ex.stack {
			if s == f {
				depth++
			}
		}
		if depth > 0 {
			ex.unsupported(st, "recursive call of "+key+" without contract")
			return nil, nil
		}
		if len(ex.stack) > 14 {
			ex.unsupported(st, "inline depth at "+key)
			return nil, nil
		}
		return ex.runInline(st, f, args, free, fr)
	}
	return ex.external(st, key, args, ats, sig.Results())
}

// hasHeapView: does the value's meaning depend on the heap?
func heapDependent(t types.Type) bool {
	if isOpaque(t) || isSeq(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if heapDependent(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return heapDependent(u.Elem())
	}
	return false
}

func (ex *Ex) pureApp(st *State, key string, args []Val, ats []types.Type, res *types.Tuple, con *Contract) Val {
	var flat []*Term
	if ex.extra != nil {
		flat = append(flat, ex.extra)
		ex.extra = nil
	}
	for i, a := range args {
		if con == nil && i < len(ats) && heapDependent(ats[i]) {
			panic(unsupportedErr{"call of " + key + " in specification: argument depends on the heap"})
		}
		if ex.pure == 0 {
			a = ex.escVal(st, a)
		}
		flat = append(flat, a...)
	}
	if con != nil && con.entrySpec {
		if ex.entryId == nil {
			ex.entryId = tZero
		}
		flat = append(flat, ex.entryId)
	} else if con != nil {
		flat = append(flat, ex.heapArgs(st, ats)...)
	}
	var v Val
	k := 0
	for i := 0; i < res.Len(); i++ {
		for _, s := range leafSorts(res.At(i).Type()) {
			v = append(v, mkFun(fmt.Sprintf("pf%d.%s", k, sanitize(key)), s, flat...))
			k++
		}
	}
	return v
}

// heapArgs: the parts of memory a pure function can see through its arguments
// (slice elements, map entries and objects pointed to, one level deep).
func (ex *Ex) heapArgs(st *State, ats []types.Type) []*Term {
	keys := map[string]Sort{}
	seen := map[string]bool{}
	var add func(t types.Type, depth int)
	add = func(t types.Type, depth int) {
		if isOpaque(t) || seen[tstr(t)] {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if !isSeq(t) {
				typeKeys(u.Elem(), keys)
			}
			add(u.Elem(), depth)
		case *types.Pointer:
			if depth < 1 && !isOpaque(u.Elem()) {
				seen[tstr(t)] = true
				typeKeys(u.Elem(), keys)
				add(u.Elem(), depth+1)
			}
		case *types.Map:
			mk := ex.mapKeys(u)
			keys[mk.dom] = mk.domSort
			for i, k := range mk.vals {
				keys[k] = mk.valSort[i]
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && depth > 0 {
					continue
				}
				add(u.Field(i).Type(), depth)
			}
		}
	}
	for _, t := range ats {
		add(t, 0)
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Term
	for _, k := range ks {
		out = append(out, ex.heap(st, k, keys[k]))
	}
	return out
}

// quantHeaps: inside an axiom, memory is quantified over as far as the
// patterns mention it, and is the entry memory otherwise.
func (ex *Ex) quantHeaps(vars []*Term, body *Term, pats []*Term) ([]*Term, *Term, []*Term) {
	if !ex.inAxiom || ex.qdepth > 0 {
		return vars, body, pats
	}
	var look *Term
	if pats != nil {
		look = mkAnd(pats...)
	}
	inPat := map[int]bool{}
	if pats != nil {
		for _, p := range pats {
			collectVars(p, inPat, map[int]bool{})
		}
	} else {
		// only heaps that occur in an application of a pure function
		var rec func(t *Term)
		seen := map[*Term]bool{}
		entry := false
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "fun" && strings.HasPrefix(t.Name, "pf") {
				if i := strings.IndexByte(t.Name, '.'); entrySpecs[t.Name[i+1:]] {
					entry = true
				}
				for _, a := range t.Args {
					if a.Op == "var" {
						inPat[a.id] = true
					}
				}
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(body)
		if entry {
			inPat = map[int]bool{}
		}
	}
	_ = look
	m := map[*Term]*Term{}
	var hs []string
	for k := range ex.axHeaps {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		b := ex.axHeaps[k]
		if inPat[b.id] {
			vars = append(vars, b)
		} else {
			m[b] = ex.initHeap(k, arrElem(b.Sort))
		}
	}
	if len(m) > 0 {
		body = subst(body, m)
		for i := range pats {
			pats[i] = subst(pats[i], m)
		}
	}
	return vars, body, pats
}

// external models a call to code outside the module (or an unknown function
// value): arbitrary well-formed results, no effect on modelled memory.
func (ex *Ex) external(st *State, key string, args []Val, ats []types.Type, res *types.Tuple) (*State, Val) {
	if con := ex.w.contracts[key]; con != nil && !con.inline {
		return ex.applyContract(st, con, key, args, ats, res, key)
	}
	ex.assume_["external "+key+": terminates, does not panic, result unconstrained, no effect on modelled memory"] = true
	pure := ex.w.purePkg(key)
	if pure {
		for _, t := range ats {
			if heapDependent(t) {
				pure = false
			}
		}
	}
	if pure {
		v := ex.pureApp(st, key, args, ats, res, nil)
		ex.wfExt(st, v, res)
		return st, v
	}
	// pointers to local cells handed out directly: content becomes arbitrary
	for i, a := range args {
		if i >= len(ats) {
			break
		}
		if pt, ok := ats[i].Underlying().(*types.Pointer); ok {
			if c, off, n, t, live := ex.live(st, a[0]); live {
				if _, isG := ex.globals[c]; isG {
					continue
				}
				nv := append(Val(nil), st.cells[c]...)
				copy(nv[off:off+n], freshVal("ext", t))
				st.cells[c] = nv
				ex.wfVal(st, nv[off:off+n], t)
			} else if isOpaque(pt.Elem()) {
				for _, l := range ex.locsOf(st, a[0], pt.Elem()) {
					ex.heapStore(st, l, mkConst("ext", l.Sort))
				}
			}
		}
	}
	a1 := mkConst("alloc", SInt)
	ex.assume(st, mkLe(st.alloc, a1))
	st.alloc = a1
	v := freshVal("ext", res)
	ex.wfVal(st, v, res)
	return st, v
}

func (ex *Ex) wfExt(st *State, v Val, res *types.Tuple) {
	if ex.dry > 0 {
		return
	}
	// results of pure external functions may be fresh objects: only
	// non-pointer facts are sound
	off := 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		n := len(leafSorts(t))
		if b, ok := t.Underlying().(*types.Basic); ok {
			if _, _, r := intRange(b); r {
				ex.wfVal(st, v[off:off+n], t)
			}
		}
		if isIface(t) {
			ex.wf(st, mkAnd(mkLe(tZero, v[off]), mkImp(mkEq(v[off], tZero), mkEq(v[off+1], tZero))))
		}
		off += n
	}
}

// ---- contracts ----

func (ex *Ex) pureState(st *State) *State {
	n := st.clone()
	o := st.guard
	if st.outer != nil {
		o = mkAnd(st.outer, st.guard)
	}
	n.outer = o
	n.guard = tTrue
	return n
}

// lift makes facts found inside the branches of a specification (guarded by
// those branches) available wherever the state's own facts are.
func (ex *Ex) lift(from int, st *State) {
	for i := from; i < len(ex.facts); i++ {
		if ex.facts[i].Inst != 0 {
			ex.facts[i].Inst = st.inst
		}
	}
}

// specEntry evaluates the contract body at the given state.
func (ex *Ex) specEntry(st *State, con *Contract, args []Val, ats []types.Type, key string) *specRec {
	rec := &specRec{}
	save := ex.curSpec()
	ex.w.specStack = append(ex.w.specStack, rec)
	_ = save
	ps := ex.pureState(st)
	rec.entry = st.clone()
	bound := ex.bindContractArgs(con, args, ats, key)
	ex.pure++
	fr := &frame{ex: ex, fn: con.fn, env: map[ssa.Value]Val{}, allocs: map[*ssa.Alloc]*Term{}}
	for i, p := range con.fn.Params {
		fr.env[p] = bound[i]
	}
	ex.stack = append(ex.stack, con.fn)
	nf := len(ex.facts)
	fr.runBody(ps)
	ex.lift(nf, st)
	ex.stack = ex.stack[:len(ex.stack)-1]
	ex.pure--
	ex.w.specStack = ex.w.specStack[:len(ex.w.specStack)-1]
	// closures evaluate with the contract frame's final cells
	if len(fr.rets) > 0 {
		var fin *State
		if len(fr.rets) == 1 {
			fin = fr.rets[0].st
		}
		if fin != nil {
			for _, l := range [][]*specClosure{rec.ensures, rec.invs, rec.decs} {
				for _, sc := range l {
					sc.st = fin
				}
			}
		}
	}
	return rec
}

func (ex *Ex) curSpec() *specRec {
	if len(ex.w.specStack) == 0 {
		return nil
	}
	return ex.w.specStack[len(ex.w.specStack)-1]
}

func (ex *Ex) bindContractArgs(con *Contract, args []Val, ats []types.Type, key string) []Val {
	ps := con.fn.Params
	conv := func(p *ssa.Parameter, a Val, at types.Type) Val {
		if isIface(p.Type()) && !isIface(at) {
			return Val{tagOf(at), boxPay(at, a)}
		}
		if len(leafSorts(p.Type())) != len(a) {
			panic(unsupportedErr{fmt.Sprintf("contract %s: parameter %s has type %s, argument is %s", con.fn.Name(), p.Name(), tstr(p.Type()), tstr(at))})
		}
		return a
	}
	var out []Val
	if len(ps) == len(args) {
		for i, p := range ps {
			out = append(out, conv(p, args[i], ats[i]))
		}
		return out
	}
	// by name against the target's parameter names
	names := ex.w.paramNames(key)
	for _, p := range ps {
		found := false
		for i, n := range names {
			if n == p.Name() && i < len(args) {
				out = append(out, conv(p, args[i], ats[i]))
				found = true
				break
			}
		}
		if !found {
			panic(unsupportedErr{fmt.Sprintf("contract %s: cannot bind parameter %s for %s", con.fn.Name(), p.Name(), key)})
		}
	}
	return out
}

// evalBool evaluates a specification closure in a state.
func (ex *Ex) evalBool(sc *specClosure, st *State, args []Val) *Term {
	v := ex.evalSpec(sc, st, args)
	r := v[0]
	if sc.guard != nil {
		r = mkImp(sc.guard, r)
	}
	return r
}

func (ex *Ex) evalSpec(sc *specClosure, st *State, args []Val) Val {
	ps := ex.pureState(st)
	for k, v := range sc.st.cells {
		if _, ok := ps.cells[k]; !ok {
			ps.cells[k] = v
		}
	}
	ex.pure++
	ex.w.specStack = append(ex.w.specStack, &specRec{entry: sc.entry})
	nf := len(ex.facts)
	ns, v := ex.runInline(ps, sc.clo.fn, args, sc.clo.binds, nil)
	ex.lift(nf, st)
	ex.w.specStack = ex.w.specStack[:len(ex.w.specStack)-1]
	ex.pure--
	if ns == nil {
		panic(unsupportedErr{"specification closure does not return: " + sc.name})
	}
	return v
}

// bindResults maps result leaves to the closure's parameters.
func (ex *Ex) bindResults(sc *specClosure, v Val, res *types.Tuple) []Val {
	ps := sc.clo.fn.Params
	var rv []Val
	off := 0
	for i := 0; i < res.Len(); i++ {
		n := len(leafSorts(res.At(i).Type()))
		rv = append(rv, v[off:off+n])
		off += n
	}
	if len(ps) == 0 {
		return nil
	}
	conv := func(p *ssa.Parameter, i int) Val {
		at := res.At(i).Type()
		if isIface(p.Type()) && !isIface(at) {
			return Val{tagOf(at), boxPay(at, rv[i])}
		}
		if len(leafSorts(p.Type())) != len(rv[i]) {
			panic(unsupportedErr{fmt.Sprintf("ensures %s: parameter %s has type %s, result is %s", sc.name, p.Name(), tstr(p.Type()), tstr(at))})
		}
		return rv[i]
	}
	if len(ps) == res.Len() {
		var out []Val
		for i, p := range ps {
			out = append(out, conv(p, i))
		}
		return out
	}
	var out []Val
	for _, p := range ps {
		k := -1
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), p.Type()) {
				k = i
				break
			}
		}
		if k < 0 {
			panic(unsupportedErr{fmt.Sprintf("ensures %s: cannot bind %s", sc.name, p.Name())})
		}
		out = append(out, conv(p, k))
	}
	return out
}

func (ex *Ex) applyContract(st *State, con *Contract, key string, args []Val, ats []types.Type, res *types.Tuple, name string) (*State, Val) {
	for i := range args {
		args[i] = ex.escVal(st, args[i])
		// closures handed to a contracted function: captured cells escape
		if cl, ok := ex.closures[args[i][0]]; ok {
			ex.escapeClosure(st, cl)
		}
	}
	if ex.dry == 0 {
		if con.trusted {
			ex.assume_["assumed contract "+con.fn.Name()+" for "+key] = true
		} else {
			ex.usedCon[key] = true
		}
	}
	extra := ex.extra
	ex.extra = nil
	// specification functions fixed at entry speak of the callee's entry
	id := ex.entryId
	defer func() { ex.entryId = id }()
	if !ex.unchanged(st) {
		ex.entryId = mkConst("entry", SInt)
	}
	rec := ex.specEntry(st, con, args, ats, key)
	for _, r := range rec.requires {
		ex.oblige(st, "call", name+"/"+r.name, r.t)
	}
	var v Val
	if con.pureFn {
		ex.extra = extra
		v = ex.pureApp(st, key, args, ats, res, con)
		ex.wfExt(st, v, res)
	} else {
		a1 := mkConst("alloc", SInt)
		ex.assume(st, mkLe(st.alloc, a1))
		st.alloc = a1
		ex.havocMods(st, rec)
		v = freshVal("r."+name, res)
		ex.wfVal(st, v, res)
	}
	for _, e := range rec.ensures {
		t := ex.evalBool(e, st, ex.bindResults(e, v, res))
		ex.assume(st, t)
	}
	return st, v
}

// unchanged: no memory has been written since entry.
func (ex *Ex) unchanged(st *State) bool {
	for k, h := range st.heaps {
		h0 := ex.heapInit[k]
		if ex.entry != nil {
			if eh, ok := ex.entry.heaps[k]; ok {
				h0 = eh
			}
		}
		if h != h0 {
			return false
		}
	}
	return true
}

func (ex *Ex) escapeClosure(st *State, cl *closure) {
	for _, b := range cl.binds {
		ex.escVal(st, b)
	}
}

func (ex *Ex) havocMods(st *State, rec *specRec) {
	for _, m := range rec.mods {
		switch m.kind {
		case "obj":
			pt, ok := m.t.Underlying().(*types.Pointer)
			if ok {
				et := pt.Elem()
				nv := freshVal("mod", et)
				for i, l := range locs(et, m.v[0]) {
					v := nv[i]
					if m.cond != nil && m.cond.Op != "true" {
						v = mkIte(m.cond, v, mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr))
					}
					ex.heapStore(st, l, v)
				}
				ex.wfVal(st, nv, et)
				continue
			}
			if mt, ok := m.t.Underlying().(*types.Map); ok {
				mk := ex.mapKeys(mt)
				ex.heapStore(st, Loc{mk.dom, m.v[0], mk.domSort}, mkConst("dom", mk.domSort))
				l := mkConst("len", SInt)
				ex.assume(st, mkLe(tZero, l))
				ex.heapStore(st, Loc{mk.ln, m.v[0], SInt}, l)
				for i, k := range mk.vals {
					ex.heapStore(st, Loc{k, m.v[0], mk.valSort[i]}, mkConst("mv", mk.valSort[i]))
				}
				continue
			}
			if sl, ok := m.t.Underlying().(*types.Slice); ok && !isSeq(m.t) {
				// elements of the slice
				keys := map[string]Sort{}
				typeKeys(sl.Elem(), keys)
				for k, s := range keys {
					h := ex.heap(st, k, s)
					nh := mkConst("H."+k, h.Sort)
					a := mkNamedBound("fa", SInt)
					ex.assume(st, mkForallPat([]*Term{a}, mkImp(mkOr(mkEq(m.v[3], tZero), mkNot(mkEq(mkFun("root", SInt, a), tRoot(m.v[0])))), mkEq(mkSelect(nh, a), mkSelect(h, a))), []*Term{mkSelect(nh, a)}))
					st.heaps[k] = nh
					if ex.stores != nil {
						ex.stores[k] = append(ex.stores[k], mkSx(m.v[0], m.v[1], tZero))
					}
				}
				continue
			}
			panic(unsupportedErr{"modifies of " + tstr(m.t)})
		}
	}
	var ks []string
	for k := range rec.modAll {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := ex.heap(st, k, rec.modSorts[k])
		st.heaps[k] = mkConst("H."+k, h.Sort)
		if ex.stores != nil {
			ex.stores[k] = append(ex.stores[k], mkConst("anyaddr", SInt))
		}
	}
}

// ---- specification library ----

func (ex *Ex) closureArg(v Val, iface bool) *closure {
	t := v[0]
	if iface {
		t = v[1]
	}
	cl, ok := ex.closures[t]
	if !ok {
		panic(unsupportedErr{"specification argument is not a function literal"})
	}
	return cl
}

func (ex *Ex) vcCall(st *State, f *ssa.Function, args []Val, fr *frame, c *ssa.CallCommon) (*State, Val) {
	rec := ex.curSpec()
	str := func(i int) string {
		if args[i][0].Op != "strc" {
			panic(unsupportedErr{"specification name must be constant"})
		}
		return args[i][0].Name
	}
	mkSC := func(i int) *specClosure {
		cl := ex.closureArg(args[i], true)
		return &specClosure{name: str(0), clo: cl, guard: st.guard, st: st.clone(), entry: rec.entry, fr: fr}
	}
	switch f.Name() {
	case "Requires":
		rec.requires = append(rec.requires, specCond{str(0), mkImp(st.guard, args[1][0])})
		return st, nil
	case "Assume":
		rec.assumes = append(rec.assumes, specCond{str(0), mkImp(st.guard, args[1][0])})
		return st, nil
	case "Ensures":
		rec.ensures = append(rec.ensures, mkSC(1))
		return st, nil
	case "Invariant":
		rec.invs = append(rec.invs, mkSC(1))
		return st, nil
	case "Decreases":
		rec.decs = append(rec.decs, mkSC(1))
		return st, nil
	case "Modifies", "ModifiesIf":
		va := args[0]
		cond := st.guard
		if f.Name() == "ModifiesIf" {
			cond = mkAnd(cond, args[0][0])
			va = args[1]
		}
		cellT, off, _, _, ok := ex.live(st, va[0])
		if !ok {
			if n, isC := isInt(va[2]); isC && n == 0 {
				return st, nil
			}
			panic(unsupportedErr{"Modifies arguments"})
		}
		cv := ex.cellVal(st, cellT)
		n, _ := isInt(va[2])
		for i := 0; i < int(n); i++ {
			tag, pay := cv[off+2*i], cv[off+2*i+1]
			id, isC := isInt(tag)
			if !isC {
				panic(unsupportedErr{"Modifies argument of unknown type"})
			}
			t := tagTypes[id]
			rec.mods = append(rec.mods, modSpec{"obj", t, unboxPay(t, pay), cond})
		}
		return st, nil
	case "ModifiesField":
		// one field of every object of the pointer's element type
		id, isC := isInt(args[0][0])
		if !isC || args[1][0].Op != "strc" {
			panic(unsupportedErr{"ModifiesField argument"})
		}
		pt, ok := tagTypes[id].Underlying().(*types.Pointer)
		if !ok {
			panic(unsupportedErr{"ModifiesField argument"})
		}
		if rec.modAll == nil {
			rec.modAll = map[string]bool{}
			rec.modSorts = map[string]Sort{}
		}
		u := pt.Elem().Underlying().(*types.Struct)
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == args[1][0].Name {
				found = true
				for _, l := range fieldLocs(pt.Elem(), i, tZero) {
					rec.modAll[l.Key] = true
					rec.modSorts[l.Key] = l.Sort
				}
			}
		}
		if !found {
			panic(unsupportedErr{"ModifiesField: no field " + args[1][0].Name})
		}
		return st, nil
	case "ModifiesAll":
		// every object of the pointer's element type
		id, isC := isInt(args[0][0])
		if !isC {
			panic(unsupportedErr{"ModifiesAll argument"})
		}
		if rec.modAll == nil {
			rec.modAll = map[string]bool{}
			rec.modSorts = map[string]Sort{}
		}
		switch u := tagTypes[id].Underlying().(type) {
		case *types.Pointer:
			ks := map[string]Sort{}
			typeKeys(u.Elem(), ks)
			for k, s := range ks {
				rec.modAll[k] = true
				rec.modSorts[k] = s
			}
		case *types.Map:
			mk := ex.mapKeys(u)
			rec.modAll[mk.dom], rec.modSorts[mk.dom] = true, mk.domSort
			rec.modAll[mk.ln], rec.modSorts[mk.ln] = true, SInt
			for i, k := range mk.vals {
				rec.modAll[k], rec.modSorts[k] = true, mk.valSort[i]
			}
		case *types.Slice:
			ks := map[string]Sort{}
			typeKeys(u.Elem(), ks)
			for k, s := range ks {
				rec.modAll[k] = true
				rec.modSorts[k] = s
			}
		}
		return st, nil
	case "Forall", "Exists":
		lo, hi := args[0][0], args[1][0]
		cl := ex.closureArg(args[2], false)
		b := mkNamedBound(fmt.Sprintf("q%d", ex.qdepth+1), SInt)
		ex.qdepth++
		ps := st.clone()
		ps.guard = tTrue
		ns, v := ex.runInline(ps, cl.fn, []Val{{b}}, cl.binds, fr)
		ex.qdepth--
		if ns == nil {
			panic(unsupportedErr{"quantifier body does not return"})
		}
		rng := mkAnd(mkLe(lo, b), mkLt(b, hi))
		if f.Name() == "Forall" {
			return st, Val{mkForall([]*Term{b}, mkImp(rng, v[0]))}
		}
		return st, Val{mkExists([]*Term{b}, mkAnd(rng, v[0]))}
	case "All", "Some":
		cl := ex.closureArg(args[0], true)
		var vars []*Term
		var as []Val
		ex.qdepth++
		for pi, p := range cl.fn.Params {
			var a Val
			for li, s := range leafSorts(p.Type()) {
				b := mkNamedBound(fmt.Sprintf("q%d.%d.%d", ex.qdepth, pi, li), s)
				vars = append(vars, b)
				a = append(a, b)
			}
			as = append(as, a)
		}
		ps := st.clone()
		ps.guard = tTrue
		ns, v := ex.runInline(ps, cl.fn, as, cl.binds, fr)
		ex.qdepth--
		if ns == nil {
			panic(unsupportedErr{"quantifier body does not return"})
		}
		if f.Name() == "All" {
			vars, body, _ := ex.quantHeaps(vars, v[0], nil)
			return st, Val{mkForall(vars, body)}
		}
		return st, Val{mkExists(vars, v[0])}
	case "AllPat":
		tr, cl := ex.closureArg(args[0], true), ex.closureArg(args[1], true)
		var vars []*Term
		var as []Val
		ex.qdepth++
		for pi, p := range cl.fn.Params {
			var a Val
			for li, s := range leafSorts(p.Type()) {
				b := mkNamedBound(fmt.Sprintf("q%d.%d.%d", ex.qdepth, pi, li), s)
				vars = append(vars, b)
				a = append(a, b)
			}
			as = append(as, a)
		}
		ps := st.clone()
		ps.guard = tTrue
		_, tv := ex.runInline(ps, tr.fn, as, tr.binds, fr)
		ps = st.clone()
		ps.guard = tTrue
		ns, v := ex.runInline(ps, cl.fn, as, cl.binds, fr)
		ex.qdepth--
		if ns == nil {
			panic(unsupportedErr{"quantifier body does not return"})
		}
		var pats []*Term
		var collect func(t *Term)
		collect = func(t *Term) {
			switch t.Op {
			case "and", "or", "not", "ite", "=":
				for _, a := range t.Args {
					collect(a)
				}
				return
			case "var":
				return
			}
			if t.bound {
				pats = append(pats, t)
			}
		}
		collect(tv[0])
		vars, body, pats := ex.quantHeaps(vars, v[0], pats)
		return st, Val{mkForallPat(vars, body, pats)}
	case "Old", "OldInt", "OldStr":
		cl := ex.closureArg(args[0], false)
		ps := st.clone()
		ps.heaps = rec.entry.clone().heaps
		ps.alloc = rec.entry.alloc
		for k, v := range rec.entry.ghosts {
			ps.ghosts[k] = v
		}
		ns, v := ex.runInline(ps, cl.fn, nil, cl.binds, fr)
		if ns == nil {
			panic(unsupportedErr{"Old body does not return"})
		}
		return st, v
	case "Fresh":
		// an interface argument: pointer, map or slice
		tag, pay := args[0][0], args[0][1]
		id, isC := isInt(tag)
		if isC {
			t := tagTypes[id]
			v := unboxPay(t, pay)
			return st, Val{mkAnd(mkNot(mkEq(v[0], tZero)), mkLe(rec.entry.alloc, tRoot(v[0])))}
		}
		return st, Val{mkAnd(mkNot(mkEq(pay, tZero)), mkLe(rec.entry.alloc, tRoot(pay)))}
	case "Same":
		id, isC := isInt(args[0][0])
		id2, isC2 := isInt(args[1][0])
		if !isC || !isC2 || id != id2 {
			panic(unsupportedErr{"Same needs two values of one type"})
		}
		t := tagTypes[id]
		x, y := unboxPay(t, args[0][1]), unboxPay(t, args[1][1])
		var eqs []*Term
		for i := range x {
			eqs = append(eqs, mkEq(x[i], y[i]))
		}
		return st, Val{mkAnd(eqs...)}
	case "PartOf":
		id, isC := isInt(args[0][0])
		id2, isC2 := isInt(args[1][0])
		if !isC || !isC2 {
			panic(unsupportedErr{"PartOf needs two values of known type"})
		}
		declElem()
		x, y := unboxPay(tagTypes[id], args[0][1]), unboxPay(tagTypes[id2], args[1][1])
		return st, Val{mkEq(tRoot(x[0]), tRoot(y[0]))}
	case "Allocated":
		tag, pay := args[0][0], args[0][1]
		id, isC := isInt(tag)
		if isC {
			t := tagTypes[id]
			v := unboxPay(t, pay)
			return st, Val{mkLt(tRoot(v[0]), st.alloc)}
		}
		return st, Val{mkLt(tRoot(pay), st.alloc)}
	case "Visited":
		// key of the innermost map iteration in progress
		tag, pay := args[0][0], args[0][1]
		id, isC := isInt(tag)
		if !isC {
			panic(unsupportedErr{"Visited key type"})
		}
		t := tagTypes[id]
		kv := unboxPay(t, pay)
		k := mapKeyTerm(t, kv)
		best := ex.newestIter(st, t)
		if best == nil {
			panic(unsupportedErr{"Visited outside a map loop"})
		}
		return st, Val{mkSelect(best, k)}
	case "Called":
		fv := args[0][1]
		g := "called:" + fv.Name
		cur, ok := st.ghosts[g]
		if !ok {
			panic(unsupportedErr{"Called: no call log for " + fv.Name})
		}
		tag, pay := args[1][0], args[1][1]
		var k *Term
		if id, isC := isInt(tag); isC {
			t := tagTypes[id]
			_ = t
			k = mkFun("pairI", SInt, tag, pay)
		} else {
			k = mkFun("pairI", SInt, tag, pay)
		}
		return st, Val{mkSelect(cur, k)}
	case "SameElems":
		a, b := args[0], args[1]
		return st, Val{mkAnd(mkEq(a[0], b[0]), mkEq(a[1], b[1]))}
	case "Implies":
		return st, Val{mkImp(args[0][0], args[1][0])}
	case "Iff":
		return st, Val{mkEq(args[0][0], args[1][0])}
	}
	panic(unsupportedErr{"unknown specification function " + f.Name()})
}

func (ex *Ex) newestIter(st *State, kt types.Type) *Term {
	var best *Term
	bs := -1
	for it, info := range ex.iters {
		if info.mt == nil || !types.Identical(info.mt.Key().Underlying(), kt.Underlying()) {
			continue
		}
		g, ok := st.ghosts[info.ghost]
		if !ok {
			continue
		}
		if it.seq > bs {
			bs = it.seq
			best = g
		}
	}
	return best
}

// ---- builtins ----

func (fr *frame) builtin(st *State, x ssa.Value, b *ssa.Builtin, c *ssa.CallCommon, args []Val) *State {
	ex := fr.ex
	set := func(v Val) {
		if x != nil {
			fr.env[x] = v
		}
	}
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		if isSeq(t) {
			if b.Name() == "cap" {
				ex.unsupported(st, "cap of sequence")
				return nil
			}
			set(Val{mkQlen(args[0][0])})
			return st
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				set(Val{args[0][2]})
			} else {
				set(Val{args[0][3]})
			}
		case *types.Basic:
			n := mkSlen(args[0][0])
			ex.wf(st, mkLe(tZero, n))
			ex.wf(st, mkImp(mkEq(n, tZero), mkEq(args[0][0], mkStrConst(""))))
			set(Val{n})
		case *types.Map:
			set(Val{ex.mapLen(st, u, args[0][0])})
		case *types.Array:
			set(Val{mkInt(u.Len())})
		case *types.Pointer:
			set(Val{mkInt(u.Elem().Underlying().(*types.Array).Len())})
		default:
			ex.unsupported(st, "len of "+tstr(t))
			return nil
		}
		return st
	case "append":
		return fr.doAppend(st, x, c, args)
	case "copy":
		return fr.doCopy(st, x, c, args)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := ex.escVal(st, args[1])
		ex.mapDelete(st, mt, args[0][0], mapKeyTerm(mt.Key(), k))
		return st
	case "ssa:wrapnilchk":
		set(args[0])
		if ex.pure == 0 {
			ex.nilCheck(st, args[0][0], c.Args[0])
		}
		return st
	case "ssa:deferstack":
		set(Val{tZero})
		return st
	case "print", "println":
		return st
	case "recover":
		set(Val{tZero, tZero})
		return st
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = mkIte(mkLt(a[0], r), a[0], r)
			} else {
				r = mkIte(mkLt(r, a[0]), a[0], r)
			}
		}
		set(Val{r})
		return st
	}
	ex.unsupported(st, "builtin "+b.Name())
	return nil
}

func (fr *frame) doAppend(st *State, x ssa.Value, c *ssa.CallCommon, args []Val) *State {
	ex := fr.ex
	st0 := c.Args[0].Type()
	if len(args) == 1 {
		fr.env[x] = args[0]
		return st
	}
	if isSeq(st0) {
		if !isSeq(c.Args[1].Type()) {
			ex.unsupported(st, "append to sequence")
			return nil
		}
		t := args[1][0]
		if ex.pure == 0 {
			t = ex.escTerm(st, t)
		}
		fr.env[x] = Val{mkQcat(args[0][0], t)}
		return st
	}
	if ex.pure > 0 {
		panic(unsupportedErr{"append in specification"})
	}
	et := st0.Underlying().(*types.Slice).Elem()
	s := args[0]
	// source elements
	var m *Term
	var elemVals []Val // when known
	known := false
	var src Val
	if _, isStr := c.Args[1].Type().Underlying().(*types.Basic); isStr {
		m = mkSlen(args[1][0])
	} else {
		src = args[1]
		m = src[2]
		if n, ok := isInt(m); ok && n <= 8 {
			known = true
			for i := int64(0); i < n; i++ {
				var p *Term
				cellT, live := ex.cellType[src[0]], false
				if _, l := st.cells[src[0]]; l {
					live = true
				}
				if o, ok := isInt(src[1]); ok && live {
					if _, isA := cellT.Underlying().(*types.Array); isA {
						p = ex.arrPtr(src[0], cellT, int(o+i))
					}
				}
				if p == nil {
					p = mkSx(ex.realAddr(st, src[0]), src[1], mkInt(i))
				}
				elemVals = append(elemVals, ex.escVal(st, ex.load(st, p, et)))
			}
		}
	}
	if n, ok := isInt(m); ok && n == 0 {
		fr.env[x] = s
		return st
	}
	arr := ex.realAddr(st, s[0])
	n := s[2]
	inplace := mkLe(mkAdd(n, m), s[3])
	r := ex.newObj(st, "grow")
	newCap := mkConst("cap", SInt)
	ex.assume(st, mkLe(mkAdd(n, m), newCap))
	var rarr, roff, rcap *Term
	if inplace.Op == "false" || s[3] == tZero {
		inplace = tFalse
		rarr, roff, rcap = r, tZero, newCap
	} else {
		rarr, roff, rcap = mkConst("arr", SInt), mkConst("off", SInt), mkConst("cap", SInt)
		ex.assume(st, mkImp(inplace, mkAnd(mkEq(rarr, arr), mkEq(roff, s[1]), mkEq(rcap, s[3]))))
		ex.assume(st, mkImp(mkNot(inplace), mkAnd(mkEq(rarr, r), mkEq(roff, tZero), mkEq(rcap, newCap))))
	}
	res := Val{rarr, roff, mkAdd(n, m), rcap}
	keysOf := locs(et, tZero)
	if known {
		// grow: the new array's content is fixed by prophecy
		i := ex.bvar(SInt)
		newL := locs(et, mkSx(rarr, roff, i))
		oldL := locs(et, mkSx(arr, s[1], i))
		if n != tZero {
			for k := range newL {
				h := ex.heap(st, newL[k].Key, newL[k].Sort)
				a, b := mkSelect(h, newL[k].Addr), mkSelect(h, oldL[k].Addr)
				body := mkImp(mkAnd(mkLe(tZero, i), mkLt(i, n)), mkEq(a, b))
				pats := [][]*Term{{mkSx(rarr, roff, i)}, {mkSx(arr, s[1], i)}}
				ex.assume(st, mkImp(mkNot(inplace), mkForallPat([]*Term{i}, body, pats...)))
			}
		}
		for j, ev := range elemVals {
			idx := mkAdd(n, mkInt(int64(j)))
			for k, l := range locs(et, mkSx(r, tZero, idx)) {
				ex.assume(st, mkImp(mkNot(inplace), mkEq(mkSelect(ex.heap(st, l.Key, l.Sort), l.Addr), ev[k])))
			}
		}
		if inplace.Op != "false" {
			for j, ev := range elemVals {
				idx := mkAdd(n, mkInt(int64(j)))
				for k, l := range locs(et, mkSx(arr, s[1], idx)) {
					h := ex.heap(st, l.Key, l.Sort)
					nh := mkConst("H."+l.Key, h.Sort)
					ex.assume(st, mkEq(nh, mkIte(inplace, mkStore(h, l.Addr, ev[k]), h)))
					st.heaps[l.Key] = nh
					if ex.stores != nil {
						ex.stores[l.Key] = append(ex.stores[l.Key], l.Addr)
					}
					// the new element, whichever array it is in
					nl := locs(et, mkSx(rarr, roff, idx))[k]
					ex.assume(st, mkEq(mkSelect(nh, nl.Addr), ev[k]))
				}
			}
			// old elements keep their values in the result view
			for k := range keysOf {
				key := keysOf[k].Key
				nh := ex.heap(st, key, keysOf[k].Sort)
				i := ex.bvar(SInt)
				nl := locs(et, mkSx(rarr, roff, i))[k]
				_ = nh
				_ = nl
			}
		}
		fr.env[x] = res
		return st
	}
	// unknown number of elements
	seen := map[string]bool{}
	for _, kl := range keysOf {
		if seen[kl.Key] {
			continue
		}
		seen[kl.Key] = true
		h := ex.heap(st, kl.Key, kl.Sort)
		nh := mkConst("H."+kl.Key, h.Sort)
		a := mkNamedBound("fa", SInt)
		ex.assume(st, mkForallPat([]*Term{a}, mkImp(mkOr(mkEq(m, tZero), mkNot(mkEq(mkFun("root", SInt, a), tRoot(rarr)))), mkEq(mkSelect(nh, a), mkSelect(h, a))), []*Term{mkSelect(nh, a)}))
		st.heaps[kl.Key] = nh
		if ex.stores != nil {
			ex.stores[kl.Key] = append(ex.stores[kl.Key], mkSx(rarr, roff, n))
		}
		i := ex.bvar(SInt)
		nl, ol := locs(et, mkSx(rarr, roff, i)), locs(et, mkSx(arr, s[1], i))
		for k := range nl {
			if nl[k].Key != kl.Key {
				continue
			}
			ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, n)), mkEq(mkSelect(nh, nl[k].Addr), mkSelect(h, ol[k].Addr))),
				[]*Term{mkSx(rarr, roff, i)}, []*Term{mkSx(arr, s[1], i)}))
			if src != nil {
				sl := locs(et, mkSx(ex.realAddr(st, src[0]), src[1], i))
				nl2 := locs(et, mkSx(rarr, roff, mkAdd(n, i)))
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, m)), mkEq(mkSelect(nh, nl2[k].Addr), mkSelect(h, sl[k].Addr))),
					[]*Term{mkSx(src[0], src[1], i)}))
				sl3 := locs(et, mkSx(ex.realAddr(st, src[0]), src[1], mkSub(i, n)))
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(n, i), mkLt(i, mkAdd(n, m))), mkEq(mkSelect(nh, nl[k].Addr), mkSelect(h, sl3[k].Addr))),
					[]*Term{mkSx(rarr, roff, i)}))
			}
		}
	}
	fr.env[x] = res
	return st
}

func (fr *frame) doCopy(st *State, x ssa.Value, c *ssa.CallCommon, args []Val) *State {
	ex := fr.ex
	if isSeq(c.Args[0].Type()) {
		ex.unsupported(st, "copy into sequence")
		return nil
	}
	d := args[0]
	n := mkConst("ncopy", SInt)
	var m *Term
	isStr := false
	if _, ok := c.Args[1].Type().Underlying().(*types.Basic); ok {
		m = mkSlen(args[1][0])
		isStr = true
	} else {
		m = args[1][2]
	}
	ex.assume(st, mkEq(n, mkIte(mkLt(d[2], m), d[2], m)))
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	da := ex.realAddr(st, d[0])
	seen := map[string]bool{}
	for _, kl := range locs(et, tZero) {
		if seen[kl.Key] {
			continue
		}
		seen[kl.Key] = true
		h := ex.heap(st, kl.Key, kl.Sort)
		nh := mkConst("H."+kl.Key, h.Sort)
		a := mkNamedBound("fa", SInt)
		ex.assume(st, mkForallPat([]*Term{a}, mkImp(mkNot(mkEq(mkFun("root", SInt, a), tRoot(da))), mkEq(mkSelect(nh, a), mkSelect(h, a))), []*Term{mkSelect(nh, a)}))
		st.heaps[kl.Key] = nh
		if ex.stores != nil {
			ex.stores[kl.Key] = append(ex.stores[kl.Key], mkSx(da, d[1], tZero))
		}
		i := ex.bvar(SInt)
		nl := locs(et, mkSx(da, d[1], i))
		for k := range nl {
			if nl[k].Key != kl.Key {
				continue
			}
			if !isStr {
				sl := locs(et, mkSx(ex.realAddr(st, args[1][0]), args[1][1], i))
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, n)), mkEq(mkSelect(nh, nl[k].Addr), mkSelect(h, sl[k].Addr))), []*Term{mkSx(da, d[1], i)}))
			}
			// the same by absolute index, and outside the target unchanged
			el := mkElem(da, i)
			ll := locs(et, el)[k].Addr
			if !isStr {
				sl := locs(et, mkSx(ex.realAddr(st, args[1][0]), args[1][1], mkSub(i, d[1])))
				ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkAnd(mkLe(d[1], i), mkLt(i, mkAdd(d[1], n))), mkEq(mkSelect(nh, ll), mkSelect(h, sl[k].Addr))), []*Term{el}))
			}
			ex.assume(st, mkForallPat([]*Term{i}, mkImp(mkOr(mkLt(i, d[1]), mkLe(mkAdd(d[1], n), i)), mkEq(mkSelect(nh, ll), mkSelect(h, ll))), []*Term{el}))
		}
	}
	if x != nil {
		fr.env[x] = Val{n}
	}
	return st
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
