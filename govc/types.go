package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/hashicorp/hcl2"

var qual = func(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	s = strings.TrimPrefix(s, modPath+"/")
	s = strings.ReplaceAll(s, "/", ".")
	return s
}

func tstr(t types.Type) string { return types.TypeString(t, qual) }

// seqElems lists element types (tstr form) whose slices are modelled as
// mathematical sequences (values), set by //vc:seq directives.
var seqElems = map[string]bool{}

func isSeq(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return seqElems[tstr(s.Elem())]
}

func seqSort(t types.Type) Sort {
	s := t.Underlying().(*types.Slice)
	ls := leafSorts(s.Elem())
	if len(ls) != 1 {
		panic("sequence of multi-leaf element " + tstr(t))
	}
	return "Seq_" + sanitize(ls[0])
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// opaque external structs (any unexported, non-embedded field).
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		if st, ok := t.Underlying().(*types.Struct); ok {
			_ = st
			return false
		}
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if inModule(n.Obj().Pkg()) || (n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "selftest")) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() && !f.Embedded() {
			return true
		}
	}
	return false
}

func opaqueSort(t types.Type) Sort { return "O_" + sanitize(tstr(t)) }

const maxArr = 64

func isAgg(t types.Type) bool {
	if isOpaque(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return true
	case *types.Array:
		return u.Len() <= maxArr
	}
	return false
}

var leafCache = map[string][]Sort{}

// leafSorts flattens a type into primitive sorts.
func leafSorts(t types.Type) []Sort {
	k := tstr(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leafSorts0(t)
	leafCache[k] = l
	return l
}

func leafSorts0(t types.Type) []Sort {
	if tup, ok := t.(*types.Tuple); ok {
		var out []Sort
		for i := 0; i < tup.Len(); i++ {
			out = append(out, leafSorts(tup.At(i).Type())...)
		}
		return out
	}
	if isOpaque(t) {
		return []Sort{opaqueSort(t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Sort{SInt}
		case u.Info()&types.IsBoolean != 0:
			return []Sort{SBool}
		case u.Info()&types.IsString != 0:
			return []Sort{SStr}
		case u.Info()&types.IsFloat != 0:
			return []Sort{SReal}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Sort{SInt}
		}
		return []Sort{"O_" + sanitize(u.Name())}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Sort{SInt}
	case *types.Slice:
		if isSeq(t) {
			return []Sort{seqSort(t)}
		}
		return []Sort{SInt, SInt, SInt, SInt}
	case *types.Interface:
		return []Sort{SInt, SInt}
	case *types.Struct:
		var out []Sort
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafSorts(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		if u.Len() > maxArr {
			return []Sort{"O_" + sanitize(tstr(t))}
		}
		var out []Sort
		e := leafSorts(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e...)
		}
		return out
	}
	// e.g. $ssa.deferStack, iterators
	return []Sort{SInt}
}

func fieldOff(st *types.Struct, i int) (off, n int) {
	for j := 0; j < i; j++ {
		off += len(leafSorts(st.Field(j).Type()))
	}
	return off, len(leafSorts(st.Field(i).Type()))
}

type Val []*Term

func zeroVal(t types.Type) Val {
	if isOpaque(t) {
		return Val{mkNamed("zero."+sanitize(tstr(t)), opaqueSort(t))}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var v Val
		for i := 0; i < u.NumFields(); i++ {
			v = append(v, zeroVal(u.Field(i).Type())...)
		}
		return v
	case *types.Array:
		if u.Len() <= maxArr {
			var v Val
			for i := int64(0); i < u.Len(); i++ {
				v = append(v, zeroVal(u.Elem())...)
			}
			return v
		}
	}
	if isSeq(t) {
		return Val{mkSeqNil(seqSort(t))}
	}
	var v Val
	for _, s := range leafSorts(t) {
		v = append(v, zeroLeaf(s))
	}
	return v
}

func zeroLeaf(s Sort) *Term {
	switch s {
	case SInt:
		return tZero
	case SBool:
		return tFalse
	case SStr:
		return mkStrConst("")
	}
	if strings.HasPrefix(s, "Seq_") {
		return mkSeqNil(s)
	}
	return mkNamed("zero."+s, s)
}

func freshVal(hint string, t types.Type) Val {
	var v Val
	ls := leafSorts(t)
	for i, s := range ls {
		h := hint
		if len(ls) > 1 {
			h = fmt.Sprintf("%s.%d", hint, i)
		}
		v = append(v, mkConst(h, s))
	}
	return v
}

// Loc is one primitive memory location.
type Loc struct {
	Key  string
	Addr *Term
	Sort Sort
}

// addrTaken: struct fields (key "S.f") of primitive type whose address
// escapes; they live in the cell heap of their type.
var addrTaken = map[string]bool{}

func fieldKey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return tstr(st) + "." + s.Field(i).Name()
}

func fldAddr(st types.Type, i int, base *Term) *Term {
	name := "fld." + sanitize(fieldKey(st, i))
	if _, ok := funDecls[name]; !ok {
		declFun(name, []Sort{SInt}, SInt)
		inv := "inv" + name
		declFun(inv, []Sort{SInt}, SInt)
		a := mkNamedBound("a", SInt)
		ap := mkFun(name, SInt, a)
		kind := int64(len(funDecls) + 10)
		funDecls[name].Axioms = []*Term{mkForallPat([]*Term{a}, mkAnd(
			mkEq(mkFun(inv, SInt, ap), a),
			mkEq(tRoot(ap), tRoot(a)),
			mkEq(mkFun("kind", SInt, ap), mkInt(kind))), []*Term{ap})}
	}
	return mkFun(name, SInt, base)
}

func mkNamedBound(name string, s Sort) *Term {
	t := &Term{Op: "var", Name: "?" + name + "." + sanitize(s), Sort: s, bound: true}
	return intern(t)
}

func tRoot(a *Term) *Term {
	if a.Op == "fun" {
		if strings.HasPrefix(a.Name, "fld.") || a.Name == "elem" || a.Name == "sx" {
			if a.Args[0].bound {
				return mkFun("root", SInt, a)
			}
			return tRoot(a.Args[0])
		}
	}
	if a == tZero {
		return tZero
	}
	return mkFun("root", SInt, a)
}

func primLocs(t types.Type, key string, addr *Term) []Loc {
	ls := leafSorts(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !isSeq(t) {
			_ = u
			return []Loc{{key + ".arr", addr, SInt}, {key + ".off", addr, SInt}, {key + ".len", addr, SInt}, {key + ".cap", addr, SInt}}
		}
	case *types.Interface:
		return []Loc{{key + ".tag", addr, SInt}, {key + ".pay", addr, SInt}}
	}
	if len(ls) != 1 {
		panic("primLocs " + tstr(t))
	}
	return []Loc{{key, addr, ls[0]}}
}

func cellKey(t types.Type) string { return "cell:" + tstr(t) }

// locs enumerates the primitive locations of a value of type t stored at addr,
// in leaf order.
func locs(t types.Type, addr *Term) []Loc {
	if isAgg(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var out []Loc
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, fieldLocs(t, i, addr)...)
			}
			return out
		case *types.Array:
			var out []Loc
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, locs(u.Elem(), mkElem(addr, mkInt(i)))...)
			}
			return out
		}
	}
	return primLocs(t, cellKey(t), addr)
}

func fieldLocs(st types.Type, i int, addr *Term) []Loc {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	if isAgg(ft) {
		return locs(ft, fldAddr(st, i, addr))
	}
	k := fieldKey(st, i)
	if addrTaken[k] {
		return primLocs(ft, cellKey(ft), fldAddr(st, i, addr))
	}
	return primLocs(ft, k, addr)
}

// allKeys enumerates heap keys of a type without addresses (for frames).
func typeKeys(t types.Type, out map[string]Sort) {
	for _, l := range locs(t, tZero) {
		out[l.Key] = l.Sort
	}
}

func mkElem(arr, idx *Term) *Term {
	declElem()
	return mkFun("elem", SInt, arr, idx)
}

func declElem() {
	if _, ok := funDecls["elem"]; ok {
		return
	}
	declFun("root", []Sort{SInt}, SInt)
	declFun("kind", []Sort{SInt}, SInt)
	declFun("elem", []Sort{SInt, SInt}, SInt)
	declFun("earr", []Sort{SInt}, SInt)
	declFun("eidx", []Sort{SInt}, SInt)
	declFun("sx", []Sort{SInt, SInt, SInt}, SInt)
	a, i, o := mkNamedBound("a", SInt), mkNamedBound("i", SInt), mkNamedBound("o", SInt)
	e := mkFun("elem", SInt, a, i)
	funDecls["elem"].Axioms = []*Term{mkForallPat([]*Term{a, i}, mkAnd(
		mkEq(mkFun("earr", SInt, e), a), mkEq(mkFun("eidx", SInt, e), i),
		mkEq(mkFun("root", SInt, e), mkFun("root", SInt, a)), mkEq(mkFun("kind", SInt, e), mkInt(2))), []*Term{e})}
	s := mkFun("sx", SInt, a, o, i)
	funDecls["sx"].Axioms = []*Term{mkForallPat([]*Term{a, o, i}, mkEq(s, mkFun("elem", SInt, a, mkAdd(o, i))), []*Term{s})}
	funDecls["root"].Axioms = []*Term{mkEq(mkFun("root", SInt, tZero), tZero), mkEq(mkFun("kind", SInt, tZero), tZero)}
}

// mkSx is the address of element i of a slice (arr, off).
func mkSx(arr, off, i *Term) *Term {
	declElem()
	if off == tZero {
		// keep one canonical form so that patterns match
	}
	return mkFun("sx", SInt, arr, off, i)
}

// ---- sequences ----

func declSeq(s Sort) {
	if _, ok := funDecls["qlen."+s]; ok {
		return
	}
	es := seqElemSort(s)
	declFun("qlen."+s, []Sort{s}, SInt)
	declFun("qat."+s, []Sort{s, SInt}, es)
	declFun("qcat."+s, []Sort{s, s}, s)
	declFun("qunit."+s, []Sort{es}, s)
	declFun("qsub."+s, []Sort{s, SInt, SInt}, s)
	declFun("qnil."+s, []Sort{s}, SBool)
	declFun("qrep."+s, []Sort{es, SInt}, s)
	S, T := mkNamedBound("S", s), mkNamedBound("T", s)
	i, j := mkNamedBound("i", SInt), mkNamedBound("j", SInt)
	x := mkNamedBound("x", es)
	l := func(a *Term) *Term { return mkFun("qlen."+s, SInt, a) }
	at := func(a, k *Term) *Term { return mkFun("qat."+s, es, a, k) }
	cat := mkFun("qcat."+s, s, S, T)
	funDecls["qlen."+s].Axioms = []*Term{
		mkForallPat([]*Term{S}, mkLe(tZero, l(S)), []*Term{l(S)}),
	}
	funDecls["qnil."+s].Axioms = []*Term{
		mkForallPat([]*Term{S}, mkImp(mkFun("qnil."+s, SBool, S), mkEq(l(S), tZero)), []*Term{mkFun("qnil."+s, SBool, S)}),
	}
	funDecls["qcat."+s].Axioms = []*Term{
		mkForallPat([]*Term{S, T}, mkAnd(mkEq(l(cat), mkAdd(l(S), l(T))),
			mkEq(mkFun("qnil."+s, SBool, cat), mkAnd(mkFun("qnil."+s, SBool, S), mkEq(l(T), tZero)))), []*Term{cat}),
		mkForallPat([]*Term{S, T, i}, mkEq(at(cat, i), mkIte(mkLt(i, l(S)), at(S, i), at(T, mkSub(i, l(S))))), []*Term{at(cat, i)}),
		mkForallPat([]*Term{S, T, i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, l(S))), mkEq(at(cat, i), at(S, i))), []*Term{cat, at(S, i)}),
		mkForallPat([]*Term{S, T, i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, l(T))), mkEq(at(cat, mkAdd(l(S), i)), at(T, i))), []*Term{cat, at(T, i)}),
	}
	un := mkFun("qunit."+s, s, x)
	funDecls["qunit."+s].Axioms = []*Term{
		mkForallPat([]*Term{x}, mkAnd(mkEq(l(un), tOne), mkEq(at(un, tZero), x), mkNot(mkFun("qnil."+s, SBool, un))), []*Term{un}),
	}
	sub := mkFun("qsub."+s, s, S, i, j)
	k := mkNamedBound("k", SInt)
	funDecls["qsub."+s].Axioms = []*Term{
		mkForallPat([]*Term{S, i, j}, mkImp(mkAnd(mkLe(tZero, i), mkLe(i, j)), mkEq(l(sub), mkSub(j, i))), []*Term{sub}),
		mkForallPat([]*Term{S, i, j, k}, mkImp(mkAnd(mkLe(tZero, k), mkLt(k, mkSub(j, i))), mkEq(at(sub, k), at(S, mkAdd(i, k)))), []*Term{at(sub, k)}),
	}
	rep := mkFun("qrep."+s, s, x, i)
	funDecls["qrep."+s].Axioms = []*Term{
		mkForallPat([]*Term{x, i}, mkAnd(mkEq(l(rep), mkIte(mkLe(tZero, i), i, tZero)), mkNot(mkFun("qnil."+s, SBool, rep))), []*Term{rep}),
		mkForallPat([]*Term{x, i, k}, mkEq(at(rep, k), x), []*Term{at(rep, k)}),
	}
}

func seqElemSort(s Sort) Sort {
	e := strings.TrimPrefix(s, "Seq_")
	return e
}

func mkSeqNil(s Sort) *Term {
	declSeq(s)
	n := "qempty." + s
	if _, ok := funDecls[n]; !ok {
		declFun(n, nil, s)
		c := mkFun(n, s)
		funDecls[n].Axioms = []*Term{mkEq(mkFun("qlen."+s, SInt, c), tZero), mkFun("qnil."+s, SBool, c)}
	}
	return mkFun(n, s)
}

func mkQlen(q *Term) *Term {
	declSeq(q.Sort)
	switch {
	case q.Op == "fun" && strings.HasPrefix(q.Name, "qempty."):
		return tZero
	case q.Op == "fun" && strings.HasPrefix(q.Name, "qunit."):
		return tOne
	case q.Op == "fun" && strings.HasPrefix(q.Name, "qcat.") && !q.bound:
		return mkAdd(mkQlen(q.Args[0]), mkQlen(q.Args[1]))
	}
	return mkFun("qlen."+q.Sort, SInt, q)
}

func mkQat(q, i *Term) *Term {
	declSeq(q.Sort)
	return mkFun("qat."+q.Sort, seqElemSort(q.Sort), q, i)
}

func mkQcat(a, b *Term) *Term {
	declSeq(a.Sort)
	if b.Op == "fun" && strings.HasPrefix(b.Name, "qempty.") {
		return a
	}
	return mkFun("qcat."+a.Sort, a.Sort, a, b)
}

func mkQunit(s Sort, x *Term) *Term {
	declSeq(s)
	return mkFun("qunit."+s, s, x)
}

func mkQnil(q *Term) *Term {
	declSeq(q.Sort)
	if q.Op == "fun" && strings.HasPrefix(q.Name, "qempty.") {
		return tTrue
	}
	if q.Op == "fun" && strings.HasPrefix(q.Name, "qunit.") {
		return tFalse
	}
	return mkFun("qnil."+q.Sort, SBool, q)
}

// ---- interface tags ----

var (
	tagIDs   = map[string]int64{}
	tagTypes = map[int64]types.Type{}
)

func tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := tagIDs[k]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return mkInt(id)
}

// boxPay converts a concrete value into an interface payload.
func boxPay(t types.Type, v Val) *Term {
	if len(v) == 1 && v[0].Sort == SInt {
		return v[0]
	}
	name := "box." + sanitize(tstr(t))
	if _, ok := funDecls[name]; !ok {
		var as []Sort
		var vs []*Term
		for i, x := range v {
			as = append(as, x.Sort)
			vs = append(vs, mkNamedBound(fmt.Sprintf("b%d", i), x.Sort))
		}
		declFun(name, as, SInt)
		if len(v) > 0 {
			ap := mkFun(name, SInt, vs...)
			var cs []*Term
			for i := range vs {
				cs = append(cs, mkEq(unboxLeaf(t, i, v[i].Sort, ap), vs[i]))
			}
			funDecls[name].Axioms = []*Term{mkForallPat(vs, mkAnd(cs...), []*Term{ap})}
		}
	}
	return mkFun(name, SInt, v...)
}

func unboxLeaf(t types.Type, i int, s Sort, pay *Term) *Term {
	name := fmt.Sprintf("unbox%d.%s", i, sanitize(tstr(t)))
	return mkFun(name, s, pay)
}

func unboxPay(t types.Type, pay *Term) Val {
	ls := leafSorts(t)
	if len(ls) == 1 && ls[0] == SInt {
		return Val{pay}
	}
	// shortcut
	if pay.Op == "fun" && pay.Name == "box."+sanitize(tstr(t)) {
		return append(Val(nil), pay.Args...)
	}
	var v Val
	for i, s := range ls {
		v = append(v, unboxLeaf(t, i, s, pay))
	}
	return v
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// mapKeyTerm turns a key value into a single term.
func mapKeyTerm(t types.Type, v Val) *Term {
	if len(v) == 1 {
		return v[0]
	}
	return boxPay(t, v)
}

func mapKeySort(t types.Type) Sort {
	ls := leafSorts(t)
	if len(ls) == 1 {
		return ls[0]
	}
	return SInt
}
