package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sorts are SMT-LIB sort texts.
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SSeq  Sort = "Seq_"
	SReal Sort = "Flt"
)

func arrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

func arrElem(s Sort) Sort {
	// "(Array K V)" -> V ; K may itself be parenthesised
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is a hash-consed SMT term. Op "var" is a constant or bound variable
// (name in Name), "int" a numeral, others are function or theory symbols.
type Term struct {
	Op    string
	Name  string
	Args  []*Term
	Sort  Sort
	id    int
	bound bool // contains a bound variable
	N     int64
	// quantifiers
	Bound []*Term
	Pats  [][]*Term
	seq   int // creation index of the newest constant inside
}

var (
	internTab  = map[string]*Term{}
	termCount  int
	constCount int
	// declared function symbols: name -> (argsorts, ressort)
	funDecls = map[string]*FunDecl{}
)

type FunDecl struct {
	Name string
	Args []Sort
	Res  Sort
	// axioms that must accompany any use
	Axioms []*Term
	mayRef []string
}

func declFun(name string, args []Sort, res Sort, axioms ...*Term) *FunDecl {
	if d, ok := funDecls[name]; ok {
		return d
	}
	d := &FunDecl{Name: name, Args: args, Res: res}
	funDecls[name] = d
	d.Axioms = axioms
	return d
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(t.Sort)
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.Bound {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.Pats {
		b.WriteByte('!')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	if t.Op == "int" {
		b.WriteString(strconv.FormatInt(t.N, 10))
	}
	k := b.String()
	if o, ok := internTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
		if a.seq > t.seq {
			t.seq = a.seq
		}
	}
	internTab[k] = t
	return t
}

func mkApp(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: s, Args: args})
}

// mkFun applies a declared uninterpreted function.
func mkFun(name string, res Sort, args ...*Term) *Term {
	if _, ok := funDecls[name]; !ok {
		as := make([]Sort, len(args))
		for i, a := range args {
			as[i] = a.Sort
		}
		declFun(name, as, res)
	}
	d := funDecls[name]
	if len(d.Args) != len(args) {
		panic(fmt.Sprintf("arity mismatch for %s: %v vs %d", name, d.Args, len(args)))
	}
	for i := range args {
		if d.Args[i] != args[i].Sort {
			panic(fmt.Sprintf("sort mismatch for %s arg %d: want %s have %s (%s)", name, i, d.Args[i], args[i].Sort, args[i]))
		}
	}
	return intern(&Term{Op: "fun", Name: name, Sort: d.Res, Args: args})
}

func mkConst(hint string, s Sort) *Term {
	constCount++
	n := fmt.Sprintf("%s!%d", sanitize(hint), constCount)
	t := &Term{Op: "var", Name: n, Sort: s}
	t.seq = constCount
	termCount++
	t.id = termCount
	internTab["var|"+n+"|"+s] = t
	return t
}

// mkNamed is a constant with a fixed name.
func mkNamed(name string, s Sort) *Term {
	return intern(&Term{Op: "var", Name: sanitize(name), Sort: s})
}

func mkBound(hint string, s Sort) *Term {
	constCount++
	n := fmt.Sprintf("%s?%d", sanitize(hint), constCount)
	t := &Term{Op: "var", Name: n, Sort: s, bound: true}
	termCount++
	t.id = termCount
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '?', c == '-', c == '$':
			b.WriteByte(c)
		case c == '*':
			b.WriteString("$p")
		case c == '/':
			b.WriteByte('.')
		default:
			b.WriteByte('_')
		}
	}
	r := b.String()
	if r == "" || (r[0] >= '0' && r[0] <= '9') || r[0] == '-' {
		r = "x" + r
	}
	return r
}

var (
	tTrue  = intern(&Term{Op: "true", Sort: SBool})
	tFalse = intern(&Term{Op: "false", Sort: SBool})
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

func mkInt(n int64) *Term { return intern(&Term{Op: "int", N: n, Sort: SInt}) }

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isInt(t *Term) (int64, bool) {
	if t.Op == "int" {
		return t.N, true
	}
	return 0, false
}

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mkApp("not", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "true" || seen[a.id] {
			return true
		}
		if a.Op == "false" {
			return false
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mkApp("and", SBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "false" || seen[a.id] {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b.id] {
					seen[b.id] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[mkNot(a).id] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mkApp("or", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	if b.Op == "false" {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return mkApp("=>", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return mkNot(c)
		}
		if a.Op == "true" {
			return mkOr(c, b)
		}
		if a.Op == "false" {
			return mkAnd(mkNot(c), b)
		}
		if b.Op == "true" {
			return mkImp(c, a)
		}
		if b.Op == "false" {
			return mkAnd(c, a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	// ite(c, ite(c,x,y), z)
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mkApp("ite", a.Sort, c, a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SBool {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return mkNot(b)
		case b.Op == "false":
			return mkNot(a)
		}
	}
	if a.Sort == SInt {
		d := linSub(a, b)
		if n, ok := isInt(d); ok {
			return mkBool(n == 0)
		}
	}
	if a.Sort == SStr && a.Op == "strc" && b.Op == "strc" {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("=", SBool, a, b)
}

// ---- linear integer normal form ----

type lin struct {
	c  int64
	co map[*Term]int64
}

func toLin(t *Term) lin {
	l := lin{co: map[*Term]int64{}}
	addLin(&l, t, 1)
	return l
}

func addLin(l *lin, t *Term, k int64) {
	switch t.Op {
	case "int":
		l.c += k * t.N
		return
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
		return
	case "-":
		if len(t.Args) == 2 {
			addLin(l, t.Args[0], k)
			addLin(l, t.Args[1], -k)
			return
		}
		addLin(l, t.Args[0], -k)
		return
	case "*":
		if t.Args[0].Op == "int" {
			addLin(l, t.Args[1], k*t.Args[0].N)
			return
		}
	}
	l.co[t] += k
	if l.co[t] == 0 {
		delete(l.co, t)
	}
}

func fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var pos []*Term
	for _, t := range ts {
		k := l.co[t]
		if k == 1 {
			pos = append(pos, t)
		} else {
			pos = append(pos, mkApp("*", SInt, mkInt(k), t))
		}
	}
	if l.c != 0 || len(pos) == 0 {
		pos = append(pos, mkInt(l.c))
	}
	if len(pos) == 1 {
		return pos[0]
	}
	return mkApp("+", SInt, pos...)
}

func mkAdd(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, 1)
	return fromLin(l)
}

func linSub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, -1)
	return fromLin(l)
}

func mkSub(a, b *Term) *Term { return linSub(a, b) }

func mkMul(a, b *Term) *Term {
	if n, ok := isInt(a); ok {
		l := lin{co: map[*Term]int64{}}
		addLin(&l, b, n)
		return fromLin(l)
	}
	if n, ok := isInt(b); ok {
		l := lin{co: map[*Term]int64{}}
		addLin(&l, a, n)
		return fromLin(l)
	}
	return mkApp("*", SInt, a, b)
}

func mkLe(a, b *Term) *Term {
	d := linSub(b, a)
	if n, ok := isInt(d); ok {
		return mkBool(n >= 0)
	}
	return mkApp("<=", SBool, a, b)
}
func mkLt(a, b *Term) *Term {
	d := linSub(b, a)
	if n, ok := isInt(d); ok {
		return mkBool(n > 0)
	}
	return mkApp("<", SBool, a, b)
}

func mkSelect(arr, k *Term) *Term {
	for arr.Op == "store" {
		if arr.Args[1] == k {
			return arr.Args[2]
		}
		if knownDistinct(arr.Args[1], k) {
			arr = arr.Args[0]
			continue
		}
		break
	}
	if arr.Op == "constarr" {
		return arr.Args[0]
	}
	return mkApp("select", arrElem(arr.Sort), arr, k)
}

// knownDistinct is a syntactic disequality test.
func knownDistinct(a, b *Term) bool {
	if a.Sort == SInt {
		d := linSub(a, b)
		if n, ok := isInt(d); ok {
			return n != 0
		}
	}
	if a.Op == "strc" && b.Op == "strc" {
		return a != b
	}
	if a.Op == "fun" && b.Op == "fun" && strings.HasPrefix(a.Name, "fld.") && strings.HasPrefix(b.Name, "fld.") {
		if a.Name != b.Name {
			return true
		}
		return knownDistinct(a.Args[0], b.Args[0])
	}
	return false
}

func mkStore(arr, k, v *Term) *Term {
	if arr.Op == "store" && arr.Args[1] == k {
		arr = arr.Args[0]
	}
	if e := arrElem(arr.Sort); e != v.Sort {
		panic("store sort mismatch " + arr.Sort + " <- " + v.Sort)
	}
	return mkApp("store", arr.Sort, arr, k, v)
}

func mkConstArr(s Sort, v *Term) *Term { return mkApp("constarr", s, v) }

func mkQuant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	if !body.bound {
		// no bound variable inside at all
		return body
	}
	t := intern(&Term{Op: op, Sort: SBool, Args: []*Term{body}, Bound: vars, Pats: pats})
	// recompute boundness: only bound if refers to outer bound vars
	t.bound = hasOtherBound(body, vars)
	return t
}

func mkForall(vars []*Term, body *Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	used := map[int]bool{}
	collectVars(body, used, map[int]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return mkQuant("forall", vs, body, choosePatterns(vs, body))
}

func mkForallPat(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return mkQuant("forall", vars, body, pats)
}

func mkExists(vars []*Term, body *Term) *Term {
	return mkNot(mkForall(vars, mkNot(body)))
}

func collectVars(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.bound && t.Op != "var" {
		return
	}
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.Op == "var" && t.bound {
		out[t.id] = true
	}
	for _, a := range t.Args {
		collectVars(a, out, seen)
	}
}

func hasOtherBound(body *Term, vars []*Term) bool {
	mine := map[int]bool{}
	for _, v := range vars {
		mine[v.id] = true
	}
	var rec func(t *Term, mine map[int]bool) bool
	rec = func(t *Term, mine map[int]bool) bool {
		if !t.bound {
			return false
		}
		if t.Op == "var" {
			return !mine[t.id]
		}
		if t.Op == "forall" || t.Op == "exists" {
			m2 := map[int]bool{}
			for k := range mine {
				m2[k] = true
			}
			for _, v := range t.Bound {
				m2[v.id] = true
			}
			return rec(t.Args[0], m2)
		}
		for _, a := range t.Args {
			if rec(a, mine) {
				return true
			}
		}
		return false
	}
	return rec(body, mine)
}

// choosePatterns picks minimal subterms without interpreted operators that
// mention all the variables; each is an alternative pattern.
func choosePatterns(vars []*Term, body *Term) [][]*Term {
	want := map[int]bool{}
	for _, v := range vars {
		want[v.id] = true
	}
	var cands []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "forall" || t.Op == "exists" {
			rec(t.Args[0])
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		if patOK(t) {
			vs := map[int]bool{}
			collectVars(t, vs, map[int]bool{})
			inner := true
			for v := range vs {
				if !want[v] {
					inner = false // mentions an inner quantifier's variable
				}
			}
			if inner && len(vs) > 0 {
				cands = append(cands, t)
			}
		}
	}
	rec(body)
	var full, part []*Term
	for _, c := range cands {
		vs := map[int]bool{}
		collectVars(c, vs, map[int]bool{})
		if len(vs) == len(want) {
			full = append(full, c)
		} else {
			part = append(part, c)
		}
	}
	// keep minimal ones only
	minimal := func(ts []*Term) []*Term {
		var out []*Term
		for _, c := range ts {
			ok := true
			for _, d := range ts {
				if d != c && contains(c, d) {
					ok = false
					break
				}
			}
			if ok {
				out = append(out, c)
			}
		}
		return out
	}
	var pats [][]*Term
	for _, c := range minimal(full) {
		pats = append(pats, []*Term{c})
		if len(pats) >= 6 {
			break
		}
	}
	if len(pats) > 0 {
		return pats
	}
	// multi-pattern covering all variables greedily
	part = minimal(part)
	covered := map[int]bool{}
	var mp []*Term
	for _, c := range part {
		vs := map[int]bool{}
		collectVars(c, vs, map[int]bool{})
		add := false
		for v := range vs {
			if !covered[v] {
				add = true
			}
		}
		if add {
			mp = append(mp, c)
			for v := range vs {
				covered[v] = true
			}
		}
	}
	if len(covered) == len(want) {
		return [][]*Term{mp}
	}
	return nil
}

func contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if contains(a, sub) {
			return true
		}
	}
	return false
}

// patOK: application of an uninterpreted function or select whose subterms
// down to the bound variables are also such.
func patOK(t *Term) bool {
	switch t.Op {
	case "fun", "select":
	default:
		return false
	}
	for _, a := range t.Args {
		if !patArg(a) {
			return false
		}
	}
	return true
}

func patArg(t *Term) bool {
	if !t.bound {
		return t.Op != "ite" || true
	}
	if t.Op == "var" {
		return true
	}
	return patOK(t)
}

// ---- substitution of a bound variable ----

func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !t.bound && t.Op != "var" {
			hit := false
			for k := range m {
				if !k.bound {
					hit = true
				}
			}
			if !hit {
				return t
			}
		}
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = mkAdd(r, a)
		}
		return r
	case "*":
		return mkMul(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var np []*Term
			for _, x := range p {
				np = append(np, rec(x))
			}
			pats = append(pats, np)
		}
		return mkQuant(t.Op, t.Bound, args[0], pats)
	}
	return intern(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Args: args, N: t.N})
}

// ---- strings ----

var strConsts = map[string]*Term{}

func mkStrConst(s string) *Term {
	if t, ok := strConsts[s]; ok {
		return t
	}
	t := intern(&Term{Op: "strc", Name: s, Sort: SStr})
	strConsts[s] = t
	return t
}

func mkSlen(s *Term) *Term {
	if s.Op == "strc" {
		return mkInt(int64(len(s.Name)))
	}
	return mkFun("slen", SInt, s)
}

// ---- printing ----

func (t *Term) String() string { return printTerm(t, nil) }

func printTerm(t *Term, names map[*Term]string) string {
	var b strings.Builder
	writeTerm(&b, t, names, true)
	return b.String()
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string, top bool) {
	if names != nil && !top {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "var":
		b.WriteString(t.Name)
	case "true", "false":
		b.WriteString(t.Op)
	case "int":
		if t.N < 0 {
			if t.N == -9223372036854775808 {
				b.WriteString("(- 9223372036854775808)")
			} else {
				fmt.Fprintf(b, "(- %d)", -t.N)
			}
		} else {
			fmt.Fprintf(b, "%d", t.N)
		}
	case "strc":
		fmt.Fprintf(b, "strc!%d", t.id)
	case "fun":
		if len(t.Args) == 0 {
			b.WriteString(t.Name)
			return
		}
		b.WriteByte('(')
		b.WriteString(t.Name)
		for _, a := range t.Args {
			b.WriteByte(' ')
			writeTerm(b, a, names, false)
		}
		b.WriteByte(')')
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.Sort)
		writeTerm(b, t.Args[0], names, false)
		b.WriteByte(')')
	case "forall", "exists":
		b.WriteByte('(')
		b.WriteString(t.Op)
		b.WriteString(" (")
		for _, v := range t.Bound {
			fmt.Fprintf(b, "(%s %s)", v.Name, v.Sort)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.Args[0], names, false)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					writeTerm(b, x, names, false)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			writeTerm(b, a, names, false)
		}
		b.WriteByte(')')
	}
}
