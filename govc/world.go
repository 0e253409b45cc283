package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is a specification function attached to one or more targets.
type Contract struct {
	fn        *ssa.Function
	targets   []string
	props     []string
	trusted   bool
	boundary  bool // proved by the check of its own properties only
	pureFn    bool
	entrySpec bool
	inline    bool
	axiom     bool
	spec      bool // uninterpreted specification function
	file      string
	doc       string
}

// entrySpecs: specification functions whose value is fixed by the memory at
// entry of the function under verification.
var entrySpecs = map[string]bool{}

type World struct {
	fset           *token.FileSet
	prog           *ssa.Program
	pkgs           []*packages.Package
	funcs          map[string]*ssa.Function
	contracts      map[string]*Contract
	all            []*Contract
	axioms         []*Contract
	mutableGlobals map[*ssa.Global]bool
	nonNilGlobals  map[*ssa.Global]bool
	globalTag      map[*ssa.Global]types.Type
	globalConst    map[*ssa.Global]map[int]*ssa.Const // field (or -1) -> initial value
	implIfaces     map[string]types.Type
	loopCache      map[*ssa.Function]*loopInfo
	specStack      []*specRec
	impls          map[string][]string // interface method -> implementations
	missing        []string
	stale          []string
	pures          map[string]bool
	contractPos    map[string]bool // contract file names
}

func overlayFor(repo, contracts string) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	var files []string
	err := filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		dir, base := filepath.Split(rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, dir, "zz_vc_"+base)
		ov[dst] = b
		files = append(files, dst)
		return nil
	})
	return ov, files, err
}

func loadWorld(repo, contracts string) (*World, error) {
	ov, files, err := overlayFor(repo, contracts)
	if err != nil {
		return nil, err
	}
	return loadOverlay(repo, ov, files, nil)
}

// loadOverlay loads the repository with the contract files. Contract
// functions that no longer type-check (a field was renamed, say) are taken
// out, recorded as stale, and the load is repeated.
func loadOverlay(repo string, ov map[string][]byte, files, stale []string) (*World, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on"),
	}
	pats := []string{"./..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		if len(stale) < 40 {
			if st := dropStale(ov, pkgs); len(st) > 0 {
				return loadOverlay(repo, ov, files, append(stale, st...))
			}
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{
		fset: prog.Fset, prog: prog, pkgs: pkgs,
		funcs:          map[string]*ssa.Function{},
		contracts:      map[string]*Contract{},
		mutableGlobals: map[*ssa.Global]bool{},
		nonNilGlobals:  map[*ssa.Global]bool{},
		globalTag:      map[*ssa.Global]types.Type{},
		globalConst:    map[*ssa.Global]map[int]*ssa.Const{},
		implIfaces:     map[string]types.Type{},
		loopCache:      map[*ssa.Function]*loopInfo{},
		contractPos:    map[string]bool{},
		pures:          map[string]bool{},
		impls:          map[string][]string{},
		stale:          stale,
	}
	for _, f := range files {
		w.contractPos[f] = true
	}
	// functions
	var fns []*ssa.Function
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil {
			return
		}
		fns = append(fns, f)
		w.funcs[fnKeyAnon(f)] = f
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						addFn(prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	// directives: sequences first, then contracts
	type cdecl struct {
		fd  *ast.FuncDecl
		pkg *packages.Package
	}
	var cds []cdecl
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := w.fset.Position(f.Pos()).Filename
			if !w.contractPos[name] {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//vc:seq ") {
						seqElems[strings.TrimSpace(strings.TrimPrefix(c.Text, "//vc:seq "))] = true
					}
				}
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					cds = append(cds, cdecl{fd, p})
				}
			}
		}
	}
	for _, cd := range cds {
		c := &Contract{}
		has := false
		for _, l := range cd.fd.Doc.List {
			t := l.Text
			if !strings.HasPrefix(t, "//vc:") {
				continue
			}
			has = true
			t = strings.TrimPrefix(t, "//vc:")
			parts := strings.SplitN(t, " ", 2)
			arg := ""
			if len(parts) > 1 {
				arg = strings.TrimSpace(parts[1])
			}
			switch parts[0] {
			case "for":
				c.targets = append(c.targets, w.resolveTarget(cd.pkg.Types, arg))
			case "props":
				for _, x := range strings.Split(arg, ",") {
					c.props = append(c.props, strings.TrimSpace(x))
				}
			case "boundary":
				c.boundary = true
			case "trusted":
				c.trusted = true
			case "pure":
				c.pureFn = true
			case "inline":
				c.inline = true
			case "axiom":
				c.axiom = true
			case "spec":
				c.spec = true
				c.entrySpec = arg == "entry"
			case "seq":
			default:
				return nil, fmt.Errorf("unknown directive %q", l.Text)
			}
		}
		if !has {
			continue
		}
		obj, _ := cd.pkg.TypesInfo.Defs[cd.fd.Name].(*types.Func)
		c.fn = prog.FuncValue(obj)
		c.file = w.fset.Position(cd.fd.Pos()).Filename
		if c.spec {
			c.trusted, c.pureFn = true, true
			w.contracts[obj.FullName()] = c
			if c.entrySpec {
				entrySpecs[sanitize(obj.FullName())] = true
			}
			continue
		}
		if c.axiom {
			w.axioms = append(w.axioms, c)
			continue
		}
		if len(c.targets) == 0 {
			continue
		}
		for _, t := range c.targets {
			if old := w.contracts[t]; old != nil {
				return nil, fmt.Errorf("two contracts for %s: %s and %s", t, old.fn.Name(), c.fn.Name())
			}
			if !c.trusted && w.addImpls(t, c) {
				w.contracts[t] = c
				continue
			}
			if !c.trusted && w.funcs[t] == nil {
				w.missing = append(w.missing, t)
				continue
			}
			w.contracts[t] = c
		}
		w.all = append(w.all, c)
	}
	w.scan(fns)
	return w, nil
}

// addImpls: for an interface method, every implementation in the module is
// verified against the contract, under the key "method@implementation".
func (w *World) addImpls(key string, c *Contract) bool {
	if !strings.HasPrefix(key, "(") || strings.HasPrefix(key, "(*") {
		return false
	}
	i := strings.LastIndex(key, ").")
	j := strings.LastIndex(key[:i], ".")
	if i < 0 || j < 0 {
		return false
	}
	path, tn, mn := key[1:j], key[j+1:i], key[i+2:]
	var it *types.Interface
	for _, p := range w.pkgs {
		if p.PkgPath == path {
			if o := p.Types.Scope().Lookup(tn); o != nil {
				it, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	if it == nil {
		return false
	}
	for _, p := range w.pkgs {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || isIface(tn.Type()) {
				continue
			}
			var t types.Type = tn.Type()
			if !types.Implements(t, it) {
				t = types.NewPointer(t)
				if !types.Implements(t, it) {
					continue
				}
			}
			ms := w.prog.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() != mn {
					continue
				}
				f := w.prog.MethodValue(ms.At(k))
				if f == nil || len(f.Blocks) == 0 {
					continue
				}
				ik := key + "@" + fnKey(f)
				if f.Synthetic != "" {
					ik = key + "@" + f.String()
				}
				w.funcs[ik] = f
				w.contracts[ik] = c
				w.impls[key] = append(w.impls[key], ik)
			}
		}
	}
	return true
}

// dropStale removes the declarations of contract files that have type errors.
func dropStale(ov map[string][]byte, pkgs []*packages.Package) []string {
	var out []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			parts := strings.Split(e.Pos, ":")
			if len(parts) < 2 {
				continue
			}
			src, ok := ov[parts[0]]
			if !ok {
				continue
			}
			line, _ := strconv.Atoi(parts[1])
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, parts[0], src, parser.ParseComments)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				a, b := d.Pos(), d.End()
				name := "declaration"
				if fd, ok := d.(*ast.FuncDecl); ok {
					name = fd.Name.Name
					for _, l := range docOf(fd) {
						if strings.HasPrefix(l, "//vc:for ") {
							name += " (for " + strings.TrimSpace(strings.TrimPrefix(l, "//vc:for ")) + ")"
						}
					}
					if fd.Doc != nil {
						a = fd.Doc.Pos()
					}
				}
				if fset.Position(a).Line > line || fset.Position(b).Line < line {
					continue
				}
				nb := append([]byte(nil), src...)
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					if !strings.Contains(e.Msg, "not used") {
						continue
					}
					name = "import"
					ls := strings.Split(string(nb), "\n")
					l := ls[line-1]
					if i := strings.Index(l, "\""); i >= 0 {
						ls[line-1] = "_ " + l[i:]
						if strings.HasPrefix(l, "import ") {
							ls[line-1] = "import " + ls[line-1]
						}
					}
					nb = []byte(strings.Join(ls, "\n"))
				} else {
					for i := fset.Position(a).Offset; i < fset.Position(b).Offset; i++ {
						if nb[i] != '\n' {
							nb[i] = ' '
						}
					}
				}
				ov[parts[0]] = nb
				if name != "import" {
					out = append(out, filepath.Base(parts[0])+": "+name+": "+e.Msg)
				} else {
					out = append(out, "")
				}
				return out
			}
		}
	}
	return out
}

func docOf(fd *ast.FuncDecl) []string {
	var out []string
	if fd.Doc != nil {
		for _, l := range fd.Doc.List {
			out = append(out, l.Text)
		}
	}
	return out
}

func fnKeyAnon(f *ssa.Function) string {
	if f.Parent() != nil {
		return fnKeyAnon(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	return fnKey(f)
}

// resolveTarget turns a target as written into a types.Func full name.
func (w *World) resolveTarget(pkg *types.Package, s string) string {
	if strings.HasPrefix(s, "(*") {
		i := strings.Index(s, ")")
		tn := s[2:i]
		rest := s[i+1:]
		if strings.Contains(tn, ".") {
			return "(*" + tn + ")" + rest
		}
		return "(*" + pkg.Path() + "." + tn + ")" + rest
	}
	slash := strings.LastIndex(s, "/")
	head := s[slash+1:]
	prefix := s[:slash+1]
	parts := strings.Split(head, ".")
	if slash < 0 {
		if pkg.Scope().Lookup(strings.SplitN(parts[0], "$", 2)[0]) != nil || len(parts) == 1 && !strings.Contains(parts[0], "error") {
			if len(parts) == 2 {
				return "(" + pkg.Path() + "." + parts[0] + ")." + parts[1]
			}
			return pkg.Path() + "." + parts[0]
		}
		if parts[0] == "error" {
			return "(error)." + parts[1]
		}
	}
	switch len(parts) {
	case 3:
		return "(" + prefix + parts[0] + "." + parts[1] + ")." + parts[2]
	case 2:
		return prefix + parts[0] + "." + parts[1]
	}
	return s
}

func (w *World) inContractFile(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	return w.contractPos[w.fset.Position(f.Pos()).Filename]
}

func (w *World) scan(fns []*ssa.Function) {
	type ginit struct {
		n int
		v ssa.Value
	}
	inits := map[*ssa.Global]*ginit{}
	for _, f := range fns {
		if w.inContractFile(f) {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					sT := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if !isOpaque(sT) {
						ft := sT.Underlying().(*types.Struct).Field(fa.Field).Type()
						if !isAgg(ft) && escapes(fa) {
							addrTaken[fieldKey(sT, fa.Field)] = true
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g && isInit {
							gi := inits[g]
							if gi == nil {
								gi = &ginit{}
								inits[g] = gi
							}
							gi.n++
							gi.v = x.Val
							continue
						}
					case *ssa.IndexAddr:
						if !escapesIdx(x) || isInit {
							continue
						}
					case *ssa.FieldAddr:
						if isInit && x.X == g {
							// Pos{...} stored field by field
							for _, r := range *x.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == x {
									if c, ok := s.Val.(*ssa.Const); ok {
										if w.globalConst[g] == nil {
											w.globalConst[g] = map[int]*ssa.Const{}
										}
										w.globalConst[g][x.Field] = c
									}
								}
							}
						}
						if !escapesLoad(x) || isInit {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					w.mutableGlobals[g] = true
				}
			}
		}
	}
	for g, gi := range inits {
		if gi.n != 1 {
			continue
		}
		switch v := gi.v.(type) {
		case *ssa.Const:
			w.globalConst[g] = map[int]*ssa.Const{-1: v}
		case *ssa.UnOp:
			// composite literal built in a temporary
			if al, ok := v.X.(*ssa.Alloc); ok && !isOpaque(v.Type()) {
				m := map[int]*ssa.Const{}
				if _, ok := v.Type().Underlying().(*types.Struct); ok {
					for _, r := range *al.Referrers() {
						fa, ok := r.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, r := range *fa.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
								if c, ok := s.Val.(*ssa.Const); ok {
									m[fa.Field] = c
								}
							}
						}
					}
				}
				w.globalConst[g] = m
			}
		case *ssa.MakeInterface:
			w.globalTag[g] = v.X.Type()
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Slice:
			w.nonNilGlobals[g] = true
		}
	}
}

func escapes(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func escapesLoad(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if escapesLoad(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func escapesIdx(v ssa.Value) bool { return escapesLoad(v) }

func (w *World) isRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return inModule(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil {
		return inModule(o.Pkg())
	}
	return f.Synthetic != ""
}

func keyPkg(key string) string {
	s := strings.TrimPrefix(key, "(")
	s = strings.TrimPrefix(s, "*")
	slash := strings.LastIndex(s, "/")
	dot := strings.Index(s[slash+1:], ".")
	if dot < 0 {
		return s
	}
	return s[:slash+1+dot]
}

var purePkgs = map[string]bool{
	"github.com/zclconf/go-cty/cty":         true,
	"github.com/zclconf/go-cty/cty/convert": true,
	"strings":                               true,
	"strconv":                               true,
	"unicode":                               true,
	"unicode/utf8":                          true,
	"math":                                  true,
	"path/filepath":                         true,
	"golang.org/x/text/unicode/norm":        true,
}

func (w *World) purePkg(key string) bool {
	return purePkgs[keyPkg(key)] || key == "(error).Error"
}

func (w *World) paramNames(key string) []string {
	f := w.funcs[key]
	if f == nil {
		return nil
	}
	var out []string
	for _, p := range f.Params {
		out = append(out, p.Name())
	}
	return out
}

func (w *World) methodOf(t types.Type, m *types.Func) (f *ssa.Function) {
	if isIface(t) {
		return nil
	}
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}
