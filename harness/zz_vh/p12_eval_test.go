package zz_vh

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

// snapshot writes out everything reachable from a value.
func snapshot(v reflect.Value, seen map[uintptr]bool, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil;")
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		b.WriteString(v.Elem().Type().String())
		snapshot(v.Elem(), seen, b)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if seen[v.Pointer()] {
			b.WriteString("seen;")
			return
		}
		seen[v.Pointer()] = true
		snapshot(v.Elem(), seen, b)
	case reflect.Struct:
		switch v.Type().String() {
		case "sync.RWMutex", "sync.Mutex":
			return
		case "function.Function":
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			snapshot(v.Field(i), seen, b)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			snapshot(v.Index(i), seen, b)
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			snapshot(k, map[uintptr]bool{}, &e)
			e.WriteString("=>")
			snapshot(v.MapIndex(k), map[uintptr]bool{}, &e)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map" + strings.Join(es, ","))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%t;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d;", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%g;", v.Float())
	}
}

func snap(v interface{}) string {
	var b strings.Builder
	snapshot(reflect.ValueOf(v), map[uintptr]bool{}, &b)
	return b.String()
}

func diagKeys(diags hcl.Diagnostics) string {
	var ks []string
	for _, d := range diags {
		k := fmt.Sprintf("%d %s", d.Severity, d.Summary)
		if d.Subject != nil {
			k += " " + d.Subject.String()
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}

func checkEval(h *vh, id string, e hcl.Expression, ctx *hcl.EvalContext) {
	before, cb := snap(e), snap(ctx)
	v1, d1 := e.Value(ctx)
	if v1 == cty.NilVal {
		h.fail("%s: no value", id)
		return
	}
	if after := snap(e); after != before {
		h.fail("%s: evaluation changed the expression", id)
		return
	}
	if after := snap(ctx); after != cb {
		h.fail("%s: evaluation changed the context", id)
		return
	}
	for i, d := range d1 {
		if d == nil || d.Summary == "" || d.Subject == nil || (d.Severity != hcl.DiagError && d.Severity != hcl.DiagWarning) {
			h.fail("%s: diagnostic %d is incomplete", id, i)
			return
		}
	}
	v2, d2 := e.Value(ctx)
	if !v1.RawEquals(v2) {
		h.fail("%s: first evaluation %#v, second %#v", id, v1, v2)
	} else if diagKeys(d1) != diagKeys(d2) {
		h.fail("%s: first evaluation reports %s, second %s", id, diagKeys(d1), diagKeys(d2))
	}
}

func evalDesc(ctx *hcl.EvalContext, src string) string {
	if ctx == nil {
		return "nil"
	}
	var ps []string
	for c := ctx; c != nil; c = c.Parent() {
		var ks []string
		for k := range c.Variables {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			if strings.Contains(src, k) {
				s += fmt.Sprintf(" %s=%#v", k, c.Variables[k])
			}
		}
		if c.Functions != nil {
			s += " functions"
		}
		ps = append(ps, s+"}")
	}
	return strings.Join(ps, " in ")
}

// usedVars keeps the context description short.
func usedCtx(ctx *hcl.EvalContext, src string) string {
	if ctx == nil {
		return "nil"
	}
	s := evalDesc(ctx, src)
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}

var p12Fixed = []string{
	"fail([1, 2, 3]...)", "fail(1, [2, 3]...)", "min(l...)", "upper([]...)", "fail(nul...)", "1/0", "0/0", "1 % 0", "(1/0) - (1/0)", "(1/0) * 0", "(1/0) % 2", "2 % (1/0)", "(1/0)/(1/0)",
	"l[*]", "nul[*].a", "u[*].a", "d[*].a", "lo[*].a", "lo.*.name", "tup[*]", "o[*].name[*]", "l[*][*]", "[][*].a", "lo[*].zz", "[for x in l: x]", "{for x in l: x => x...}", "{for x in nul: x => x}", "[for x in u: x if d]",
	"true ? nul : [1]", "nul ? 1 : 2", "u ? 1 : 2", "d ? l : m", "null ? null : null", "true ? null : 1", "{a = 1, a = 2}", "{(nul) = 1}", "{(u) = 1}", "{(l) = 1}",
	`"%{ for x in l }${x}%{ endfor }"`, `"%{ for x in u }${x}%{ endfor }"`, `"%{ for x in nul }${x}%{ endfor }"`, `"%{ if nul }a%{ endif }"`, `"${nul}"`, `"${l}"`, `"a${nul}"`, `"a${u}b"`,
	"-nul", "!nul", "nul + 1", "u + 1", "l + 1", "nul == nul", "l == m", "nul && true", "a.b.c", "o.a.b", "o[u]", "l[d]", "l[nul]", "m[1]", "m.a", "tup[5]", "tup.5", "l.-1",
}

// p12Values are values at the edges of what an operand can be.
func p12Values() []cty.Value {
	null, unk := cty.NullVal, cty.UnknownVal
	lb := []cty.Value{cty.True, null(cty.Bool), cty.False}
	ub := []cty.Value{cty.True, unk(cty.Bool)}
	ls := []cty.Value{cty.StringVal("a"), null(cty.String), cty.StringVal("a")}
	lus := []cty.Value{cty.StringVal("a"), unk(cty.String)}
	obj := cty.ObjectVal(map[string]cty.Value{"a": null(cty.Bool), "b": cty.StringVal("x"), "0": cty.True})
	vs := []cty.Value{
		cty.True, cty.Zero, cty.NumberIntVal(-1), cty.NumberFloatVal(1.5), cty.NumberFloatVal(1e300), cty.PositiveInfinity,
		cty.StringVal(""), cty.StringVal("a"), cty.StringVal("1"), cty.StringVal("true"),
		cty.EmptyTupleVal, cty.EmptyObjectVal, cty.ListValEmpty(cty.Bool), cty.SetValEmpty(cty.String), cty.MapValEmpty(cty.Number),
		cty.ListVal(lb), cty.ListVal(ub), cty.SetVal(lb), cty.TupleVal(lb), cty.TupleVal(ub),
		cty.ListVal(ls), cty.ListVal(lus), cty.SetVal(ls), cty.TupleVal(ls), cty.TupleVal(lus),
		cty.MapVal(map[string]cty.Value{"a": cty.True, "b": null(cty.Bool)}), cty.MapVal(map[string]cty.Value{"a": unk(cty.String)}),
		obj, cty.ListVal([]cty.Value{obj, null(obj.Type())}), cty.TupleVal([]cty.Value{obj, cty.DynamicVal, null(cty.DynamicPseudoType)}),
		cty.ListVal([]cty.Value{cty.ListVal(lb), cty.ListValEmpty(cty.Bool), null(cty.List(cty.Bool))}),
		cty.DynamicVal, null(cty.DynamicPseudoType),
	}
	for _, ty := range []cty.Type{cty.Bool, cty.Number, cty.String, cty.List(cty.Bool), cty.Set(cty.String), cty.Map(cty.Number), cty.Tuple([]cty.Type{cty.Bool, cty.String}), obj.Type(), cty.List(obj.Type())} {
		vs = append(vs, null(ty), unk(ty))
	}
	return vs
}

var p12Shapes = []string{
	"[for x in v: 1 if x]", "[for x in v: x]", "[for k, x in v: k]", "[for x in v: 1 if !x]", "{for x in v: x => 1}", "{for x in v: x => x...}", "{for k, x in v: k => x if x}", "[for x in [v]: x if x]", "[for x in [1]: 1 if v]",
	"v ? 1 : 2", "true ? v : 1", "true ? v : [1]", "false ? v : {}", "v[*]", "v[*].a", "v.*.a", "v[*][0]", "v[*][*]", "v[0]", "v[-1]", "v[v]", "{a = 1}[v]", "[1, 2][v]", "v.a", "v.0",
	`"${v}x"`, `"${v}"`, `"%{ for x in v }${x}%{ endfor }"`, `"%{ for x in v }x%{ endfor }"`, `"%{ if v }x%{ else }y%{ endif }"`,
	"v + 1", "-v", "!v", "v && true", "v || v", "v == v", "v != 1", "v / 0", "v % v", "v > 1", "min(v...)", "upper(v)", "upper(v...)", "fail(v...)", "fail(v)", "{(v) = 1}", "{(v) = 1, (v) = 2}", "[v...]", "{x = v}.x", "[v][*].a",
}

func TestVerifP12(t *testing.T) {
	h := newVH(t, "random expressions of depth up to 4 (native, template and JSON) in random contexts of up to 2 scopes with values of all kinds, each evaluated twice; every expression shape in a list over every value in a list of edge values")
	defer h.done()
	p := hcl.Pos{Line: 1, Column: 1}
	native := func(src string, ctx *hcl.EvalContext) {
		id := fmt.Sprintf("expression %q in %s", src, usedCtx(ctx, src))
		h.run(id, func() {
			e, _ := hclsyntax.ParseExpression([]byte(src), "t", p)
			if e != nil {
				checkEval(h, id, e, ctx)
			}
		})
	}
	for _, src := range p12Fixed {
		native(src, nil)
		for i := 0; i < 40 && h.more(); i++ {
			native(src, h.randCtx())
		}
	}
	for _, v := range p12Values() {
		for _, src := range p12Shapes {
			native(src, &hcl.EvalContext{Variables: map[string]cty.Value{"v": v}, Functions: testFuncs()})
		}
	}
	n := 10000
	if h.extended() {
		n = 1000000
	}
	for i := 0; i < n && h.more(); i++ {
		ctx := h.randCtx()
		src := h.randExpr(1+h.rng.Intn(4), nil)
		switch h.rng.Intn(8) {
		case 0:
			src = h.mutate(src)
			native(src, ctx)
		case 1:
			src = h.pick("a ", "") + "${" + src + "}" + h.pick("", " b", "%{ if t }x%{ endif }", "%{ for x in l }${x}%{ endfor }")
			id := fmt.Sprintf("template %q in %s", src, usedCtx(ctx, src))
			h.run(id, func() {
				e, _ := hclsyntax.ParseTemplate([]byte(src), "t", p)
				if e != nil {
					checkEval(h, id, e, ctx)
				}
			})
		case 2:
			src = randJSONExpr(h, 3)
			id := fmt.Sprintf("JSON expression %q in %s", src, usedCtx(ctx, src))
			h.run(id, func() {
				f, diags := json.Parse([]byte(`{"x": `+src+`}`), "t")
				if diags.HasErrors() {
					return
				}
				attrs, _ := f.Body.JustAttributes()
				if a := attrs["x"]; a != nil {
					checkEval(h, id, a.Expr, ctx)
				}
			})
		default:
			native(src, ctx)
		}
	}
}

func randJSONExpr(h *vh, depth int) string {
	if depth > 0 {
		switch h.rng.Intn(4) {
		case 0:
			var ps []string
			for i := h.rng.Intn(3); i > 0; i-- {
				ps = append(ps, randJSONExpr(h, depth-1))
			}
			return "[" + strings.Join(ps, ", ") + "]"
		case 1:
			var ps []string
			for i := h.rng.Intn(3); i > 0; i-- {
				ps = append(ps, jsonStr(h.pick("a", "b", "${s}", "${u}", "${nul}", "${l}", "k${n}"))+": "+randJSONExpr(h, depth-1))
			}
			return "{" + strings.Join(ps, ", ") + "}"
		}
	}
	switch h.rng.Intn(6) {
	case 0:
		return h.pick("null", "true", "false", "1", "-2.5")
	case 1:
		return jsonStr(h.pick("", "x", "$${a}", "a b"))
	default:
		return jsonStr(h.pick("", "p ") + "${" + h.randExpr(2, nil) + "}" + h.pick("", " q"))
	}
}

func jsonStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
