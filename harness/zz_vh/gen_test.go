package zz_vh

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
)

func (h *vh) pick(ss ...string) string { return ss[h.rng.Intn(len(ss))] }

var soupParts = []string{
	"a", "b", "foo", "bar-baz", "_x", "é", "日本", "for", "in", "if", "else", "endif", "endfor", "null", "true", "false",
	"0", "1", "12.5", "1e5", "1e", "0x", "1.", ".5", "99999999999999999999",
	"+", "-", "*", "/", "%", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "!", "?", ":", "=", "=>", ".", ",", "...", "[", "]", "(", ")", "{", "}", "[*]", ".*",
	"\"", "\"x\"", "\"${", "${", "%{", "~}", "${~", "%{~", "}", "\"\\n\"", "\\", "\\\"", "\"\\u00e9\"", "\"\\uZ\"", "$", "%", "$$", "%%", "$${", "%%{",
	"<<EOT\n", "<<-EOT\n", "EOT\n", "EOT", "  EOT\n", "<<", "\n", "\r\n", "\r", " ", "  ", "\t", "#c\n", "//c\n", "/*c*/", "/*", "# c",
	"&", "|", "^", "~", "**", ";", "`", "'", "@", "\x00", "\x01", "\x7f", "\u200b", "e\u0301", "\u0301", "\u0600", "\u00a0", "\ufeff", "\U0001F468\u200D\U0001F469",
	"\xff", "\xc3", "\xe3\x81", "\xf0\x9f", "a = 1\n", "b {\n", "}\n", "c \"l\" {}\n", "x = [1, 2]\n", "{ a = 1 }", "[for x in y: x]", "{for k, v in m: k => v}", "f(1)", "f(x...)", "a.b", "a[0]", "a[\"k\"]", "a.0", "a.*.b", "a[*].b",
	"%{ if x }", "%{ for x in y }", "%{ endif }", "%{ endfor }", "%{ else }", "${x}",
}

// soup is a random run of fragments of the language.
func (h *vh) soup(max int) string {
	var b strings.Builder
	n := h.rng.Intn(max + 1)
	for i := 0; i < n; i++ {
		b.WriteString(soupParts[h.rng.Intn(len(soupParts))])
		if h.rng.Intn(4) == 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// mutate damages a text at a few random places.
func (h *vh) mutate(s string) string {
	b := []byte(s)
	for n := h.rng.Intn(3); n > 0 && len(b) > 0; n-- {
		i := h.rng.Intn(len(b))
		switch h.rng.Intn(3) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			p := soupParts[h.rng.Intn(len(soupParts))]
			b = append(b[:i:i], append([]byte(p), b[i:]...)...)
		case 2:
			b = b[:i]
		}
	}
	return string(b)
}

var exprVars = []string{"s", "n", "t", "l", "m", "o", "u", "tup", "nul", "d", "lo", "zz"}

func (h *vh) randIdent() string { return h.pick("a", "b", "c", "name", "x-y", "é") }

// randExpr is a random well-formed expression.
func (h *vh) randExpr(depth int, bound []string) string {
	v := func() string {
		if len(bound) > 0 && h.rng.Intn(2) == 0 {
			return bound[h.rng.Intn(len(bound))]
		}
		return exprVars[h.rng.Intn(len(exprVars))]
	}
	if depth <= 0 {
		switch h.rng.Intn(8) {
		case 0:
			return h.pick("0", "1", "2", "3.5", "1e2")
		case 1:
			return h.pick("true", "false", "null")
		case 2, 3:
			return h.pick(`"x"`, `""`, `"a"`, `"\n\t\"\\"`, `"\u00e9"`, `"$${a}"`, `"1"`)
		default:
			return v()
		}
	}
	e := func() string { return h.randExpr(depth-1-h.rng.Intn(2), bound) }
	switch h.rng.Intn(22) {
	case 0:
		return "(" + e() + ")"
	case 1:
		return e() + " " + h.pick("+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||") + " " + e()
	case 2:
		return h.pick("-", "!") + "(" + e() + ")"
	case 3:
		return "(" + e() + ") ? " + e() + " : " + e()
	case 4:
		n := h.rng.Intn(4)
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, e())
		}
		return "[" + strings.Join(ps, ", ") + "]"
	case 5:
		n := h.rng.Intn(3)
		var ps []string
		for i := 0; i < n; i++ {
			k := h.randIdent()
			if h.rng.Intn(4) == 0 {
				k = "(" + e() + ")"
			} else if h.rng.Intn(4) == 0 {
				k = `"k${` + e() + `}"`
			}
			ps = append(ps, k+" "+h.pick("=", ":")+" "+e())
		}
		return "{" + strings.Join(ps, ", ") + "}"
	case 6:
		return v() + "." + h.randIdent()
	case 7:
		return v() + "[" + e() + "]"
	case 8:
		return "(" + e() + ")[" + e() + "]"
	case 9:
		return v() + h.pick("[*]", ".*") + h.pick("", ".a", ".name")
	case 10:
		return "(" + e() + ")[*]" + h.pick("", ".a", "[0]")
	case 11:
		k := h.pick("i", "s", "x")
		b := append(append([]string{}, bound...), k)
		cond := ""
		if h.rng.Intn(3) == 0 {
			cond = " if " + h.randExpr(depth-2, b)
		}
		return "[for " + k + " in " + e() + ": " + h.randExpr(depth-1, b) + cond + "]"
	case 12:
		b := append(append([]string{}, bound...), "k", "v")
		cond, dots := "", ""
		if h.rng.Intn(3) == 0 {
			cond = " if " + h.randExpr(depth-2, b)
		}
		if h.rng.Intn(2) == 0 {
			dots = "..."
		}
		return "{for k, v in " + e() + ": " + h.randExpr(depth-1, b) + " => " + h.randExpr(depth-1, b) + dots + cond + "}"
	case 13:
		args := []string{}
		for i := h.rng.Intn(3); i > 0; i-- {
			args = append(args, e())
		}
		return h.pick("upper", "min", "concat", "length", "jsonencode", "fail", "nosuch") + "(" + strings.Join(args, ", ") + ")"
	case 14:
		pre := ""
		if h.rng.Intn(2) == 0 {
			pre = e() + ", "
		}
		return h.pick("min", "concat", "upper", "fail") + "(" + pre + e() + "...)"
	case 15:
		return `"${` + e() + `}"`
	case 16:
		return `"p` + h.pick("", " ", "$${") + `${` + h.pick("", "~") + e() + h.pick("", "~") + `}q"`
	case 17:
		return `"%{ if ` + e() + ` }a${` + e() + `}` + h.pick("", "%{ else }b") + `%{ endif }"`
	case 18:
		b := append(append([]string{}, bound...), "x")
		return `"%{ for x in ` + e() + ` }<${` + h.randExpr(depth-1, b) + `}>%{ endfor }"`
	case 19:
		return "(<<" + h.pick("", "-") + "EOT\n  a ${" + e() + "}\n    b\nEOT\n)"
	case 20:
		return v() + "." + h.pick("0", "1", "a.b", "0.1", "0.a")
	default:
		return v()
	}
}

var errFunc = function.New(&function.Spec{
	Params:   []function.Parameter{{Name: "a", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
	VarParam: &function.Parameter{Name: "rest", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true},
	Type:     function.StaticReturnType(cty.String),
	Impl: func(args []cty.Value, retType cty.Type) (cty.Value, error) {
		return cty.UnknownVal(cty.String), function.NewArgErrorf(len(args)-1, "always fails")
	},
})

func testFuncs() map[string]function.Function {
	return map[string]function.Function{
		"upper": stdlib.UpperFunc, "min": stdlib.MinFunc, "concat": stdlib.ConcatFunc, "length": stdlib.LengthFunc, "jsonencode": stdlib.JSONEncodeFunc, "fail": errFunc,
	}
}

// randType and randVal make types and values, nulls and unknowns included.
func (h *vh) randType(depth int) cty.Type {
	n := 9
	if depth <= 0 {
		n = 4
	}
	switch h.rng.Intn(n) {
	case 0:
		return cty.String
	case 1:
		return cty.Number
	case 2:
		return cty.Bool
	case 3:
		if h.rng.Intn(3) == 0 {
			return cty.DynamicPseudoType
		}
		return cty.String
	case 4:
		return cty.List(h.randType(depth - 1))
	case 5:
		return cty.Map(h.randType(depth - 1))
	case 6:
		return cty.Set(h.randType(depth - 1))
	case 7:
		n := h.rng.Intn(3)
		ts := make([]cty.Type, n)
		for i := range ts {
			ts[i] = h.randType(depth - 1)
		}
		return cty.Tuple(ts)
	default:
		n := h.rng.Intn(3)
		ts := map[string]cty.Type{}
		for i := 0; i < n; i++ {
			ts[h.pick("a", "b", "name", "0")] = h.randType(depth - 1)
		}
		return cty.Object(ts)
	}
}

func (h *vh) randVal(ty cty.Type, concrete bool) cty.Value {
	if !concrete {
		switch h.rng.Intn(10) {
		case 0:
			return cty.NullVal(ty)
		case 1:
			return cty.UnknownVal(ty)
		}
	}
	switch {
	case ty == cty.DynamicPseudoType:
		if concrete {
			return cty.StringVal("dyn")
		}
		return cty.DynamicVal
	case ty == cty.String:
		return cty.StringVal(h.pick("", "a", "b", "name", "0", "1", "x y", "é", "${x}", "true"))
	case ty == cty.Number:
		return []cty.Value{cty.NumberIntVal(0), cty.NumberIntVal(1), cty.NumberIntVal(2), cty.NumberFloatVal(0.5), cty.NumberIntVal(-1), cty.NumberFloatVal(1e20)}[h.rng.Intn(6)]
	case ty == cty.Bool:
		return cty.BoolVal(h.rng.Intn(2) == 0)
	case ty.IsListType(), ty.IsSetType(), ty.IsMapType():
		et := noDynamic(ty.ElementType())
		n := h.rng.Intn(3)
		var vs []cty.Value
		ms := map[string]cty.Value{}
		for i := 0; i < n; i++ {
			v := h.randVal(et, concrete)
			vs = append(vs, v)
			ms[h.pick("a", "b", "name", "0")] = v
		}
		if ty.IsMapType() {
			if n == 0 {
				return cty.MapValEmpty(et)
			}
			return cty.MapVal(ms)
		}
		if ty.IsSetType() {
			if n == 0 {
				return cty.SetValEmpty(et)
			}
			for i := range vs {
				if !vs[i].IsWhollyKnown() {
					return cty.UnknownVal(cty.Set(et))
				}
			}
			return cty.SetVal(vs)
		}
		if n == 0 {
			return cty.ListValEmpty(et)
		}
		return cty.ListVal(vs)
	case ty.IsTupleType():
		var vs []cty.Value
		for _, t := range ty.TupleElementTypes() {
			vs = append(vs, h.randVal(t, concrete))
		}
		return cty.TupleVal(vs)
	case ty.IsObjectType():
		m := map[string]cty.Value{}
		for _, k := range sortedKeys(ty.AttributeTypes()) {
			m[k] = h.randVal(ty.AttributeTypes()[k], concrete)
		}
		return cty.ObjectVal(m)
	}
	return cty.DynamicVal
}

// noDynamic makes a type concrete: the elements of a collection have one type.
func noDynamic(ty cty.Type) cty.Type {
	switch {
	case ty == cty.DynamicPseudoType:
		return cty.String
	case ty.IsListType():
		return cty.List(noDynamic(ty.ElementType()))
	case ty.IsSetType():
		return cty.Set(noDynamic(ty.ElementType()))
	case ty.IsMapType():
		return cty.Map(noDynamic(ty.ElementType()))
	case ty.IsTupleType():
		var ts []cty.Type
		for _, t := range ty.TupleElementTypes() {
			ts = append(ts, noDynamic(t))
		}
		return cty.Tuple(ts)
	case ty.IsObjectType():
		m := map[string]cty.Type{}
		for k, t := range ty.AttributeTypes() {
			m[k] = noDynamic(t)
		}
		return cty.Object(m)
	}
	return ty
}

func sortedKeys(m map[string]cty.Type) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// randScope gives most of the variables a value.
func (h *vh) randScope(concrete bool) map[string]cty.Value {
	vars := map[string]cty.Value{}
	for _, n := range exprVars {
		if n == "zz" {
			continue
		}
		var v cty.Value
		if h.rng.Intn(3) == 0 {
			v = h.randVal(h.randType(2), concrete)
		} else {
			switch n {
			case "s":
				v = h.randVal(cty.String, concrete)
			case "n":
				v = h.randVal(cty.Number, concrete)
			case "t":
				v = h.randVal(cty.Bool, concrete)
			case "l":
				v = h.randVal(cty.List(cty.String), concrete)
			case "m":
				v = h.randVal(cty.Map(cty.String), concrete)
			case "o":
				v = h.randVal(cty.Object(map[string]cty.Type{"a": cty.String, "name": cty.List(cty.Number)}), concrete)
			case "tup":
				v = h.randVal(cty.Tuple([]cty.Type{cty.String, cty.Number}), concrete)
			case "lo":
				v = h.randVal(cty.List(cty.Object(map[string]cty.Type{"a": cty.String, "name": cty.String})), concrete)
			case "u":
				if concrete {
					v = cty.StringVal("u")
				} else {
					v = cty.UnknownVal(h.randType(2))
				}
			case "nul":
				v = cty.NullVal(h.randType(1))
			case "d":
				if concrete {
					v = cty.EmptyObjectVal
				} else {
					v = cty.DynamicVal
				}
			}
		}
		vars[n] = v
	}
	return vars
}

func (h *vh) randCtx() *hcl.EvalContext {
	if h.rng.Intn(12) == 0 {
		return nil
	}
	ctx := &hcl.EvalContext{Variables: h.randScope(false), Functions: testFuncs()}
	if h.rng.Intn(6) == 0 {
		ctx.Functions = nil
	}
	if h.rng.Intn(6) == 0 {
		ctx.Variables = nil
	}
	if h.rng.Intn(4) == 0 {
		ctx = ctx.NewChild()
		if h.rng.Intn(2) == 0 {
			ctx.Variables = map[string]cty.Value{"s": cty.StringVal("inner")}
		}
	}
	return ctx
}

// randConfig is a random well-formed configuration with nested blocks.
func (h *vh) randConfig(depth int, indent string) string {
	var b strings.Builder
	used := map[string]bool{}
	for i := h.rng.Intn(5); i > 0; i-- {
		switch h.rng.Intn(6) {
		case 0, 1, 2:
			n := fmt.Sprintf("%s%d", h.randIdent(), i)
			if used[n] {
				continue
			}
			used[n] = true
			e := h.randExpr(2, nil)
			if !strings.HasSuffix(e, "EOT\n") || strings.Count(e, "EOT") != 2 {
				e = "(" + e + ")"
				if strings.Contains(e, "EOT") {
					e = "1"
				}
				e += h.pick("", "", " # c", " // d", " /* e */") + "\n"
			}
			b.WriteString(indent + n + h.pick(" ", "", "   ") + "=" + h.pick(" ", "", "  ") + e)
		case 3:
			if depth <= 0 {
				continue
			}
			b.WriteString(indent + h.pick("blk", "foo", "svc"))
			for j := h.rng.Intn(3); j > 0; j-- {
				b.WriteString(h.pick(` "l"`, ` lab`, ` "a b"`, `  "é"`))
			}
			if h.rng.Intn(4) == 0 {
				b.WriteString(h.pick(" {}\n", "{}\n", " { x = 1 }\n"))
				continue
			}
			b.WriteString(h.pick(" {", "{", " { # c") + "\n" + h.randConfig(depth-1, indent+h.pick("  ", " ", "")) + indent + "}" + h.pick("", "  ", " # end") + "\n")
		case 4:
			b.WriteString(indent + h.pick("# lead\n", "// c\n", "/* multi\n line */\n", "#\n"))
		default:
			b.WriteString(h.pick("\n", "\n\n", "  \n"))
		}
	}
	return b.String()
}
