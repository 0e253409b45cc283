package zz_vh

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

var p21Names = []string{"a", "b", "name", "for", "if", "in", "true", "false", "null", "any", "list", "object", "string", "x-y", "é", "_", "else", "endfor", "A1"}

func (h *vh) randPlainType(depth int) cty.Type {
	if depth > 0 {
		switch h.rng.Intn(6) {
		case 0:
			return cty.List(h.randPlainType(depth - 1))
		case 1:
			return cty.Set(h.randPlainType(depth - 1))
		case 2:
			return cty.Map(h.randPlainType(depth - 1))
		case 3:
			var etys []cty.Type
			for i := h.rng.Intn(4); i > 0; i-- {
				etys = append(etys, h.randPlainType(depth-1))
			}
			return cty.Tuple(etys)
		case 4:
			atys := map[string]cty.Type{}
			for i := h.rng.Intn(4); i > 0; i-- {
				atys[h.pick(p21Names...)] = h.randPlainType(depth - 1)
			}
			return cty.Object(atys)
		}
	}
	return []cty.Type{cty.Bool, cty.Number, cty.String, cty.DynamicPseudoType}[h.rng.Intn(4)]
}

// typeText renders a type on its own, with optional spaces and newlines.
func (h *vh) typeText(ty cty.Type) string {
	sp := func() string { return h.pick("", "", " ") }
	switch {
	case ty == cty.Bool:
		return "bool"
	case ty == cty.Number:
		return "number"
	case ty == cty.String:
		return "string"
	case ty == cty.DynamicPseudoType:
		return "any"
	case ty.IsListType():
		return "list(" + sp() + h.typeText(ty.ElementType()) + sp() + ")"
	case ty.IsSetType():
		return "set(" + sp() + h.typeText(ty.ElementType()) + sp() + ")"
	case ty.IsMapType():
		return "map(" + sp() + h.typeText(ty.ElementType()) + sp() + ")"
	case ty.IsTupleType():
		var ps []string
		for _, e := range ty.TupleElementTypes() {
			ps = append(ps, sp()+h.typeText(e))
		}
		return "tuple([" + strings.Join(ps, ",") + "])"
	}
	var names []string
	for n := range ty.AttributeTypes() {
		names = append(names, n)
	}
	sort.Strings(names)
	s := "object({\n"
	for _, n := range names {
		aty := ty.AttributeType(n)
		if n == "for" {
			n = "(for)"
		}
		s += n + sp() + "=" + sp() + h.typeText(aty) + h.pick("\n", ",", ",\n")
	}
	return s + "})"
}

// typeOf reads a type expression from the syntax tree.
func typeOf(e hcl.Expression) (cty.Type, bool) {
	kw := ""
	switch te := e.(type) {
	case *hclsyntax.ScopeTraversalExpr:
		if len(te.Traversal) == 1 {
			kw = te.Traversal.RootName()
		}
	case *hclsyntax.FunctionCallExpr:
		if len(te.Args) != 1 || te.ExpandFinal {
			return cty.NilType, false
		}
		switch te.Name {
		case "list", "set", "map":
			ety, ok := typeOf(te.Args[0])
			if !ok {
				return ety, false
			}
			switch te.Name {
			case "list":
				return cty.List(ety), true
			case "set":
				return cty.Set(ety), true
			}
			return cty.Map(ety), true
		case "tuple":
			tc, ok := te.Args[0].(*hclsyntax.TupleConsExpr)
			if !ok {
				return cty.NilType, false
			}
			var etys []cty.Type
			for _, x := range tc.Exprs {
				ety, ok := typeOf(x)
				if !ok {
					return ety, false
				}
				etys = append(etys, ety)
			}
			return cty.Tuple(etys), true
		case "object":
			oc, ok := te.Args[0].(*hclsyntax.ObjectConsExpr)
			if !ok {
				return cty.NilType, false
			}
			atys := map[string]cty.Type{}
			for _, it := range oc.Items {
				name := ""
				if k, ok := it.KeyExpr.(*hclsyntax.ObjectConsKeyExpr); ok {
					switch w := k.Wrapped.(type) {
					case *hclsyntax.ScopeTraversalExpr:
						if len(w.Traversal) == 1 {
							name = w.Traversal.RootName()
						}
					case *hclsyntax.LiteralValueExpr:
						switch {
						case w.Val.IsNull():
							name = "null"
						case w.Val.RawEquals(cty.True):
							name = "true"
						case w.Val.RawEquals(cty.False):
							name = "false"
						}
					}
				}
				aty, ok := typeOf(it.ValueExpr)
				if name == "" || !ok {
					return cty.NilType, false
				}
				atys[name] = aty
			}
			return cty.Object(atys), true
		}
	}
	switch kw {
	case "bool":
		return cty.Bool, true
	case "number":
		return cty.Number, true
	case "string":
		return cty.String, true
	case "any":
		return cty.DynamicPseudoType, true
	}
	return cty.NilType, false
}

func hasAny(ty cty.Type) bool {
	switch {
	case ty.IsCollectionType():
		return hasAny(ty.ElementType())
	case ty.IsTupleType():
		for _, e := range ty.TupleElementTypes() {
			if hasAny(e) {
				return true
			}
		}
	case ty.IsObjectType():
		for _, e := range ty.AttributeTypes() {
			if hasAny(e) {
				return true
			}
		}
	}
	return ty == cty.DynamicPseudoType
}

func checkTypeExpr(h *vh, id string, e hcl.Expression, want cty.Type, ok bool) {
	got, diags := typeexpr.TypeConstraint(e)
	switch {
	case ok && (diags.HasErrors() || !got.Equals(want)):
		h.fail("%s: constraint is %#v %s, want %#v", id, got, diagKeys(diags), want)
	case !ok && !diags.HasErrors():
		h.fail("%s: accepted as %#v", id, got)
	}
	exact := ok && !hasAny(want)
	got, diags = typeexpr.Type(e)
	switch {
	case exact && (diags.HasErrors() || !got.Equals(want)):
		h.fail("%s: exact type is %#v %s, want %#v", id, got, diagKeys(diags), want)
	case !exact && !diags.HasErrors():
		h.fail("%s: accepted as exact type %#v", id, got)
	}
}

func TestVerifP21(t *testing.T) {
	h := newVH(t, "random types up to depth 4 with reserved words among the attribute names, rendered and parsed (native and JSON), and damaged type texts and random expressions compared with an independent reading of the syntax tree")
	defer h.done()
	p := hcl.Pos{Line: 1, Column: 1}
	n := 8000
	if h.extended() {
		n = 300000
	}
	for i := 0; i < n && h.more(); i++ {
		if h.rng.Intn(2) == 0 {
			ty := h.randPlainType(1 + h.rng.Intn(4))
			h.run(fmt.Sprintf("type %#v", ty), func() {
				s := typeexpr.TypeString(ty)
				id := fmt.Sprintf("type %#v written as %q", ty, s)
				for _, src := range []string{s, h.typeText(ty)} {
					e, diags := hclsyntax.ParseExpression([]byte(src), "t", p)
					if diags.HasErrors() {
						h.fail("%s: %q does not parse: %s", id, src, diagKeys(diags))
						return
					}
					checkTypeExpr(h, id, e, ty, true)
				}
				f, diags := json.Parse([]byte(`{"x": `+jsonStr(s)+`}`), "t")
				if diags.HasErrors() {
					h.fail("%s: JSON does not parse: %s", id, diagKeys(diags))
					return
				}
				attrs, _ := f.Body.JustAttributes()
				checkTypeExpr(h, id+" in JSON", attrs["x"].Expr, ty, true)
			})
			continue
		}
		src := h.typeText(h.randPlainType(3))
		switch h.rng.Intn(4) {
		case 0:
			src = h.mutate(src)
		case 1:
			src = h.randExpr(2, nil)
		case 2:
			src = strings.Replace(src, h.pick("bool", "string", "any", "list", "(", ")"), h.pick("list", "map()", "tuple", "object([])", "tuple({})", "set(any, any)", "list([string]...)", "foo(string)", "1", `"string"`, "bool(string)", "string.x", "(string)", "${string}"), 1)
		}
		h.run(fmt.Sprintf("expression %q", src), func() {
			e, diags := hclsyntax.ParseExpression([]byte(src), "t", p)
			if e == nil {
				return
			}
			id := fmt.Sprintf("expression %q", src)
			if diags.HasErrors() {
				typeexpr.Type(e)
				typeexpr.TypeConstraint(e)
				return
			}
			want, ok := typeOf(e)
			checkTypeExpr(h, id, e, want, ok)
			checkTypeExpr(h, id+" wrapped", wrapExpr{e}, want, ok)
		})
	}
}
