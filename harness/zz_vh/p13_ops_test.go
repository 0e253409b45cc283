package zz_vh

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

func p13Values() []cty.Value {
	n := cty.NumberIntVal
	s := cty.StringVal
	obj := cty.ObjectVal(map[string]cty.Value{"a": n(1), "b": s("x"), "1": cty.True, "": n(5), "true": n(6), "n": cty.NullVal(cty.Number), "u": cty.UnknownVal(cty.String)})
	vs := []cty.Value{
		cty.DynamicVal, cty.NullVal(cty.DynamicPseudoType),
		cty.True, cty.False, n(0), n(1), n(2), n(-1), n(1 << 40), cty.NumberFloatVal(0.5), cty.NumberFloatVal(1.5), cty.NumberFloatVal(-0.25),
		cty.NumberVal(new(big.Float).SetInf(false)),
		s(""), s("a"), s("b"), s("0"), s("1"), s("-1"), s("0.5"), s("zz"), s("true"), s("n"), s("u"),
		cty.EmptyTupleVal, cty.EmptyObjectVal, obj,
		cty.TupleVal([]cty.Value{n(7), s("t")}), cty.TupleVal([]cty.Value{cty.UnknownVal(cty.Number), cty.NullVal(cty.String)}),
		cty.ListVal([]cty.Value{n(3), n(4)}), cty.ListValEmpty(cty.String), cty.ListVal([]cty.Value{obj, obj}), cty.ListVal([]cty.Value{cty.UnknownVal(cty.Number)}),
		cty.MapVal(map[string]cty.Value{"a": n(9), "1": n(8), "": n(7)}), cty.MapValEmpty(cty.Bool), cty.MapVal(map[string]cty.Value{"a": cty.NullVal(cty.String)}),
		cty.SetVal([]cty.Value{n(1), n(2)}), cty.SetValEmpty(cty.String),
	}
	var out []cty.Value
	out = append(out, vs...)
	seen := map[string]bool{}
	for _, v := range vs {
		ty := v.Type()
		if k := ty.GoString(); !seen[k] {
			seen[k] = true
			out = append(out, cty.UnknownVal(ty), cty.NullVal(ty))
		}
	}
	return out
}

// p13Elem computes collection[key] from the value's Go representation.
// kind is "err", "unknown" or "val".
func p13Elem(c, k cty.Value, attr bool) (string, cty.Value) {
	if c.IsNull() || k.IsNull() {
		return "err", cty.NilVal
	}
	ty := c.Type()
	if ty == cty.DynamicPseudoType || k.Type() == cty.DynamicPseudoType {
		return "unknown", cty.NilVal
	}
	want := cty.String
	switch {
	case ty.IsListType() || ty.IsTupleType():
		if attr {
			return "err", cty.NilVal
		}
		want = cty.Number
	case ty.IsMapType() || ty.IsObjectType():
	default:
		return "err", cty.NilVal
	}
	ck, err := convert.Convert(k, want)
	if err != nil {
		return "err", cty.NilVal
	}
	if attr && ty.IsObjectType() {
		if _, ok := ty.AttributeTypes()[ck.AsString()]; !ok {
			return "err", cty.NilVal
		}
	}
	if !ck.IsKnown() || (!c.IsKnown() && !(ty.IsTupleType())) {
		return "unknown", cty.NilVal
	}
	if want == cty.Number {
		bf := ck.AsBigFloat()
		var l []cty.Value
		if ty.IsTupleType() && !c.IsKnown() {
			for _, t := range ty.TupleElementTypes() {
				l = append(l, cty.UnknownVal(t))
			}
		} else if c.LengthInt() > 0 {
			for it := c.ElementIterator(); it.Next(); {
				_, v := it.Element()
				l = append(l, v)
			}
		}
		if bf.IsInf() || !bf.IsInt() || bf.Sign() < 0 || bf.Cmp(big.NewFloat(float64(len(l)))) >= 0 {
			return "err", cty.NilVal
		}
		i, _ := bf.Int64()
		return "val", l[i]
	}
	if ty.IsMapType() && c.LengthInt() == 0 {
		return "err", cty.NilVal
	}
	v, ok := c.AsValueMap()[ck.AsString()]
	if !ok {
		return "err", cty.NilVal
	}
	return "val", v
}

func p13Check(h *vh, desc, kind string, want, got cty.Value, diags hcl.Diagnostics) {
	switch kind {
	case "err":
		if !diags.HasErrors() {
			h.fail("%s: no error, result %#v", desc, got)
		} else if got != cty.DynamicVal {
			h.fail("%s: result %#v with an error", desc, got)
		} else if diags[0].Subject == nil {
			h.fail("%s: error without subject", desc)
		}
	case "unknown":
		if len(diags) != 0 {
			h.fail("%s: unexpected diagnostics %s", desc, diags.Error())
		} else if got.IsKnown() {
			h.fail("%s: result %#v is known", desc, got)
		}
	case "val":
		if len(diags) != 0 {
			h.fail("%s: unexpected diagnostics %s", desc, diags.Error())
		} else if !got.RawEquals(want) {
			h.fail("%s: result %#v, want %#v", desc, got, want)
		}
	}
}

func TestVerifP13(t *testing.T) {
	h := newVH(t, "every pair of about 80 values (all kinds, null, unknown) for indexing, attribute names for attribute access, paths and traversals of up to 3 steps, scope chains of up to 4 contexts")
	defer h.done()
	vals := p13Values()
	rng := hcl.Range{Filename: "f", Start: hcl.Pos{Line: 1, Column: 1}, End: hcl.Pos{Line: 1, Column: 2, Byte: 1}}
	for _, c := range vals {
		for _, k := range vals {
			desc := fmt.Sprintf("Index(%#v, %#v)", c, k)
			h.run(desc, func() {
				kind, want := p13Elem(c, k, false)
				got, diags := hcl.Index(c, k, &rng)
				p13Check(h, desc, kind, want, got, diags)
				if kind == "unknown" && len(diags) == 0 && (c.Type().IsListType() || c.Type().IsMapType()) && k.Type() != cty.DynamicPseudoType && !got.Type().Equals(c.Type().ElementType()) {
					h.fail("%s: unknown of type %#v", desc, got.Type())
				}
				got, diags = hcl.TraverseIndex{Key: k, SrcRange: rng}.TraversalStep(c)
				p13Check(h, "step "+desc, kind, want, got, diags)
			})
		}
		for _, n := range []string{"a", "b", "1", "", "n", "u", "zz", "true"} {
			desc := fmt.Sprintf("GetAttr(%#v, %q)", c, n)
			h.run(desc, func() {
				kind, want := p13Elem(c, cty.StringVal(n), true)
				got, diags := hcl.GetAttr(c, n, &rng)
				p13Check(h, desc, kind, want, got, diags)
			})
		}
	}
	// paths and traversals
	keys := []cty.Value{cty.NumberIntVal(0), cty.NumberIntVal(1), cty.StringVal("a"), cty.StringVal("1"), cty.UnknownVal(cty.Number), cty.NullVal(cty.String), cty.NumberFloatVal(0.5)}
	roots := []cty.Value{}
	for _, v := range vals {
		if v.Type().IsListType() || v.Type().IsMapType() || v.Type().IsTupleType() || v.Type().IsObjectType() {
			roots = append(roots, v)
		}
	}
	deep := cty.ObjectVal(map[string]cty.Value{"a": cty.ListVal([]cty.Value{cty.MapVal(map[string]cty.Value{"a": cty.True, "1": cty.False})}), "1": cty.TupleVal([]cty.Value{cty.EmptyObjectVal, cty.StringVal("z")})})
	roots = append(roots, deep, cty.TupleVal([]cty.Value{deep, deep}), cty.MapVal(map[string]cty.Value{"a": deep}))
	iter := 20000
	if h.extended() {
		iter = 200000
	}
	for n := 0; n < iter && h.more(); n++ {
		root := roots[h.rng.Intn(len(roots))]
		steps := h.rng.Intn(4)
		var path cty.Path
		var rel hcl.Traversal
		kind, want := "val", root
		desc := fmt.Sprintf("%#v", root)
		for i := 0; i < steps; i++ {
			k := keys[h.rng.Intn(len(keys))]
			attr := h.rng.Intn(2) == 0
			if attr {
				k = cty.StringVal([]string{"a", "1", "zz"}[h.rng.Intn(3)])
				path = append(path, cty.GetAttrStep{Name: k.AsString()})
				rel = append(rel, hcl.TraverseAttr{Name: k.AsString(), SrcRange: rng})
			} else {
				path = append(path, cty.IndexStep{Key: k})
				rel = append(rel, hcl.TraverseIndex{Key: k, SrcRange: rng})
			}
			desc += fmt.Sprintf(" step(%v %#v)", attr, k)
			if kind == "val" {
				kind, want = p13Elem(want, k, attr)
			}
		}
		unknown := kind == "unknown"
		h.run(desc, func() {
			got, diags := hcl.ApplyPath(root, path, &rng)
			if !unknown {
				p13Check(h, "path "+desc, kind, want, got, diags)
			}
			got2, diags2 := rel.TraverseRel(root)
			if !unknown {
				p13Check(h, "rel "+desc, kind, want, got2, diags2)
			}
			// scopes
			depth := 1 + h.rng.Intn(4)
			var ctx *hcl.EvalContext
			def := -1
			for i := 0; i < depth; i++ {
				if ctx == nil {
					ctx = &hcl.EvalContext{}
				} else {
					ctx = ctx.NewChild()
				}
				switch h.rng.Intn(4) {
				case 0:
				case 1:
					ctx.Variables = map[string]cty.Value{"other": cty.True}
				case 2:
					ctx.Variables = map[string]cty.Value{"v": cty.StringVal(fmt.Sprint("scope", i)), "w": cty.True}
					def = i
				case 3:
					ctx.Variables = map[string]cty.Value{}
				}
			}
			if def >= 0 && h.rng.Intn(2) == 0 {
				c := ctx
				for i := depth - 1; i > def; i-- {
					c = c.Parent()
				}
				c.Variables["v"] = root
				abs := hcl.TraversalJoin(hcl.Traversal{hcl.TraverseRoot{Name: "v", SrcRange: rng}}, rel)
				if len(abs) != len(rel)+1 || abs.RootName() != "v" || abs.IsRelative() {
					h.fail("%s: join gives %d steps", desc, len(abs))
					return
				}
				for i := range rel {
					if abs[i+1] != rel[i] {
						h.fail("%s: join changed step %d", desc, i)
					}
				}
				sp := abs.SimpleSplit()
				if len(sp.Abs) != 1 || len(sp.Rel) != len(rel) || sp.RootName() != "v" {
					h.fail("%s: split gives %d + %d steps", desc, len(sp.Abs), len(sp.Rel))
				}
				j := sp.Join()
				for i := range abs {
					if j[i] != abs[i] {
						h.fail("%s: split and join changed step %d", desc, i)
					}
				}
				if !unknown {
					got3, diags3 := abs.TraverseAbs(ctx)
					p13Check(h, "abs "+desc, kind, want, got3, diags3)
					got4, diags4 := sp.Traverse(ctx)
					p13Check(h, "split "+desc, kind, want, got4, diags4)
				}
				return
			}
			abs := hcl.Traversal{hcl.TraverseRoot{Name: "v", SrcRange: rng}}
			got3, diags3 := abs.TraverseAbs(ctx)
			k3, w3 := "err", cty.NilVal
			if def >= 0 {
				k3, w3 = "val", cty.StringVal(fmt.Sprint("scope", def))
			}
			p13Check(h, fmt.Sprintf("lookup in %d scopes, defined in %d", depth, def), k3, w3, got3, diags3)
		})
	}
	h.run("nil scope", func() {
		got, diags := hcl.Traversal{hcl.TraverseRoot{Name: "v", SrcRange: rng}}.TraverseAbs(nil)
		p13Check(h, "nil scope", "err", cty.NilVal, got, diags)
	})
}
