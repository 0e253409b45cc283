package zz_vh

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

var p18Chars = []string{"$", "%", "{", "}", "$", "{", "\"", "\\", "n", "\n", "\r", "\t", "\x00", "\x7f", "u", "0", "~", "a", "<<", "#", "/*", string(rune(0x65)), string(rune(0x301)), string(rune(0x200d)), string(rune(0xa0)), string(rune(0xfeff)), string(rune(0x65e5)), string(rune(0x1f600)), string(rune(0xe0001)), string(rune(0x2028)), string(rune(0x600)), string(rune(0xe9))}

func (h *vh) randText() string {
	s := ""
	for i := h.rng.Intn(7); i > 0; i-- {
		s += h.pick(p18Chars...)
	}
	return s
}

func (h *vh) randNumber() cty.Value {
	switch h.rng.Intn(5) {
	case 0:
		return cty.NumberIntVal(int64(h.rng.Intn(10)))
	case 1:
		return cty.NumberIntVal(-int64(h.rng.Uint32()))
	case 2:
		return cty.NumberFloatVal(h.rng.NormFloat64())
	case 3:
		f, _, _ := big.ParseFloat(fmt.Sprintf("%d%d.%d", h.rng.Uint64(), h.rng.Uint64(), h.rng.Uint64()), 10, 512, big.ToNearestEven)
		return cty.NumberVal(f)
	default:
		f, _, _ := big.ParseFloat(fmt.Sprintf("%s%d.%de%d", h.pick("", "-"), h.rng.Intn(9)+1, h.rng.Uint32(), h.rng.Intn(200)-100), 10, 512, big.ToNearestEven)
		return cty.NumberVal(f)
	}
}

// randWritable makes a known value and what writing and reading it back gives.
func (h *vh) randWritable(depth int) (cty.Value, cty.Value) {
	if depth <= 0 || h.rng.Intn(3) == 0 {
		switch h.rng.Intn(6) {
		case 0:
			return cty.True, cty.True
		case 1:
			return cty.False, cty.False
		case 2:
			v := h.randNumber()
			return v, v
		case 3:
			return cty.NullVal(cty.String), cty.NullVal(cty.DynamicPseudoType)
		default:
			v := cty.StringVal(h.randText())
			return v, v
		}
	}
	n := h.rng.Intn(4)
	key := func() string {
		if h.rng.Intn(2) == 0 {
			return h.pick("for", "a", "null", "true", "if", "in", "x-y", "é", "for", "_")
		}
		return cty.StringVal(h.randText()).AsString()
	}
	switch h.rng.Intn(6) {
	case 0, 1:
		var vs, ws []cty.Value
		for i := 0; i < n; i++ {
			v, w := h.randWritable(depth - 1)
			vs, ws = append(vs, v), append(ws, w)
		}
		return cty.TupleVal(vs), cty.TupleVal(ws)
	case 2:
		vs := map[string]cty.Value{}
		ws := map[string]cty.Value{}
		for i := 0; i < n; i++ {
			k := key()
			vs[k], ws[k] = h.randWritable(depth - 1)
		}
		return cty.ObjectVal(vs), cty.ObjectVal(ws)
	}
	// collections of one element type
	var vs, ws []cty.Value
	el := func() (cty.Value, cty.Value) {
		v := cty.StringVal(h.randText())
		return v, v
	}
	if h.rng.Intn(2) == 0 {
		el = func() (cty.Value, cty.Value) {
			v := cty.TupleVal([]cty.Value{h.randNumber()})
			return v, v
		}
	}
	for i := 0; i <= n; i++ {
		v, w := el()
		vs, ws = append(vs, v), append(ws, w)
	}
	switch h.rng.Intn(3) {
	case 0:
		return cty.ListVal(vs), cty.TupleVal(ws)
	case 1:
		s := cty.SetVal(vs)
		return s, cty.TupleVal(s.AsValueSlice())
	}
	ms := map[string]cty.Value{}
	for i := range vs {
		ms[key()] = vs[i]
	}
	return cty.MapVal(ms), cty.ObjectVal(ms)
}

func sameTraversal(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case hcl.TraverseRoot:
			y, ok := b[i].(hcl.TraverseRoot)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseAttr:
			y, ok := b[i].(hcl.TraverseAttr)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseIndex:
			y, ok := b[i].(hcl.TraverseIndex)
			if !ok || !sameWritten(x.Key, y.Key) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// stepsOf reads the steps an expression denotes; a constant key that is not a
// plain literal to the parser is still a constant key.
func stepsOf(e hclsyntax.Expression) (hcl.Traversal, bool) {
	switch te := e.(type) {
	case *hclsyntax.ScopeTraversalExpr:
		return te.Traversal, true
	case *hclsyntax.RelativeTraversalExpr:
		s, ok := stepsOf(te.Source)
		return append(append(hcl.Traversal{}, s...), te.Traversal...), ok
	case *hclsyntax.IndexExpr:
		s, ok := stepsOf(te.Collection)
		k, diags := te.Key.Value(nil)
		return append(append(hcl.Traversal{}, s...), hcl.TraverseIndex{Key: k}), ok && !diags.HasErrors()
	}
	return nil, false
}

// sameWritten compares values, numbers to the precision of the original.
func sameWritten(want, got cty.Value) bool {
	if !want.Type().Equals(got.Type()) || want.IsNull() != got.IsNull() {
		return false
	}
	switch {
	case want.IsNull():
		return true
	case want.Type() == cty.Number:
		w := want.AsBigFloat()
		return new(big.Float).SetPrec(w.Prec()).Set(got.AsBigFloat()).Cmp(w) == 0
	case want.Type().IsTupleType() || want.Type().IsObjectType():
		wi, gi := want.ElementIterator(), got.ElementIterator()
		for wi.Next() {
			if !gi.Next() {
				return false
			}
			wk, wv := wi.Element()
			gk, gv := gi.Element()
			if !wk.RawEquals(gk) || !sameWritten(wv, gv) {
				return false
			}
		}
		return !gi.Next()
	}
	return want.RawEquals(got)
}

func TestVerifP18(t *testing.T) {
	h := newVH(t, "random known values to depth 3 with strings of up to 6 pieces chosen for escaping and template syntax and numbers up to 512 bits, and random traversals, written and parsed back")
	defer h.done()
	n := 30000
	if h.extended() {
		n = 400000
	}
	for i := 0; i < n && h.more(); i++ {
		if h.rng.Intn(5) == 0 {
			tr := hcl.Traversal{hcl.TraverseRoot{Name: h.pick("a", "foo", "x-y", "é", "for")}}
			for j := h.rng.Intn(5); j > 0; j-- {
				switch h.rng.Intn(3) {
				case 0:
					tr = append(tr, hcl.TraverseAttr{Name: h.pick("a", "for", "true", "x-y", "é")})
				case 1:
					v := h.randNumber()
					if v.AsBigFloat().Sign() < 0 {
						v = cty.NumberIntVal(3)
					}
					tr = append(tr, hcl.TraverseIndex{Key: v})
				default:
					tr = append(tr, hcl.TraverseIndex{Key: cty.StringVal(h.randText())})
				}
			}
			h.run("traversal "+dumpAST(tr), func() {
				src := hclwrite.TokensForTraversal(tr).Bytes()
				e, diags := hclsyntax.ParseExpression(src, "t.hcl", start1)
				if diags.HasErrors() {
					h.fail("traversal %s is written as %q, which does not parse: %s", dumpAST(tr), src, diags)
					return
				}
				back, ok := stepsOf(e)
				if !ok || !sameTraversal(tr, back) {
					h.fail("traversal %s is written as %q and read back as %s", dumpAST(tr), src, dumpAST(back))
					return
				}
				if len(tr) > 1 {
					rel := string(hclwrite.TokensForTraversal(tr[1:]).Bytes())
					e, diags := hclsyntax.ParseExpression([]byte("a"+rel), "t.hcl", start1)
					if diags.HasErrors() {
						h.fail("relative traversal %s is written as %q, which does not parse: %s", dumpAST(tr[1:]), rel, diags)
						return
					}
					if back, ok := stepsOf(e); !ok || !sameTraversal(tr[1:], back[1:]) {
						h.fail("relative traversal %s is written as %q", dumpAST(tr[1:]), rel)
					}
				}
			})
			continue
		}
		val, want := h.randWritable(3)
		h.run(fmt.Sprintf("value %#v", val), func() {
			src := hclwrite.TokensForValue(val).Bytes()
			e, diags := hclsyntax.ParseExpression(src, "t.hcl", start1)
			if diags.HasErrors() {
				h.fail("value %#v is written as %q, which does not parse: %s", val, src, diags)
				return
			}
			got, diags := e.Value(nil)
			if diags.HasErrors() || !sameWritten(want, got) {
				h.fail("value %#v is written as %q and read back as %#v %v", val, src, got, diags)
			}
		})
	}
}
