package zz_vh

import (
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
)

func p22In(off int, start, end hcl.Range) bool {
	return start.Start.Byte <= off && off < end.End.Byte
}

func checkAtPos(h *vh, src string, whole bool) {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
	if f == nil || f.Body == nil {
		return
	}
	body := f.Body.(*hclsyntax.Body)
	for off := -1; off <= len(src)+1; off++ {
		id := fmt.Sprintf("offset %d of %q", off, src)
		pos := hcl.Pos{Byte: off}
		list := f.BlocksAtPos(pos)
		in, out := f.InnermostBlockAtPos(pos), f.OutermostBlockAtPos(pos)
		attr, expr := f.AttributeAtPos(pos), f.OutermostExprAtPos(pos)
		hcled.ContextString(f, off)
		hcled.ContextDefRange(f, off)
		if !whole && diags.HasErrors() {
			continue
		}
		var want []*hclsyntax.Block
		at := body
	Down:
		for at != nil {
			for _, b := range at.Blocks {
				if p22In(off, b.TypeRange, b.CloseBraceRange) {
					want = append(want, b)
					at = b.Body
					continue Down
				}
			}
			break
		}
		if len(list) != len(want) {
			h.fail("%s: %d blocks, want %d", id, len(list), len(want))
			return
		}
		for i := range want {
			if list[i].Type != want[i].Type || list[i].TypeRange != want[i].TypeRange || list[i].Body != hcl.Body(want[i].Body) || fmt.Sprint(list[i].Labels) != fmt.Sprint(want[i].Labels) {
				h.fail("%s: block %d is %s at %s, want %s at %s", id, i, list[i].Type, list[i].TypeRange, want[i].Type, want[i].TypeRange)
				return
			}
		}
		if len(want) == 0 {
			if in != nil || out != nil {
				h.fail("%s: block found, none there", id)
				return
			}
		} else if in == nil || out == nil || in.TypeRange != want[len(want)-1].TypeRange || out.TypeRange != want[0].TypeRange {
			h.fail("%s: innermost or outermost block differs from the list", id)
			return
		}
		var wantAttr *hclsyntax.Attribute
		for _, a := range at.Attributes {
			if p22In(off, a.SrcRange, a.SrcRange) {
				wantAttr = a
			}
		}
		if (attr == nil) != (wantAttr == nil) || attr != nil && (attr.Name != wantAttr.Name || attr.Range != wantAttr.SrcRange || attr.Expr != hcl.Expression(wantAttr.Expr)) {
			h.fail("%s: attribute %v, want %v", id, attr, wantAttr)
			return
		}
		if wantAttr != nil && p22In(off, wantAttr.Expr.Range(), wantAttr.Expr.Range()) {
			if expr != hcl.Expression(wantAttr.Expr) {
				h.fail("%s: expression not found", id)
				return
			}
		} else if expr != nil {
			h.fail("%s: expression found, none there", id)
			return
		}
	}
}

func TestVerifP22(t *testing.T) {
	h := newVH(t, "every offset of random configurations up to 3 levels deep (also damaged ones) and of random JSON documents")
	defer h.done()
	for _, s := range []string{"", "a = 1\n", "b {\n}\n", "b {\n a = 1\n c \"x\" {\n d = 2\n}\n}\n", "b {", "b { a = ", "a =\n", "a = 1", "b \"x\" \"y\" {}\nc {}\n"} {
		s := s
		h.run(fmt.Sprintf("positions of %q", s), func() { checkAtPos(h, s, false) })
	}
	n := 1500
	if h.extended() {
		n = 100000
	}
	for i := 0; i < n && h.more(); i++ {
		src := h.randConfig(3, "")
		if h.rng.Intn(5) == 0 {
			src = h.mutate(src)
		}
		h.run(fmt.Sprintf("positions of %q", src), func() { checkAtPos(h, src, false) })
		if i%5 == 0 {
			js := randJSON(h, 3)
			h.run(fmt.Sprintf("positions of JSON %q", js), func() {
				f, _ := json.Parse([]byte(js), "t")
				if f == nil || f.Body == nil {
					return
				}
				for off := -1; off <= len(js)+1; off++ {
					hcled.ContextString(f, off)
					hcled.ContextDefRange(f, off)
					f.BlocksAtPos(hcl.Pos{Byte: off})
				}
			})
		}
	}
}
