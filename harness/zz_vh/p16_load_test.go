package zz_vh

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclwrite"
)

// treeTokens lists the tokens of a loaded file in tree order.
func treeTokens(f *hclwrite.File) string {
	s := ""
	for _, t := range f.BuildTokens(nil) {
		s += fmt.Sprintf("%s %q; ", t.Type, t.Bytes)
	}
	return s
}

func TestVerifP16(t *testing.T) {
	h := newVH(t, "random configurations with nested blocks, templates, heredocs and comments, single attributes with random expressions, and mutations of them that still parse; loaded from a random start position and written back, tokens compared in tree order")
	defer h.done()
	n := 20000
	if h.extended() {
		n = 300000
	}
	for i := 0; i < n && h.more(); i++ {
		var src string
		switch h.rng.Intn(4) {
		case 0, 1:
			src = "a " + h.pick("=", "   =") + " " + h.randExpr(3, nil) + "\n"
		default:
			src = h.randConfig(3, "")
			if h.rng.Intn(2) == 0 {
				src = h.sprinkle(src)
			}
		}
		if h.rng.Intn(3) == 0 {
			src = h.mutate(src)
		}
		if _, ok := dumpConfig(src); !ok {
			i--
			continue
		}
		start := hcl.Pos{Byte: 0, Line: 1, Column: 1}
		if h.rng.Intn(4) == 0 {
			start = hcl.Pos{Byte: h.rng.Intn(50), Line: 3, Column: 2}
		}
		h.run(fmt.Sprintf("%q at %v", src, start), func() {
			f, diags := hclwrite.ParseConfig([]byte(src), "t.hcl", start)
			if diags.HasErrors() || f == nil {
				h.fail("loading %q: %v", src, diags)
				return
			}
			want, _ := tokenText(src)
			if got := treeTokens(f); got != want {
				h.fail("loading %q gives tokens %s instead of %s", src, got, want)
				return
			}
			var buf bytes.Buffer
			if _, err := f.WriteTo(&buf); err != nil {
				h.fail("writing %q: %s", src, err)
			}
			if got, _ := tokenText(buf.String()); got != want {
				h.fail("writing %q gives %q", src, buf.String())
			}
		})
	}
}
