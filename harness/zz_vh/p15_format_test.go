package zz_vh

import (
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

var start1 = hcl.Pos{Line: 1, Column: 1}

// nonBlank drops the bytes formatting may change.
func nonBlank(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// tokenText lists kinds and bytes of the tokens.
func tokenText(src string) (string, bool) {
	toks, diags := hclsyntax.LexConfig([]byte(src), "t.hcl", start1)
	s := ""
	for _, t := range toks {
		s += fmt.Sprintf("%s %q; ", t.Type, t.Bytes)
	}
	return s, diags.HasErrors()
}

func dumpConfig(src string) (string, bool) {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start1)
	if diags.HasErrors() {
		return diags.Error(), false
	}
	return dumpAST(f.Body), true
}

func TestVerifP15(t *testing.T) {
	h := newVH(t, "random configurations with nested blocks, templates, heredocs and comments, random expressions and token soup, and mutations of them; formatted twice, tokens recounted and syntax trees compared without positions")
	defer h.done()
	n := 20000
	if h.extended() {
		n = 300000
	}
	for i := 0; i < n && h.more(); i++ {
		var src string
		switch h.rng.Intn(5) {
		case 0:
			src = h.soup(12)
		case 1:
			src = "a " + h.pick("=", "   =") + " " + h.randExpr(3, nil) + "\n"
		default:
			src = h.randConfig(3, "")
			if h.rng.Intn(2) == 0 {
				src = h.sprinkle(src)
			}
		}
		if h.rng.Intn(3) == 0 {
			src = h.mutate(src)
		}
		h.run(fmt.Sprintf("%q", src), func() {
			out := string(hclwrite.Format([]byte(src)))
			before, invalid := tokenText(src)
			after, _ := tokenText(out)
			if !invalid && before != after {
				h.fail("formatting %q to %q changes the tokens from %s to %s", src, out, before, after)
				return
			}
			if d, ok := dumpConfig(src); ok {
				d2, ok2 := dumpConfig(out)
				if !ok2 || d != d2 {
					h.fail("formatting %q to %q changes its structure from %s to %s", src, out, d, d2)
				}
			}
		})
	}
}
