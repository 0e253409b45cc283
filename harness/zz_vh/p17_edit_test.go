package zz_vh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

// eItem is an item of the expected text: an attribute, a block or other text.
type eItem struct {
	kind       string // attr, block, text
	name       string
	pre, expr  string // attr: text before and of the expression
	post       string
	open, shut string // block
	body       *eBody
}

type eBody struct {
	items []*eItem
	brace bool // loaded from a file, directly after the opening brace
}

func (b *eBody) text() string {
	s := ""
	for _, it := range b.items {
		switch it.kind {
		case "attr":
			s += it.pre + it.expr + it.post
		case "block":
			s += it.open + it.body.text() + it.shut
		default:
			s += it.pre
		}
	}
	return s
}

func (b *eBody) attr(name string) *eItem {
	for _, it := range b.items {
		if it.kind == "attr" && it.name == name {
			return it
		}
	}
	return nil
}

func (b *eBody) blocks() []*eBody {
	var ret []*eBody
	for _, it := range b.items {
		if it.kind == "block" {
			ret = append(ret, it.body)
		}
	}
	return ret
}

func (h *vh) randEBody(depth int) *eBody {
	b := &eBody{}
	for i := h.rng.Intn(5); i > 0; i-- {
		switch h.rng.Intn(5) {
		case 0, 1:
			n := h.randIdent()
			if b.attr(n) != nil {
				continue
			}
			e := h.randExpr(2, nil)
			post := h.pick("", "", " # c", " // d", " /* e */") + h.pick("\n", "\n", "\r\n")
			if strings.Contains(e, "EOT") {
				e, post = "<<EOT\nx ${a}\nEOT\n", ""
			}
			b.items = append(b.items, &eItem{kind: "attr", name: n, pre: h.pick("", "# lead\n", "  ") + n + h.pick(" = ", "=", " = ("), expr: e, post: post})
			it := b.items[len(b.items)-1]
			if strings.HasSuffix(it.pre, "(") {
				// parentheses belong to the expression
				it.pre = it.pre[:len(it.pre)-1]
				if strings.Contains(e, "EOT") {
					it.expr = "1"
					it.post = "\n"
				}
				it.expr = "(" + it.expr + ")"
			}
		case 2, 3:
			if depth <= 0 {
				continue
			}
			open := h.pick("", "# lead\n") + h.pick("blk", "foo")
			for j := h.rng.Intn(3); j > 0; j-- {
				open += h.pick(` "l"`, ` lab`, ` "a b"`)
			}
			switch h.rng.Intn(4) {
			case 0:
				b.items = append(b.items, &eItem{kind: "block", open: open + " {", body: &eBody{brace: true}, shut: "}\n"})
			case 1:
				b.items = append(b.items, &eItem{kind: "block", open: open + " {", body: &eBody{brace: true, items: []*eItem{{kind: "attr", name: "a", pre: " a = ", expr: "1", post: ""}}}, shut: " }\n"})
			default:
				body := h.randEBody(depth - 1)
				body.brace = true
				body.items = append([]*eItem{{kind: "text", pre: h.pick("\n", "\n", " # c\n", " /* c */\n")}}, body.items...)
				b.items = append(b.items, &eItem{kind: "block", open: open + " {", body: body, shut: "}" + h.pick("\n", " # end\n")})
			}
		default:
			b.items = append(b.items, &eItem{kind: "text", pre: h.pick("\n", "\n\n", "# text\n\n", "/* c */\n")})
		}
	}
	return b
}

// endLine completes the line so that an appended item starts on its own.
func (b *eBody) endLine() {
	s := b.text()
	if b.brace {
		t := strings.TrimLeft(s, " ")
		for strings.HasPrefix(t, "/*") {
			t = strings.TrimLeft(t[strings.Index(t, "*/")+2:], " ")
		}
		if !strings.HasPrefix(t, "\n") && !strings.HasPrefix(t, "#") {
			b.items = append([]*eItem{{kind: "text", pre: "\n"}}, b.items...)
		}
	}
	if s != "" && !strings.HasSuffix(strings.TrimRight(s, " "), "\n") {
		b.items = append(b.items, &eItem{kind: "text", pre: "\n"})
	}
}

func (h *vh) randTraversal() (hcl.Traversal, string) {
	n := h.pick("a", "foo", "x-y", "é")
	tr := hcl.Traversal{hcl.TraverseRoot{Name: n}}
	for i := h.rng.Intn(4); i > 0; i-- {
		switch h.rng.Intn(4) {
		case 0, 1:
			a := h.randIdent()
			tr = append(tr, hcl.TraverseAttr{Name: a})
			n += "." + a
		case 2:
			k := h.rng.Intn(20)
			tr = append(tr, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(k))})
			n += fmt.Sprintf("[%d]", k)
		default:
			k := h.pick("", "k", "${", "a\"b", "é")
			tr = append(tr, hcl.TraverseIndex{Key: cty.StringVal(k)})
			n += "[" + string(hclwrite.TokensForValue(cty.StringVal(k)).Bytes()) + "]"
		}
	}
	return tr, n
}

// edit makes one random edit to the real body and its model and returns its
// description and what is wrong afterwards.
func (h *vh) edit(real *hclwrite.Body, b *eBody, depth int) (string, string) {
	if bs := b.blocks(); len(bs) > 0 && h.rng.Intn(2) == 0 {
		i := h.rng.Intn(len(bs))
		rbs := real.Blocks()
		if len(rbs) != len(bs) {
			return "Blocks", fmt.Sprintf("there are %d blocks instead of %d", len(rbs), len(bs))
		}
		d, bad := h.edit(rbs[i].Body(), bs[i], depth+1)
		return fmt.Sprintf("in block %d %s", i, d), bad
	}
	set := func(name, text string, got *hclwrite.Attribute) string {
		if it := b.attr(name); it != nil {
			if strings.HasPrefix(it.expr, "<<") {
				it.post = "\n"
			}
			it.expr = text
		} else {
			b.endLine()
			b.items = append(b.items, &eItem{kind: "attr", name: name, pre: name + "=", expr: text, post: "\n"})
		}
		if got == nil || got != real.GetAttribute(name) {
			return "the attribute that was set is not returned"
		}
		return ""
	}
	switch h.rng.Intn(7) {
	case 0, 1, 2:
		name := h.pick("a", "b", "c", "name", "zz")
		val := h.randVal(noDynamic(h.randType(2)), true)
		toks := hclwrite.TokensForValue(val)
		return fmt.Sprintf("set %s to %#v", name, val), set(name, string(toks.Bytes()), real.SetAttributeValue(name, val))
	case 3:
		name := h.pick("a", "b", "c", "name", "zz")
		tr, text := h.randTraversal()
		return fmt.Sprintf("set %s to traversal %s", name, text), set(name, text, real.SetAttributeTraversal(name, tr))
	case 4:
		ty := h.pick("blk", "new")
		labels := []string{"l1", "a \"b", "${x}"}[:h.rng.Intn(4)]
		open := ty
		for _, l := range labels {
			open += " " + string(hclwrite.TokensForValue(cty.StringVal(l)).Bytes())
		}
		b.endLine()
		b.items = append(b.items, &eItem{kind: "block", open: open + " {\n", body: &eBody{}, shut: "}\n"})
		var got *hclwrite.Block
		if h.rng.Intn(2) == 0 {
			got = real.AppendNewBlock(ty, labels)
		} else {
			nb := hclwrite.NewBlock(ty, labels)
			if got = real.AppendBlock(nb); got != nb {
				return "append block", "the appended block is not returned"
			}
		}
		rbs := real.Blocks()
		if got == nil || len(rbs) == 0 || rbs[len(rbs)-1] != got {
			return "append block", "the appended block is not the last one"
		}
		return "append block " + open, ""
	case 5:
		real.AppendNewline()
		if b.brace {
			b.endLine()
		}
		b.items = append(b.items, &eItem{kind: "text", pre: "\n"})
		return "append newline", ""
	default:
		if h.rng.Intn(4) > 0 {
			return "nothing", ""
		}
		real.Clear()
		b.items = nil
		return "clear", ""
	}
}

// agree compares the lookups with the model.
func agree(real *hclwrite.Body, b *eBody) string {
	attrs := real.Attributes()
	n := 0
	for _, it := range b.items {
		if it.kind == "attr" {
			n++
			if a := real.GetAttribute(it.name); a == nil || attrs[it.name] != a {
				return "attribute " + it.name + " is not found"
			} else if want, got := tokensOf(it.expr), tokensOf(string(a.Expr().BuildTokens(nil).Bytes())); want != got {
				return fmt.Sprintf("expression of %s is %s instead of %s", it.name, got, want)
			}
		}
	}
	if len(attrs) != n {
		return fmt.Sprintf("%d attributes instead of %d", len(attrs), n)
	}
	bs, rbs := b.blocks(), real.Blocks()
	if len(bs) != len(rbs) {
		return fmt.Sprintf("%d blocks instead of %d", len(rbs), len(bs))
	}
	for i := range bs {
		if s := agree(rbs[i].Body(), bs[i]); s != "" {
			return fmt.Sprintf("block %d: %s", i, s)
		}
	}
	return ""
}

func tokensOf(src string) string {
	toks, _ := hclsyntax.LexConfig([]byte(src), "t.hcl", start1)
	s := ""
	for _, t := range toks {
		s += string(t.Bytes) + " "
	}
	return strings.TrimSpace(s)
}

func TestVerifP17(t *testing.T) {
	h := newVH(t, "histories of up to 12 edits (set attribute to a value or traversal, append block or newline, clear) on new files and on random loaded files with up to 3 levels of blocks, compared with a text model after every edit")
	defer h.done()
	n := 4000
	if h.extended() {
		n = 60000
	}
	for i := 0; i < n && h.more(); i++ {
		b := &eBody{}
		f := hclwrite.NewEmptyFile()
		if h.rng.Intn(4) > 0 {
			b = h.randEBody(2)
			src := b.text()
			if h.rng.Intn(6) == 0 && len(b.items) > 0 {
				// no newline at the end of the file
				it := b.items[len(b.items)-1]
				switch {
				case it.kind == "attr" && !strings.HasPrefix(it.expr, "<<"):
					it.post = ""
				case it.kind == "block":
					it.shut = "}"
				}
				src = b.text()
			}
			if _, ok := dumpConfig(src); !ok {
				continue
			}
			var diags hcl.Diagnostics
			f, diags = hclwrite.ParseConfig([]byte(src), "t.hcl", start1)
			if diags.HasErrors() {
				h.fail("loading %q: %s", src, diags)
				continue
			}
		}
		src := b.text()
		hist := ""
		h.run(fmt.Sprintf("history %d on %q", i, src), func() {
			for j := h.rng.Intn(12) + 1; j > 0; j-- {
				d, bad := h.edit(f.Body(), b, 0)
				hist += d + "; "
				if bad == "" {
					bad = agree(f.Body(), b)
				}
				if want, got := string(hclwrite.Format([]byte(b.text()))), string(f.Bytes()); bad == "" && tokensOf(got) != tokensOf(want) {
					bad = fmt.Sprintf("the text is %q instead of %q", got, want)
				}
				if _, ok := dumpConfig(string(f.Bytes())); bad == "" && !ok {
					bad = fmt.Sprintf("the text does not parse: %q", f.Bytes())
				}
				if bad != "" {
					h.fail("file %q after %s: %s", src, hist, bad)
					return
				}
			}
		})
	}
}
