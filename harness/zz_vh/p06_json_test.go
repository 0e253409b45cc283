package zz_vh

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

// jNode is a JSON document as the standard library reads it, with the
// properties of objects kept in order.
type jNode struct {
	kind  byte // o a s n b z
	names []string
	kids  []*jNode
	str   string
	b     bool
}

func jRead(dec *stdjson.Decoder) (*jNode, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case stdjson.Delim:
		n := &jNode{kind: 'a'}
		if v == '{' {
			n.kind = 'o'
		}
		for dec.More() {
			if n.kind == 'o' {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				n.names = append(n.names, k.(string))
			}
			c, err := jRead(dec)
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, c)
		}
		_, err := dec.Token()
		return n, err
	case string:
		return &jNode{kind: 's', str: v}, nil
	case stdjson.Number:
		return &jNode{kind: 'n', str: v.String()}, nil
	case bool:
		return &jNode{kind: 'b', b: v}, nil
	case nil:
		return &jNode{kind: 'z'}, nil
	}
	return nil, fmt.Errorf("token %v", t)
}

func (n *jNode) duplicates() bool {
	seen := map[string]bool{}
	for _, k := range n.names {
		k = cty.StringVal(k).AsString()
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	for _, k := range n.kids {
		if k.duplicates() {
			return true
		}
	}
	return false
}

// numbers: every number can be represented.
func (n *jNode) numbers() bool {
	if n.kind == 'n' {
		if _, err := cty.ParseNumberVal(n.str); err != nil {
			return false
		}
	}
	for _, k := range n.kids {
		if !k.numbers() {
			return false
		}
	}
	return true
}

func (n *jNode) value() cty.Value {
	switch n.kind {
	case 'o':
		m := map[string]cty.Value{}
		for i, k := range n.names {
			m[cty.StringVal(k).AsString()] = n.kids[i].value()
		}
		return cty.ObjectVal(m)
	case 'a':
		var vs []cty.Value
		for _, k := range n.kids {
			vs = append(vs, k.value())
		}
		return cty.TupleVal(vs)
	case 's':
		return cty.StringVal(n.str)
	case 'n':
		return cty.MustParseNumberVal(n.str)
	case 'b':
		return cty.BoolVal(n.b)
	}
	return cty.NullVal(cty.DynamicPseudoType)
}

func checkJSON(h *vh, src string) {
	h.run(fmt.Sprintf("%q", src), func() {
		f, diags := json.Parse([]byte(src), "x.json")
		if f == nil || f.Body == nil {
			h.fail("%q: no file", src)
			return
		}
		for _, d := range diags {
			if d == nil {
				h.fail("%q: nil diagnostic", src)
				return
			}
		}
		trimmed := strings.TrimLeft(src, " \t\r\n")
		valid := stdjson.Valid([]byte(src)) && (strings.HasPrefix(trimmed, "{") || strings.HasPrefix(trimmed, "["))
		var root *jNode
		if valid {
			dec := stdjson.NewDecoder(bytes.NewReader([]byte(src)))
			dec.UseNumber()
			var err error
			root, err = jRead(dec)
			if err != nil {
				h.fail("%q: oracle: %s", src, err)
				return
			}
			if !root.numbers() {
				return // beyond the range of numbers
			}
		}
		if valid == diags.HasErrors() {
			h.fail("%q: valid=%v but errors=%v (%v)", src, valid, diags.HasErrors(), diags)
			return
		}
		// whatever came back can be inspected
		f.Body.JustAttributes()
		f.Body.MissingItemRange()
		f.Body.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"x"}}}})
		if !valid || !strings.HasPrefix(trimmed, "{") {
			return
		}
		if root.duplicates() {
			return
		}
		attrs, diags := f.Body.JustAttributes()
		if diags.HasErrors() {
			h.fail("%q: attributes: %s", src, diags)
			return
		}
		want := 0
		for i, name := range root.names {
			if name == "//" {
				continue
			}
			want++
			a := attrs[name]
			if a == nil || a.Name != name {
				h.fail("%q: property %q missing", src, name)
				return
			}
			got, diags := a.Expr.Value(nil)
			if diags.HasErrors() {
				h.fail("%q: property %q: %s", src, name, diags)
				return
			}
			if w := root.kids[i].value(); !got.RawEquals(w) {
				h.fail("%q: property %q is %#v, want %#v", src, name, got, w)
			}
		}
		if want != len(attrs) {
			h.fail("%q: %d properties, want %d", src, len(attrs), want)
		}
	})
}

func randJSON(h *vh, depth int) string {
	ws := func() string {
		if h.rng.Intn(8) > 0 {
			return ""
		}
		return []string{" ", "\n", "\t", "\r\n"}[h.rng.Intn(4)]
	}
	str := func() string {
		var b strings.Builder
		b.WriteByte('"')
		for n := h.rng.Intn(4); n > 0; n-- {
			b.WriteString([]string{"a", "b", "é", "é", "؀", "\\\"", "\\\\", "\\u00e9", "\\n", "${", "%{", "//", "‍", "\U0001F468", "\\ud83d\\udc68", "\x7f", "\\/", "ः", "\r"[:0]}[h.rng.Intn(19)])
		}
		b.WriteByte('"')
		return b.String()
	}
	k := h.rng.Intn(8)
	if depth <= 0 && k < 4 {
		k += 4
	}
	var s string
	switch k {
	case 0, 1:
		var parts []string
		for n := h.rng.Intn(4); n > 0; n-- {
			parts = append(parts, ws()+str()+ws()+":"+randJSON(h, depth-1))
		}
		s = "{" + strings.Join(parts, ",") + ws() + "}"
	case 2, 3:
		var parts []string
		for n := h.rng.Intn(4); n > 0; n-- {
			parts = append(parts, randJSON(h, depth-1))
		}
		s = "[" + strings.Join(parts, ",") + ws() + "]"
	case 4, 5:
		s = str()
	case 6:
		s = []string{"0", "-1", "1.5", "1e3", "2E-2", "-0", "10", "123456789012345678901234567890", "0.1", "1e+2"}[h.rng.Intn(10)]
	default:
		s = []string{"true", "false", "null"}[h.rng.Intn(3)]
	}
	return ws() + s + ws()
}

// Every short sequence over a token alphabet, generated documents and their
// mutations, against the standard library.
func TestVerifP06(t *testing.T) {
	h := newVH(t, "all sequences of up to 3 pieces from 20 (4 in the thorough tier), generated documents up to depth 4 and one-byte mutations, against encoding/json")
	defer h.done()
	alpha := []string{"{", "}", "[", "]", ",", ":", "=", "\"a\"", "\"b", "1", "-", "true", "nul", " ", "$", "\\", "\"", "؀", "\xff", "{\"a\":"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if !h.more() {
			return
		}
		checkJSON(h, s)
		if n == 0 {
			return
		}
		for _, a := range alpha {
			rec(s+a, n-1)
		}
	}
	depth := 3
	if h.extended() {
		depth = 4
	}
	rec("", depth)
	n := 20000
	if h.extended() {
		n = 300000
	}
	muts := []byte("{}[],:\"\\ 01e-.tfn$=\n\x00\x80")
	for i := 0; i < n && h.more(); i++ {
		s := randJSON(h, 4)
		if i%2 == 0 {
			s = "{\"a\":" + s + "}"
		}
		if i%3 == 0 {
			b := []byte(s)
			for m := 1 + h.rng.Intn(2); m > 0; m-- {
				at := h.rng.Intn(len(b) + 1)
				switch h.rng.Intn(3) {
				case 0:
					b = append(b[:at:at], append([]byte{muts[h.rng.Intn(len(muts))]}, b[at:]...)...)
				case 1:
					if at < len(b) {
						b = append(b[:at:at], b[at+1:]...)
					}
				default:
					b = b[:at]
				}
			}
			s = string(b)
		}
		checkJSON(h, s)
	}
}
