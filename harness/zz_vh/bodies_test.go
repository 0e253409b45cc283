package zz_vh

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

// A model of a body: attributes with distinct integer values and blocks whose
// bodies hold a distinct "id" attribute.
type mItem struct {
	block  bool
	name   string // attribute name or block type
	labels []string
	val    int
}

type mBody []mItem

func (b mBody) native() string {
	var s strings.Builder
	for _, it := range b {
		if it.block {
			s.WriteString(it.name)
			for _, l := range it.labels {
				fmt.Fprintf(&s, " %q", l)
			}
			fmt.Fprintf(&s, " {\n  id = %d\n}\n", it.val)
		} else {
			fmt.Fprintf(&s, "%s = %d\n", it.name, it.val)
		}
	}
	return s.String()
}

type mState struct {
	body           mBody
	hidA, hidB     map[string]bool
	allowDuplicate bool
}

func newMState(b mBody) mState {
	return mState{body: b, hidA: map[string]bool{}, hidB: map[string]bool{}}
}

type mResult struct {
	attrs  map[string]int
	blocks []mItem
	errs   int
	left   int
}

func (s mState) extract(schema *hcl.BodySchema) (mResult, mState) {
	r := mResult{attrs: map[string]int{}}
	n := mState{body: s.body, hidA: map[string]bool{}, hidB: map[string]bool{}}
	for k := range s.hidA {
		n.hidA[k] = true
	}
	for k := range s.hidB {
		n.hidB[k] = true
	}
	for _, a := range schema.Attributes {
		found := false
		for _, it := range s.body {
			if !it.block && it.name == a.Name && !s.hidA[a.Name] {
				r.attrs[a.Name] = it.val
				n.hidA[a.Name] = true
				found = true
			}
		}
		if !found && a.Required {
			r.errs++
		}
	}
	for _, it := range s.body {
		if !it.block || s.hidB[it.name] {
			continue
		}
		for _, bs := range schema.Blocks {
			if bs.Type != it.name {
				continue
			}
			n.hidB[it.name] = true
			if len(it.labels) == len(bs.LabelNames) {
				r.blocks = append(r.blocks, it)
			} else {
				r.errs++
			}
		}
	}
	for _, it := range s.body {
		if it.block && !n.hidB[it.name] || !it.block && !n.hidA[it.name] {
			r.left++
		}
	}
	return r, n
}

func (s mState) justAttrs() mResult {
	r := mResult{attrs: map[string]int{}}
	for _, it := range s.body {
		if it.block && !s.hidB[it.name] {
			r.errs++
		}
		if !it.block && !s.hidA[it.name] {
			r.attrs[it.name] = it.val
		}
	}
	return r
}

func showAttrs(m map[string]int) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func showBlocks(bs []mItem) string {
	var ks []string
	for _, b := range bs {
		ks = append(ks, fmt.Sprintf("%s%q#%d", b.name, b.labels, b.val))
	}
	return strings.Join(ks, " ")
}

func intOf(e hcl.Expression) (int, string) {
	v, d := e.Value(nil)
	if d.HasErrors() {
		return 0, d.Error()
	}
	f, _ := v.AsBigFloat().Int64()
	return int(f), ""
}

func errCount(d hcl.Diagnostics) int {
	n := 0
	for _, x := range d {
		if x.Severity == hcl.DiagError {
			n++
		}
	}
	return n
}

// srcOf gives the text a range covers, or a marker.
func srcOf(src string, r hcl.Range) string {
	if r.Start.Byte < 0 || r.End.Byte > len(src) || r.End.Byte < r.Start.Byte {
		return "<bad range>"
	}
	return src[r.Start.Byte:r.End.Byte]
}

func realAttrs(src string, got hcl.Attributes) (map[string]int, string) {
	out := map[string]int{}
	for k, a := range got {
		if a == nil {
			return nil, "nil attribute"
		}
		if a.Name != k {
			return nil, fmt.Sprintf("attribute %q says its name is %q", k, a.Name)
		}
		n, err := intOf(a.Expr)
		if err != "" {
			return nil, err
		}
		if src != "" {
			if t := strings.Trim(srcOf(src, a.NameRange), `"`); t != k {
				return nil, fmt.Sprintf("name range of %q covers %q", k, t)
			}
			if t := srcOf(src, a.Range); !strings.Contains(t, k) || !strings.Contains(t, fmt.Sprint(n)) {
				return nil, fmt.Sprintf("range of %q covers %q", k, t)
			}
			if t := srcOf(src, a.Expr.Range()); t != fmt.Sprint(n) {
				return nil, fmt.Sprintf("expression range of %q covers %q", k, t)
			}
		}
		out[k] = n
	}
	return out, ""
}

func realBlocks(src string, got hcl.Blocks) ([]mItem, string) {
	var out []mItem
	for _, b := range got {
		attrs, d := b.Body.JustAttributes()
		if d.HasErrors() {
			return nil, d.Error()
		}
		m, err := realAttrs(src, attrs)
		if err != "" {
			return nil, err
		}
		if src != "" {
			if t := strings.Trim(srcOf(src, b.TypeRange), `"`); t != b.Type {
				return nil, fmt.Sprintf("type range of %q covers %q", b.Type, t)
			}
			if len(b.LabelRanges) != len(b.Labels) {
				return nil, "label ranges do not match the labels"
			}
			for i, r := range b.LabelRanges {
				if t := strings.Trim(srcOf(src, r), `"`); t != b.Labels[i] {
					return nil, fmt.Sprintf("label range of %q covers %q", b.Labels[i], t)
				}
			}
		}
		out = append(out, mItem{true, b.Type, b.Labels, m["id"]})
	}
	return out, ""
}

// compare checks a result against the model; full says leftovers are errors.
func (r mResult) compare(src string, attrs hcl.Attributes, blocks hcl.Blocks, d hcl.Diagnostics, full bool) string {
	ga, err := realAttrs(src, attrs)
	if err != "" {
		return err
	}
	if showAttrs(ga) != showAttrs(r.attrs) {
		return fmt.Sprintf("attributes [%s], want [%s]", showAttrs(ga), showAttrs(r.attrs))
	}
	gb, err := realBlocks(src, blocks)
	if err != "" {
		return err
	}
	if showBlocks(gb) != showBlocks(r.blocks) {
		return fmt.Sprintf("blocks [%s], want [%s]", showBlocks(gb), showBlocks(r.blocks))
	}
	want := r.errs
	if full {
		want += r.left
	}
	if want == 0 && len(d) != 0 {
		return fmt.Sprintf("unexpected diagnostics: %s", d.Error())
	}
	if errCount(d) < want {
		return fmt.Sprintf("%d errors, want %d: %s", errCount(d), want, d.Error())
	}
	return ""
}

func showSchema(s *hcl.BodySchema) string {
	var ks []string
	for _, a := range s.Attributes {
		r := ""
		if a.Required {
			r = "!"
		}
		ks = append(ks, a.Name+r)
	}
	for _, b := range s.Blocks {
		ks = append(ks, fmt.Sprintf("%s/%d", b.Type, len(b.LabelNames)))
	}
	return "{" + strings.Join(ks, " ") + "}"
}

var bodyNames = []string{"a", "b", "c", "aa"}

func (h *vh) randBody(max int, taken map[string]bool) mBody {
	var b mBody
	n := h.rng.Intn(max + 1)
	for i := 0; i < n; i++ {
		nm := bodyNames[h.rng.Intn(len(bodyNames))]
		if h.rng.Intn(2) == 0 {
			if taken["a."+nm] {
				continue
			}
			taken["a."+nm] = true
			taken["n"+nm] = true
			b = append(b, mItem{name: nm, val: 10 + i})
		} else {
			var ls []string
			for j := h.rng.Intn(3); j > 0; j-- {
				ls = append(ls, []string{"x", "y", "z"}[h.rng.Intn(3)])
			}
			b = append(b, mItem{block: true, name: nm, labels: ls, val: 100 + i})
		}
	}
	return b
}

func (h *vh) randSchema() *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, nm := range bodyNames {
		switch h.rng.Intn(4) {
		case 0:
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: nm, Required: h.rng.Intn(2) == 0})
		case 1:
			s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: nm, LabelNames: []string{"l", "m", "n"}[:h.rng.Intn(3)]})
		case 2:
			if h.rng.Intn(3) == 0 {
				s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: nm})
				s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: nm, LabelNames: []string{"l", "m", "n"}[:h.rng.Intn(3)]})
			}
		}
	}
	h.rng.Shuffle(len(s.Attributes), func(i, j int) { s.Attributes[i], s.Attributes[j] = s.Attributes[j], s.Attributes[i] })
	h.rng.Shuffle(len(s.Blocks), func(i, j int) { s.Blocks[i], s.Blocks[j] = s.Blocks[j], s.Blocks[i] })
	return s
}

// walkBody runs a random sequence of extractions and compares each with the
// model. It returns a description of the first difference.
func (h *vh) walkBody(src string, real hcl.Body, st mState, seed int64) string {
	first := ""
	snapshot := func() string {
		r, d := real.JustAttributes()
		as, err := realAttrs(src, r)
		return fmt.Sprint(showAttrs(as), err, errCount(d))
	}
	first = snapshot()
	hist := ""
	body := real
	for step := 0; step < 4; step++ {
		s := h.randSchema()
		switch h.rng.Intn(4) {
		case 0:
			want := st.justAttrs()
			a, d := body.JustAttributes()
			hist += " JustAttributes"
			w := want
			if w.errs > 1 {
				w.errs = 1
			}
			if e := w.compare(src, a, nil, d, false); e != "" {
				return hist + ": " + e
			}
		case 1:
			want, _ := st.extract(s)
			c, d := body.Content(s)
			hist += " Content" + showSchema(s)
			if e := want.compare(src, c.Attributes, c.Blocks, d, true); e != "" {
				return hist + ": " + e
			}
		default:
			want, n := st.extract(s)
			c, rem, d := body.PartialContent(s)
			hist += " PartialContent" + showSchema(s)
			if e := want.compare(src, c.Attributes, c.Blocks, d, false); e != "" {
				return hist + ": " + e
			}
			if h.rng.Intn(4) > 0 {
				body, st = rem, n
				hist += "+remain"
			}
		}
	}
	if s := snapshot(); s != first {
		return hist + ": the body changed from " + first + " to " + s
	}
	return ""
}

func parseNative(src string) hcl.Body {
	f, d := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
	if d.HasErrors() {
		panic(d.Error() + "\n" + src)
	}
	return f.Body
}
