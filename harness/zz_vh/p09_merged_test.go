package zz_vh

import (
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
)

func TestVerifP09(t *testing.T) {
	h := newVH(t, "0-4 native bodies of up to 5 items each, merged flat, nested or as files, histories of up to 3 extractions")
	defer h.done()
	n := 5000
	if h.extended() {
		n = 50000
	}
	for i := 0; i < n && h.more(); i++ {
		var parts []mState
		var bodies []hcl.Body
		var files []*hcl.File
		desc := ""
		for k := h.rng.Intn(5); k > 0; k-- {
			b := h.randBody(5, map[string]bool{})
			for j := range b {
				b[j].val += 1000 * k
			}
			src := b.native()
			parts = append(parts, newMState(b))
			bodies = append(bodies, parseNative(src))
			files = append(files, &hcl.File{Body: bodies[len(bodies)-1]})
			desc += fmt.Sprintf(" %q", src)
		}
		var m hcl.Body
		switch h.rng.Intn(3) {
		case 0:
			m = hcl.MergeBodies(bodies)
		case 1:
			m = hcl.MergeFiles(files)
		default:
			k := h.rng.Intn(len(bodies) + 1)
			var nested []hcl.Body
			nested = append(nested, hcl.MergeBodies(bodies[:k]))
			nested = append(nested, bodies[k:]...)
			if h.rng.Intn(2) == 0 {
				nested = append(nested, hcl.EmptyBody())
			}
			m = hcl.MergeBodies(nested)
			desc += fmt.Sprintf(" nested at %d", k)
		}
		h.run(fmt.Sprint(i, desc), func() {
			hist := ""
			// in-place and remaining bodies behave alike, so a history of
			// partial extractions is checked on the parts and on the merge
			for step := 0; step < 3; step++ {
				s := h.randSchema()
				op := h.rng.Intn(3)
				want := mResult{attrs: map[string]int{}}
				var next []mState
				none := &hcl.BodySchema{Blocks: s.Blocks}
				for _, a := range s.Attributes {
					none.Attributes = append(none.Attributes, hcl.AttributeSchema{Name: a.Name})
				}
				for _, p := range parts {
					r, nx := p.extract(none)
					if op == 0 {
						r = p.justAttrs()
						if r.errs > 1 {
							r.errs = 1
						}
					}
					next = append(next, nx)
					for k, v := range r.attrs {
						if _, dup := want.attrs[k]; dup {
							want.errs++
						} else {
							want.attrs[k] = v
						}
					}
					want.blocks = append(want.blocks, r.blocks...)
					want.errs += r.errs
					want.left += r.left
				}
				if op != 0 {
					for _, a := range s.Attributes {
						if _, ok := want.attrs[a.Name]; a.Required && !ok {
							want.errs++
						}
					}
				}
				var e string
				switch op {
				case 0:
					hist += " JustAttributes"
					a, d := m.JustAttributes()
					e = want.compare("", a, nil, d, false)
				case 1:
					hist += " Content" + showSchema(s)
					c, d := m.Content(s)
					e = want.compare("", c.Attributes, c.Blocks, d, true)
					if e == "" && errCount(d) != want.errs+want.left {
						e = fmt.Sprintf("%d errors, want %d: %s", errCount(d), want.errs+want.left, d.Error())
					}
				default:
					hist += " PartialContent" + showSchema(s)
					c, rem, d := m.PartialContent(s)
					e = want.compare("", c.Attributes, c.Blocks, d, false)
					if e == "" && errCount(d) != want.errs {
						e = fmt.Sprintf("%d errors, want %d: %s", errCount(d), want.errs, d.Error())
					}
					if h.rng.Intn(3) > 0 {
						m, parts = rem, next
						hist += "+remain"
					}
				}
				if e != "" {
					h.fail("merge of%s:%s: %s", desc, hist, e)
					return
				}
			}
		})
	}
}
