package zz_vh

import (
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
)

func TestVerifP03(t *testing.T) {
	h := newVH(t, "all severity sequences (invalid, error, warning) of length 0..6, split in two for Extend at every point")
	defer h.done()
	var gen func(seq []hcl.DiagnosticSeverity)
	check := func(seq []hcl.DiagnosticSeverity) {
		desc := fmt.Sprintf("severities %v", seq)
		h.run(desc, func() {
			var ds hcl.Diagnostics
			var all []*hcl.Diagnostic
			nerr := 0
			for i, s := range seq {
				d := &hcl.Diagnostic{Severity: s, Summary: fmt.Sprint(i), Detail: "x", Subject: &hcl.Range{}}
				all = append(all, d)
				ds = ds.Append(d)
				if s == hcl.DiagError {
					nerr++
				}
				if len(ds) != i+1 {
					h.fail("%s: Append gives %d entries", desc, len(ds))
					return
				}
				for k := range all {
					if ds[k] != all[k] {
						h.fail("%s: entry %d changed by Append", desc, k)
						return
					}
				}
			}
			if ds.HasErrors() != (nerr > 0) {
				h.fail("%s: HasErrors = %v", desc, ds.HasErrors())
			}
			_ = ds.Error()
			errs := ds.Errs()
			if len(errs) != nerr {
				h.fail("%s: Errs has %d entries", desc, len(errs))
				return
			}
			j := 0
			for k, d := range all {
				if seq[k] != hcl.DiagError {
					continue
				}
				if errs[j] != error(d) {
					h.fail("%s: Errs[%d] is not entry %d", desc, j, k)
				}
				if errs[j].Error() == "" {
					h.fail("%s: empty error text", desc)
				}
				j++
			}
			for cut := 0; cut <= len(all); cut++ {
				a := append(hcl.Diagnostics(nil), all[:cut]...)
				b := append(hcl.Diagnostics(nil), all[cut:]...)
				e := a.Extend(b)
				if len(e) != len(all) {
					h.fail("%s: Extend at %d gives %d entries", desc, cut, len(e))
					return
				}
				for k := range all {
					if e[k] != all[k] {
						h.fail("%s: Extend at %d changes entry %d", desc, cut, k)
						return
					}
				}
				for k := range b {
					if b[k] != all[cut+k] {
						h.fail("%s: Extend at %d modifies its argument", desc, cut)
						return
					}
				}
			}
		})
	}
	gen = func(seq []hcl.DiagnosticSeverity) {
		check(seq)
		if len(seq) == 6 {
			return
		}
		for _, s := range []hcl.DiagnosticSeverity{hcl.DiagInvalid, hcl.DiagError, hcl.DiagWarning} {
			gen(append(seq[:len(seq):len(seq)], s))
		}
	}
	gen(nil)
}
