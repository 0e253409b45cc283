package hcl

import vc "github.com/hashicorp/hcl2/zz_vc"

//vc:seq *hcl.Diagnostic

// vc_okDiags: every entry is present.
func vc_okDiags(d Diagnostics) bool {
	return vc.Forall(0, len(d), func(i int) bool { return d[i] != nil })
}

// vc_anyError: some entry has error severity.
func vc_anyError(d Diagnostics) bool {
	return vc.Exists(0, len(d), func(i int) bool { return d[i].Severity == DiagError })
}

//vc:for Diagnostics.HasErrors
//vc:props P03
func vc_HasErrors(d Diagnostics) {
	vc.Requires("entries", vc_okDiags(d))
	vc.Invariant("none-so-far", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return d[i].Severity != DiagError })
	})
	vc.Ensures("iff", func(res bool) bool { return res == vc_anyError(d) })
}

//vc:for Diagnostics.Append
//vc:props P03
func vc_Append(d Diagnostics, diag *Diagnostic) {
	vc.Ensures("len", func(res Diagnostics) bool { return len(res) == len(d)+1 })
	vc.Ensures("kept", func(res Diagnostics) bool {
		return vc.Forall(0, len(d), func(i int) bool { return res[i] == d[i] })
	})
	vc.Ensures("added", func(res Diagnostics) bool { return res[len(d)] == diag })
}

//vc:for Diagnostics.Extend
//vc:props P03
func vc_Extend(d, diags Diagnostics) {
	vc.Ensures("len", func(res Diagnostics) bool { return len(res) == len(d)+len(diags) })
	vc.Ensures("kept", func(res Diagnostics) bool {
		return vc.Forall(0, len(d), func(i int) bool { return res[i] == d[i] })
	})
	vc.Ensures("added", func(res Diagnostics) bool {
		return vc.Forall(0, len(diags), func(i int) bool { return res[len(d)+i] == diags[i] })
	})
}

// vc_nErr is the number of error entries among the first n, defined by
// vc_nErrDef.
//
//vc:spec
func vc_nErr(d Diagnostics, n int) int { return 0 }

//vc:axiom
func vc_nErrDef() bool {
	return vc.All(func(d Diagnostics, n int) bool {
		if n <= 0 {
			return vc_nErr(d, n) == 0
		}
		if d[n-1].Severity == DiagError {
			return vc_nErr(d, n) == vc_nErr(d, n-1)+1
		}
		return vc_nErr(d, n) == vc_nErr(d, n-1)
	})
}

//vc:for Diagnostics.Errs
//vc:props P03
func vc_Errs(d Diagnostics) {
	vc.Requires("entries", vc_okDiags(d))
	vc.Invariant("count", func(errs []error, iter int) bool { return len(errs) == vc_nErr(d, iter) })
	vc.Invariant("count-mono", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool {
			return 0 <= vc_nErr(d, i) && vc_nErr(d, i) <= vc_nErr(d, iter) && vc.Implies(d[i].Severity == DiagError, vc_nErr(d, i) < vc_nErr(d, iter))
		})
	})
	vc.Invariant("which", func(errs []error, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool {
			return vc.Implies(d[i].Severity == DiagError, errs[vc_nErr(d, i)] == error(d[i]))
		})
	})
	vc.Ensures("count", func(errs []error) bool { return len(errs) == vc_nErr(d, len(d)) })
	vc.Ensures("which", func(errs []error) bool {
		return vc.Forall(0, len(d), func(i int) bool {
			return vc.Implies(d[i].Severity == DiagError, errs[vc_nErr(d, i)] == error(d[i]))
		})
	})
}

//vc:for Diagnostics.Error
//vc:props P03
func vc_DiagsError(d Diagnostics) {
	vc.Requires("entries", vc_okDiags(d))
}

//vc:for (*Diagnostic).Error
//vc:props P03
func vc_DiagError(d *Diagnostic) {
	vc.Requires("non-nil", d != nil)
}
