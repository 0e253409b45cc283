package typeexpr

// Type expressions (P21).

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

//vc:for getType
//vc:props P21
func vc_getType(expr hcl.Expression, constraint bool) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("entries", func(t cty.Type, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Ensures("plain", func(t cty.Type, d hcl.Diagnostics) bool { return hcl.VC_Plain(t) })
	vc.Ensures("exact", func(t cty.Type, d hcl.Diagnostics) bool {
		return constraint || hcl.VC_AnyError(d) || hcl.VC_Exact(t)
	})
	vc.Invariant("entries", func(d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Invariant("attribute-types", func(atys map[string]cty.Type) bool {
		return atys != nil && vc.Fresh(atys) && vc.All(func(n string) bool { at, ok := atys[n]; return vc.Implies(ok, hcl.VC_Plain(at)) })
	})
	vc.Invariant("exact-attributes", func(atys map[string]cty.Type, diags hcl.Diagnostics) bool {
		return constraint || hcl.VC_AnyError(diags) || vc.All(func(n string) bool { at, ok := atys[n]; return vc.Implies(ok, hcl.VC_Exact(at)) })
	})
	vc.Invariant("element-types", func(etys []cty.Type, elemDefs []hcl.Expression, iter int) bool {
		return vc.Fresh(etys) && len(etys) == len(elemDefs) && vc.Forall(0, iter, func(i int) bool { return hcl.VC_Plain(etys[i]) })
	})
	vc.Invariant("exact-elements", func(etys []cty.Type, diags hcl.Diagnostics, iter int) bool {
		return constraint || hcl.VC_AnyError(diags) || vc.Forall(0, iter, func(i int) bool { return hcl.VC_Exact(etys[i]) })
	})
}

//vc:for Type
//vc:props P21
func vc_Type(expr hcl.Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("exact", func(t cty.Type, d hcl.Diagnostics) bool {
		return hcl.VC_AnyError(d) || hcl.VC_Exact(t) && hcl.VC_Plain(t)
	})
}

//vc:for TypeConstraint
//vc:props P21
func vc_TypeConstraint(expr hcl.Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("plain", func(t cty.Type, d hcl.Diagnostics) bool { return hcl.VC_Plain(t) })
}

// Sorting only reorders.
//
//vc:for sort.Strings
//vc:trusted
func vc_sortStrings(a []string) {
	vc.Modifies(a)
	vc.Ensures("reordered", func() bool {
		return vc.AllPat(func(i int) string { return a[i] }, func(i int) bool {
			return i < 0 || i >= len(a) || vc.Exists(0, len(a), func(j int) bool { return a[i] == vc.OldStr(func() string { return a[j] }) })
		})
	})
}

//vc:for TypeString
//vc:props P21
func vc_TypeString(ty cty.Type) {
	vc.Requires("plain", hcl.VC_Plain(ty))
	vc.Invariant("names", func(names []string, atys map[string]cty.Type) bool {
		return vc.Forall(0, len(names), func(i int) bool { _, ok := atys[names[i]]; return ok })
	})
}
