package json

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

// vc_built is what the parser builds: no missing parts.
func vc_built(n node) bool {
	switch v := n.(type) {
	case *stringVal:
		return v != nil
	case *numberVal:
		return v != nil && v.Value != nil
	case *booleanVal:
		return v != nil
	case *arrayVal:
		return v != nil
	case *objectVal:
		return v != nil && vc.Forall(0, len(v.Attrs), func(i int) bool { return v.Attrs[i] != nil })
	default:
		return true
	}
}

//vc:for (*expression).Value
//vc:props P12
func vc_ExpressionValue(e *expression, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil)
	vc.Assume("built-by-the-parser", vc_built(e.src))
	hclsyntax.VC_ParseModifies()
	hclsyntax.VC_ValueModifies()
	vc.Ensures("diags", func(v cty.Value, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Invariant("diags", func(d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
}
