package hclsyntax

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// The entry points: no panic (in particular the newline stack is empty at the
// end) and a usable result for every buffer.

//vc:for ParseConfig
//vc:props P05
//vc:boundary
func vc_pubParseConfig(src []byte, filename string, start hcl.Pos) {
	VC_ParseModifies()
	vc.Ensures("file", func(f *hcl.File, d hcl.Diagnostics) bool {
		if f == nil || !vc.Fresh(f) || !vc.Same(f.Bytes, src) {
			return false
		}
		b, isBody := f.Body.(*Body)
		return isBody && b != nil
	})
	vc.Ensures("entries", func(f *hcl.File, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
}

//vc:for ParseExpression
//vc:props P05
//vc:boundary
func vc_pubParseExpression(src []byte, filename string, start hcl.Pos) {
	VC_ParseModifies()
	vc.Ensures("entries", func(e Expression, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for ParseTemplate
//vc:props P05
//vc:boundary
func vc_pubParseTemplate(src []byte, filename string, start hcl.Pos) {
	VC_ParseModifies()
	vc.Ensures("entries", func(e Expression, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for ParseTraversalAbs
//vc:props P05
//vc:boundary
func vc_pubParseTraversalAbs(src []byte, filename string, start hcl.Pos) {
	VC_ParseModifies()
	vc.Ensures("entries", func(t hcl.Traversal, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
}

// VC_ParseModifies: the parser completes traversals and template tokens it has
// just made; that these are its own is not proved, hence the whole types.
func VC_ParseModifies() {
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
}
