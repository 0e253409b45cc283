package hclsyntax

// Evaluation (P12). Every Value method is verified on its own: it respects the
// preconditions of the value library for whatever values its children and the
// context give it, and changes nothing but the temporary values of splat
// placeholders and the context fields of diagnostics it has produced. The
// preconditions say what the parser builds: children are present.

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

func VC_ValueModifies() {
	vc.ModifiesAll((*AnonSymbolExpr)(nil))
	vc.ModifiesAll(map[*hcl.EvalContext]cty.Value(nil))
	vc.ModifiesAll((*hcl.Diagnostic)(nil))
}

func vc_value() {
	VC_ValueModifies()
	vc.Ensures("diags", func(v cty.Value, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Invariant("diags", func(d hcl.Diagnostics) bool { return vc_diags(d) })
}

// Assumed for a child: what is proved below for each kind of expression.
//
//vc:for Expression.Value
//vc:trusted
func vc_ExpressionValue(e Expression, ctx *hcl.EvalContext) {
	vc_value()
	vc.Ensures("tuple", func(v cty.Value, d hcl.Diagnostics) bool {
		fe, isFor := e.(*ForExpr)
		return vc.Implies(isFor && fe.KeyExpr == nil, v == cty.DynamicVal || hcl.VC_IsTuple(v))
	})
}

//vc:for (*LiteralValueExpr).Value
//vc:props P12
func vc_LiteralValue(e *LiteralValueExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil)
	vc_value()
}

//vc:for (*ScopeTraversalExpr).Value
//vc:props P12
func vc_ScopeTraversalValue(e *ScopeTraversalExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && hcl.VC_Absolute(e.Traversal))
	vc_value()
}

//vc:for (*RelativeTraversalExpr).Value
//vc:props P12
func vc_RelativeTraversalValue(e *RelativeTraversalExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Source != nil && hcl.VC_Relative(e.Traversal))
	vc_value()
}

//vc:for (*FunctionCallExpr).Value
//vc:props P12
func vc_FunctionCallValue(e *FunctionCallExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && vc.Forall(0, len(e.Args), func(i int) bool { return e.Args[i] != nil }))
	vc.Requires("expand", vc.Implies(e.ExpandFinal, len(e.Args) > 0))
	vc.Invariant("context", func(thisCtx *hcl.EvalContext, hasNonNilMap bool) bool {
		return vc.Implies(thisCtx != nil || hasNonNilMap, ctx != nil)
	})
	vc.Invariant("args", func(list []Expression) bool {
		return vc.Forall(0, len(list), func(i int) bool { return list[i] != nil })
	})
	vc_value()
}

//vc:for unifyResultTypes
//vc:trusted
func vc_unifyResultTypes(a, b cty.Type) {
	vc.Ensures("conversions", func(ty cty.Type, convs []convert.Conversion) bool {
		return vc.Implies(ty != cty.NilType, len(convs) == 2)
	})
}

//vc:for (*ConditionalExpr).Value
//vc:props P12
func vc_ConditionalValue(e *ConditionalExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Condition != nil && e.TrueResult != nil && e.FalseResult != nil)
	vc_value()
}

//vc:for (*IndexExpr).Value
//vc:props P12
func vc_IndexValue(e *IndexExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Collection != nil && e.Key != nil)
	vc_value()
}

//vc:for (*TupleConsExpr).Value
//vc:props P12
func vc_TupleConsValue(e *TupleConsExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && vc.Forall(0, len(e.Exprs), func(i int) bool { return e.Exprs[i] != nil }))
	vc_value()
}

//vc:for (*ObjectConsExpr).Value
//vc:props P12
func vc_ObjectConsValue(e *ObjectConsExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && vc.Forall(0, len(e.Items), func(i int) bool {
		return e.Items[i].KeyExpr != nil && e.Items[i].ValueExpr != nil
	}))
	vc_value()
}

//vc:for (*ObjectConsKeyExpr).Value
//vc:props P12
func vc_ObjectConsKeyValue(e *ObjectConsKeyExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Wrapped != nil)
	te, isTraversal := e.Wrapped.(*ScopeTraversalExpr)
	vc.Requires("traversal", vc.Implies(isTraversal, te != nil && hcl.VC_Absolute(te.Traversal)))
	vc_value()
}

//vc:for (*ForExpr).Value
//vc:props P12
func vc_ForValue(e *ForExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.CollExpr != nil && e.ValExpr != nil)
	vc_value()
	vc.Ensures("tuple", func(v cty.Value, d hcl.Diagnostics) bool {
		return vc.Implies(e.KeyExpr == nil, v == cty.DynamicVal || hcl.VC_IsTuple(v))
	})
	vc.Invariant("own", func(vals []cty.Value) bool { return vals == nil || vc.Fresh(vals) })
	vc.Invariant("own-groups", func(groupVals map[string][]cty.Value) bool {
		return vc.All(func(k string) bool {
			vs, ok := groupVals[k]
			return vc.Implies(ok, vc.Fresh(vs))
		})
	})
}

//vc:for (*SplatExpr).Value
//vc:props P12
func vc_SplatValue(e *SplatExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Source != nil && e.Each != nil && e.Item != nil)
	vc_value()
	vc.Invariant("one-type", func(vals []cty.Value, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return vals[i].Type().Equals(vals[0].Type()) })
	})
}

//vc:for (*AnonSymbolExpr).Value
//vc:props P12
func vc_AnonSymbolValue(e *AnonSymbolExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil)
	vc_value()
}

//vc:for (*BinaryOpExpr).Value
//vc:props P12
func vc_BinaryOpValue(e *BinaryOpExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.LHS != nil && e.RHS != nil && e.Op != nil)
	vc.Requires("operator", len(e.Op.Impl.Params()) == 2)
	vc_value()
}

//vc:for (*UnaryOpExpr).Value
//vc:props P12
func vc_UnaryOpValue(e *UnaryOpExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Val != nil && e.Op != nil)
	vc.Requires("operator", len(e.Op.Impl.Params()) == 1)
	vc_value()
}

//vc:for (*TemplateExpr).Value
//vc:props P12
func vc_TemplateValue(e *TemplateExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && vc.Forall(0, len(e.Parts), func(i int) bool { return e.Parts[i] != nil }))
	vc_value()
}

//vc:for (*TemplateJoinExpr).Value
//vc:props P12
func vc_TemplateJoinValue(e *TemplateJoinExpr, ctx *hcl.EvalContext) {
	fe, isFor := e.Tuple.(*ForExpr)
	vc.Requires("node", e != nil && isFor && fe != nil && fe.KeyExpr == nil)
	vc_value()
}

//vc:for (*TemplateWrapExpr).Value
//vc:props P12
func vc_TemplateWrapValue(e *TemplateWrapExpr, ctx *hcl.EvalContext) {
	vc.Requires("node", e != nil && e.Wrapped != nil)
	vc_value()
}
