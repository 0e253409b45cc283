package hcl

// Static analysis (P23). The interfaces stand for the ones the functions
// declare locally. Assumed of an expression that offers a static form: its
// parts are present; proved for the native and JSON expressions.

import vc "github.com/hashicorp/hcl2/zz_vc"

type vc_exprList interface {
	ExprList() []Expression
}

//vc:for vc_exprList.ExprList
//vc:trusted
func vc_ifaceExprList(e vc_exprList) {
	vc.Ensures("parts", func(l []Expression) bool { return VC_Exprs(l) })
}

type vc_exprMap interface {
	ExprMap() []KeyValuePair
}

//vc:for vc_exprMap.ExprMap
//vc:trusted
func vc_ifaceExprMap(e vc_exprMap) {
	vc.Ensures("parts", func(l []KeyValuePair) bool { return VC_Pairs(l) })
}

type vc_exprCall interface {
	ExprCall() *StaticCall
}

//vc:for vc_exprCall.ExprCall
//vc:trusted
func vc_ifaceExprCall(e vc_exprCall) {
	vc.Ensures("parts", func(c *StaticCall) bool { return vc.Implies(c != nil, VC_Exprs(c.Arguments)) })
}

func VC_Exprs(l []Expression) bool {
	return vc.Forall(0, len(l), func(i int) bool { return l[i] != nil })
}

func VC_Pairs(l []KeyValuePair) bool {
	return vc.Forall(0, len(l), func(i int) bool { return l[i].Key != nil && l[i].Value != nil })
}

//vc:for ExprList
//vc:props P21,P23
func vc_ExprList(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("either", func(l []Expression, d Diagnostics) bool {
		return vc.Iff(VC_AnyError(d), l == nil) && VC_Exprs(l) && VC_OKDiags(d)
	})
}

//vc:for ExprMap
//vc:props P21,P23
func vc_ExprMap(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("either", func(l []KeyValuePair, d Diagnostics) bool {
		return vc.Iff(VC_AnyError(d), l == nil) && VC_Pairs(l) && VC_OKDiags(d)
	})
}

//vc:for ExprCall
//vc:props P21,P23
func vc_ExprCall(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("either", func(c *StaticCall, d Diagnostics) bool {
		return vc.Iff(VC_AnyError(d), c == nil) && vc.Implies(c != nil, VC_Exprs(c.Arguments)) && VC_OKDiags(d)
	})
}

//vc:for RelTraversalForExpr
//vc:props P23
func vc_RelTraversalForExpr(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("either", func(t Traversal, d Diagnostics) bool { return vc.Iff(VC_AnyError(d), t == nil) && VC_OKDiags(d) })
	vc.Ensures("relative", func(t Traversal, d Diagnostics) bool {
		return vc.Implies(t != nil, len(t) > 0 && vc_relative(t) && vc_isAttr(t[0]))
	})
}

func vc_isAttr(s Traverser) bool {
	_, ok := s.(TraverseAttr)
	return ok
}

// The innermost expression, reached by unwrapping.
//
//vc:for UnwrapExpression
//vc:props P23
func vc_UnwrapExpression(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("expression", func(r Expression) bool { return r != nil })
}
