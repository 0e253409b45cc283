package hclsyntax

// Static forms of native expressions (P23): the parts are the node's own
// children in order, the traversal is the node's own traversal, and nothing is
// changed.

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

//vc:for (*FunctionCallExpr).ExprCall
//vc:props P23
func vc_CallExprCall(e *FunctionCallExpr) {
	vc.Requires("node", e != nil && vc.Forall(0, len(e.Args), func(i int) bool { return e.Args[i] != nil }))
	vc.Invariant("copied", func(ret *hcl.StaticCall, iter int) bool {
		return len(ret.Arguments) == len(e.Args) && vc.Forall(0, iter, func(i int) bool { return ret.Arguments[i] == e.Args[i] })
	})
	vc.Invariant("own", func(ret *hcl.StaticCall) bool {
		return ret != nil && vc.Fresh(ret) && vc.Fresh(ret.Arguments) && ret.Name == e.Name
	})
	vc.Ensures("expanded", func(c *hcl.StaticCall) bool { return (c == nil) == e.ExpandFinal })
	vc.Ensures("call", func(c *hcl.StaticCall) bool {
		return vc.Implies(c != nil, c.Name == e.Name && len(c.Arguments) == len(e.Args) &&
			vc.Forall(0, len(e.Args), func(i int) bool { return c.Arguments[i] == e.Args[i] }))
	})
}

//vc:for (*TupleConsExpr).ExprList
//vc:props P23
func vc_TupleExprList(e *TupleConsExpr) {
	vc.Requires("node", e != nil)
	vc.Invariant("copied", func(ret []hcl.Expression, iter int) bool {
		return len(ret) == len(e.Exprs) && vc.Forall(0, iter, func(i int) bool { return ret[i] == e.Exprs[i] })
	})
	vc.Invariant("own", func(ret []hcl.Expression) bool { return ret != nil && vc.Fresh(ret) })
	vc.Ensures("list", func(l []hcl.Expression) bool {
		return l != nil && len(l) == len(e.Exprs) && vc.Forall(0, len(l), func(i int) bool { return l[i] == e.Exprs[i] })
	})
}

//vc:for (*ObjectConsExpr).ExprMap
//vc:props P23
func vc_ObjectExprMap(e *ObjectConsExpr) {
	vc.Requires("node", e != nil)
	vc.Invariant("copied", func(ret []hcl.KeyValuePair, iter int) bool {
		return len(ret) == len(e.Items) && vc.Forall(0, iter, func(i int) bool {
			return ret[i].Key == e.Items[i].KeyExpr && ret[i].Value == e.Items[i].ValueExpr
		})
	})
	vc.Invariant("own", func(ret []hcl.KeyValuePair) bool { return ret != nil && vc.Fresh(ret) })
	vc.Ensures("map", func(l []hcl.KeyValuePair) bool {
		return l != nil && len(l) == len(e.Items) && vc.Forall(0, len(l), func(i int) bool {
			return l[i].Key == e.Items[i].KeyExpr && l[i].Value == e.Items[i].ValueExpr
		})
	})
}

//vc:for (*ScopeTraversalExpr).AsTraversal
//vc:props P23
func vc_ScopeAsTraversal(e *ScopeTraversalExpr) {
	vc.Requires("node", e != nil && hcl.VC_Absolute(e.Traversal))
	vc.Ensures("same", func(t hcl.Traversal) bool { return vc.Same(t, e.Traversal) })
}

//vc:for (*LiteralValueExpr).AsTraversal
//vc:props P23
func vc_LiteralAsTraversal(e *LiteralValueExpr) {
	vc.Requires("node", e != nil)
	vc.Ensures("absolute", func(t hcl.Traversal) bool { return t == nil || len(t) == 1 && hcl.VC_Absolute(t) })
}

//vc:for (*RelativeTraversalExpr).AsTraversal
//vc:props P23
func vc_RelativeAsTraversal(e *RelativeTraversalExpr) {
	vc.Requires("node", e != nil && e.Source != nil && hcl.VC_Relative(e.Traversal))
	vc.Ensures("absolute", func(t hcl.Traversal) bool { return t == nil || hcl.VC_Absolute(t) })
	vc.Ensures("steps", func(t hcl.Traversal) bool {
		return vc.Implies(t != nil, len(t) > len(e.Traversal) && vc.Forall(0, len(e.Traversal), func(i int) bool {
			return t[len(t)-len(e.Traversal)+i] == e.Traversal[i]
		}))
	})
}

//vc:for (*ObjectConsKeyExpr).AsTraversal
//vc:props P23
func vc_KeyAsTraversal(e *ObjectConsKeyExpr) {
	vc.Requires("node", e != nil && e.Wrapped != nil)
	vc.Ensures("absolute", func(t hcl.Traversal) bool { return t == nil || hcl.VC_Absolute(t) })
}
