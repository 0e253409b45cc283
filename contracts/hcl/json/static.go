package json

// Static forms of JSON expressions (P23).

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_exprOf: the expression for a JSON value.
func vc_exprOf(x hcl.Expression, n node) bool {
	e, ok := x.(*expression)
	return ok && e != nil && e.src == n
}

//vc:for (*expression).ExprList
//vc:props P23
func vc_ExprList(e *expression) {
	vc.Requires("node", e != nil && vc_built(e.src))
	v, isArray := e.src.(*arrayVal)
	vc.Invariant("copied", func(ret []hcl.Expression, iter int) bool {
		return len(ret) == len(v.Values) && vc.Forall(0, iter, func(i int) bool { return vc_exprOf(ret[i], v.Values[i]) })
	})
	vc.Invariant("own", func(ret []hcl.Expression) bool { return ret != nil && vc.Fresh(ret) })
	vc.Ensures("list", func(l []hcl.Expression) bool {
		return (l != nil) == isArray && vc.Implies(isArray, len(l) == len(v.Values) &&
			vc.Forall(0, len(l), func(i int) bool { return vc_exprOf(l[i], v.Values[i]) }))
	})
}

//vc:for (*expression).ExprMap
//vc:props P23
func vc_ExprMap(e *expression) {
	vc.Requires("node", e != nil && vc_built(e.src))
	v, isObject := e.src.(*objectVal)
	vc.Invariant("copied", func(ret []hcl.KeyValuePair, iter int) bool {
		return len(ret) == len(v.Attrs) && vc.Forall(0, iter, func(i int) bool { return ret[i].Key != nil && vc_exprOf(ret[i].Value, v.Attrs[i].Value) })
	})
	vc.Invariant("own", func(ret []hcl.KeyValuePair) bool { return ret != nil && vc.Fresh(ret) })
	vc.Ensures("map", func(l []hcl.KeyValuePair) bool {
		return (l != nil) == isObject && vc.Implies(isObject, len(l) == len(v.Attrs) &&
			vc.Forall(0, len(l), func(i int) bool { return l[i].Key != nil && vc_exprOf(l[i].Value, v.Attrs[i].Value) }))
	})
}

//vc:for (*expression).ExprCall
//vc:props P23
func vc_ExprCall(e *expression) {
	vc.Requires("node", e != nil && vc_built(e.src))
	hclsyntax.VC_ParseModifies()
	vc.Ensures("parts", func(c *hcl.StaticCall) bool { return vc.Implies(c != nil, hcl.VC_Exprs(c.Arguments)) })
}

//vc:for (*expression).AsTraversal
//vc:props P23
func vc_AsTraversal(e *expression) {
	vc.Requires("node", e != nil && vc_built(e.src))
	hclsyntax.VC_ParseModifies()
}
