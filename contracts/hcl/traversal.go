package hcl

import (
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

func vc_isRoot(tr Traverser) bool {
	_, ok := tr.(TraverseRoot)
	return ok
}

// vc_follows: a step that can be followed from a value.
func vc_follows(tr Traverser) bool {
	if tr == nil || vc_isRoot(tr) {
		return false
	}
	_, splat := tr.(TraverseSplat)
	return !splat
}

// vc_trStepVal and vc_trStepOK are the meaning of one traversal step, defined
// by vc_trStepDef.
//
//vc:spec
func vc_trStepVal(v cty.Value, tr Traverser) cty.Value { return v }

//vc:spec
func vc_trStepOK(v cty.Value, tr Traverser) bool { return true }

//vc:axiom
func vc_trStepDef() bool {
	return vc.AllPat(func(v cty.Value, tr Traverser) bool { return vc_trStepOK(v, tr) }, func(v cty.Value, tr Traverser) bool {
		switch s := tr.(type) {
		case TraverseIndex:
			next, ok := vc_indexVal(v, s.Key)
			return vc_trStepVal(v, tr) == next && vc_trStepOK(v, tr) == ok
		case TraverseAttr:
			next, ok := vc_attrVal(v, s.Name)
			return vc_trStepVal(v, tr) == next && vc_trStepOK(v, tr) == ok
		}
		return true
	})
}

// vc_errorAt: exactly one diagnostic, an error with a subject.
func vc_errorAt(v cty.Value, d Diagnostics) bool {
	return v == cty.DynamicVal && len(d) == 1 && d[0] != nil && d[0].Severity == DiagError && d[0].Subject != nil
}

//vc:for Traverser.TraversalStep
//vc:props P13
func vc_TraversalStep(tr Traverser, val cty.Value) {
	vc.Requires("followable", vc_follows(tr))
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(vc_trStepOK(val, tr), v == vc_trStepVal(val, tr) && len(d) == 0)
	})
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(!vc_trStepOK(val, tr), vc_errorAt(v, d))
	})
}

// vc_trVal is the value after the first n steps, defined by vc_trDef.
//
//vc:spec
func vc_trVal(v cty.Value, t Traversal, n int) cty.Value { return v }

//vc:axiom
func vc_trDef() bool {
	return vc.All(func(v cty.Value, t Traversal, n int) bool {
		if n <= 0 {
			return vc_trVal(v, t, n) == v
		}
		return vc_trVal(v, t, n) == vc_trStepVal(vc_trVal(v, t, n-1), t[n-1])
	})
}

// vc_trOK: none of the steps is an error.
func vc_trOK(v cty.Value, t Traversal, n int) bool {
	return vc.Forall(0, n, func(i int) bool { return vc_trStepOK(vc_trVal(v, t, i), t[i]) })
}

func vc_relative(t Traversal) bool {
	return vc.Forall(0, len(t), func(i int) bool { return vc_follows(t[i]) })
}

func vc_absolute(t Traversal) bool {
	return len(t) > 0 && vc_isRoot(t[0]) && vc.Forall(1, len(t), func(i int) bool { return vc_follows(t[i]) })
}

// VC_Relative, VC_Absolute and VC_IsTuple are for contracts of other packages.
func VC_Relative(t Traversal) bool { return vc_relative(t) }

func VC_Absolute(t Traversal) bool { return vc_absolute(t) }

func VC_IsTuple(v cty.Value) bool { return vc_kind(v.Type()) == 4 && v.IsKnown() && !v.IsNull() }

//vc:for Traversal.TraverseRel
//vc:props P13
func vc_TraverseRel(t Traversal, val cty.Value) {
	vc.Requires("relative", vc_relative(t))
	vc.Invariant("no-diags", func(diags Diagnostics) bool { return len(diags) == 0 })
	vc.Invariant("value", func(current cty.Value, iter int) bool { return current == vc_trVal(val, t, iter) })
	vc.Invariant("ok", func(iter int) bool { return vc_trOK(val, t, iter) })
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(vc_trOK(val, t, len(t)), v == vc_trVal(val, t, len(t)) && len(d) == 0)
	})
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(!vc_trOK(val, t, len(t)), vc_errorAt(v, d))
	})
}

// vc_found and vc_lookup give the innermost definition of a variable,
// defined by vc_scopeDef, unfolded once per vc_scope term.
//
//vc:spec
func vc_found(ctx *EvalContext, name string) bool { return false }

//vc:spec
func vc_lookup(ctx *EvalContext, name string) cty.Value { return cty.NilVal }

//vc:spec
func vc_scope(ctx *EvalContext, name string) bool { return true }

//vc:axiom
func vc_scopeDef() bool {
	return vc.AllPat(func(ctx *EvalContext, name string) bool { return vc_scope(ctx, name) }, func(ctx *EvalContext, name string) bool {
		if !vc_scope(ctx, name) {
			return false
		}
		if ctx == nil {
			return !vc_found(ctx, name)
		}
		v, ok := ctx.Variables[name]
		if ok {
			return vc_found(ctx, name) && vc_lookup(ctx, name) == v
		}
		return vc_found(ctx, name) == vc_found(ctx.parent, name) && vc_lookup(ctx, name) == vc_lookup(ctx.parent, name)
	})
}

//vc:for Traversal.TraverseAbs
//vc:props P13
func vc_TraverseAbs(t Traversal, ctx *EvalContext) {
	vc.Requires("absolute", vc_absolute(t))
	name0 := t[0].(TraverseRoot).Name
	vc.Invariant("scope", func(thisCtx *EvalContext) bool {
		return vc_scope(thisCtx, name0) && vc_found(thisCtx, name0) == vc_found(ctx, name0) && vc_lookup(thisCtx, name0) == vc_lookup(ctx, name0)
	})
	vc.Invariant("has-scope", func(thisCtx *EvalContext, hasNonNil bool) bool {
		return vc.Implies(thisCtx != nil || hasNonNil, ctx != nil)
	})
	found, val, rel := vc_found(ctx, name0), vc_lookup(ctx, name0), t[1:]
	vc.Ensures("missing", func(v cty.Value, d Diagnostics) bool { return vc.Implies(!found, vc_errorAt(v, d)) })
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(found && vc_trOK(val, rel, len(rel)), v == vc_trVal(val, rel, len(rel)) && len(d) == 0)
	})
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(found && !vc_trOK(val, rel, len(rel)), vc_errorAt(v, d))
	})
}

//vc:for TraversalSplit.Traverse
//vc:props P13
func vc_Traverse(t TraversalSplit, ctx *EvalContext) {
	vc.Requires("absolute", vc_absolute(t.Abs) && len(t.Abs) == 1)
	vc.Requires("relative", vc_relative(t.Rel))
	name := t.Abs[0].(TraverseRoot).Name
	vc.Ensures("missing", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(!vc_found(ctx, name), vc_errorAt(v, d))
	})
	val := vc_lookup(ctx, name)
	ok := vc_trOK(val, t.Rel, len(t.Rel))
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(vc_found(ctx, name) && ok, v == vc_trVal(val, t.Rel, len(t.Rel)) && len(d) == 0)
	})
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(vc_found(ctx, name) && !ok, vc_errorAt(v, d))
	})
}

//vc:for Traversal.IsRelative
//vc:props P13
func vc_IsRelative(t Traversal) {
	vc.Ensures("iff", func(rel bool) bool { return rel == !(len(t) > 0 && vc_isRoot(t[0])) })
}

// vc_joined: r is a followed by b, in a new slice.
func vc_joined(r, a, b Traversal) bool {
	return len(r) == len(a)+len(b) &&
		vc.Forall(0, len(a), func(i int) bool { return r[i] == a[i] }) &&
		vc.Forall(0, len(b), func(i int) bool { return r[len(a)+i] == b[i] })
}

//vc:for TraversalJoin
//vc:props P13
func vc_TraversalJoin(abs, rel Traversal) {
	vc.Requires("absolute", len(abs) > 0 && vc_isRoot(abs[0]))
	vc.Requires("relative", len(rel) == 0 || !vc_isRoot(rel[0]))
	vc.Ensures("steps", func(r Traversal) bool { return vc_joined(r, abs, rel) })
	vc.Ensures("fresh", func(r Traversal) bool { return vc.Fresh(r) })
}

//vc:for TraversalSplit.Join
//vc:props P13
func vc_SplitJoin(t TraversalSplit) {
	vc.Requires("absolute", len(t.Abs) > 0 && vc_isRoot(t.Abs[0]))
	vc.Requires("relative", len(t.Rel) == 0 || !vc_isRoot(t.Rel[0]))
	vc.Ensures("steps", func(r Traversal) bool { return vc_joined(r, t.Abs, t.Rel) })
}

//vc:for Traversal.SimpleSplit
//vc:props P13
func vc_SimpleSplit(t Traversal) {
	vc.Requires("absolute", len(t) > 0 && vc_isRoot(t[0]))
	vc.Ensures("root", func(s TraversalSplit) bool { return len(s.Abs) == 1 && s.Abs[0] == t[0] })
	vc.Ensures("rest", func(s TraversalSplit) bool {
		return len(s.Rel) == len(t)-1 && vc.Forall(1, len(t), func(i int) bool { return s.Rel[i-1] == t[i] })
	})
	vc.Ensures("view", func(s TraversalSplit) bool { return vc.Same(s.Rel, t[1:]) })
}

//vc:for Traversal.RootName
//vc:props P13
func vc_RootName(t Traversal) {
	vc.Requires("absolute", len(t) > 0 && vc_isRoot(t[0]))
	vc.Ensures("name", func(s string) bool { return s == t[0].(TraverseRoot).Name })
}

// vc_asTraversal stands for the interface of this shape that the functions
// below declare locally. Assumed: what an expression offers as its traversal
// starts with a root name; proved for the native expressions under P23.
type vc_asTraversal interface {
	AsTraversal() Traversal
}

//vc:for vc_asTraversal.AsTraversal
//vc:trusted
func vc_AsTraversal(e vc_asTraversal) {
	vc.Ensures("absolute", func(t Traversal) bool { return t == nil || vc_absolute(t) })
}

//vc:for AbsTraversalForExpr
//vc:props P12,P23
func vc_AbsTraversalForExpr(expr Expression) {
	vc.Requires("expression", expr != nil)
	vc.Ensures("absolute", func(t Traversal, d Diagnostics) bool {
		return vc.Iff(VC_AnyError(d), t == nil) && vc.Implies(t != nil, vc_absolute(t)) && VC_OKDiags(d)
	})
}

//vc:for ExprAsKeyword
//vc:props P12,P23
func vc_ExprAsKeyword(expr Expression) { vc.Requires("expression", expr != nil) }
