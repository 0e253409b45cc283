package hcl

import (
	"math/big"

	"github.com/agext/levenshtein"

	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

//vc:seq cty.PathStep

// vc_failed: exactly one diagnostic, an error about rng, and no value.
func vc_failed(v cty.Value, d Diagnostics, rng *Range) bool {
	return v == cty.DynamicVal && len(d) == 1 && d[0] != nil && d[0].Severity == DiagError && d[0].Subject == rng
}

// vc_indexVal is the meaning of collection[key]; ok is false for an error.
func vc_indexVal(collection, key cty.Value) (v cty.Value, ok bool) {
	if collection.IsNull() || key.IsNull() {
		return cty.DynamicVal, false
	}
	ty := collection.Type()
	if ty == cty.DynamicPseudoType || key.Type() == cty.DynamicPseudoType {
		return cty.DynamicVal, true
	}
	if vc_indexable(ty) {
		k, err := convert.Convert(key, vc_keyType(ty))
		if err != nil {
			return cty.DynamicVal, false
		}
		has := collection.HasIndex(k)
		if !has.IsKnown() {
			if vc_kind(ty) == 4 {
				return cty.DynamicVal, true
			}
			return cty.UnknownVal(ty.ElementType()), true
		}
		if !has.True() {
			return cty.DynamicVal, false
		}
		return collection.Index(k), true
	}
	if vc_kind(ty) == 5 {
		k, err := convert.Convert(key, cty.String)
		if err != nil {
			return cty.DynamicVal, false
		}
		if !collection.IsKnown() || !k.IsKnown() {
			return cty.DynamicVal, true
		}
		if !ty.HasAttribute(k.AsString()) {
			return cty.DynamicVal, false
		}
		return collection.GetAttr(k.AsString()), true
	}
	return cty.DynamicVal, false
}

// vc_attrVal is the meaning of obj.name; ok is false for an error.
func vc_attrVal(obj cty.Value, name string) (v cty.Value, ok bool) {
	if obj.IsNull() {
		return cty.DynamicVal, false
	}
	ty := obj.Type()
	if vc_kind(ty) == 5 {
		if !ty.HasAttribute(name) {
			return cty.DynamicVal, false
		}
		if !obj.IsKnown() {
			return cty.UnknownVal(ty.AttributeType(name)), true
		}
		return obj.GetAttr(name), true
	}
	if vc_kind(ty) == 2 {
		if !obj.IsKnown() {
			return cty.UnknownVal(ty.ElementType()), true
		}
		if !obj.HasIndex(cty.StringVal(name)).True() {
			return cty.DynamicVal, false
		}
		return obj.Index(cty.StringVal(name)), true
	}
	if ty == cty.DynamicPseudoType {
		return cty.DynamicVal, true
	}
	return cty.DynamicVal, false
}

//vc:for (*math/big.Float).Int
//vc:trusted
func vc_FloatInt(f *big.Float, z *big.Int) {
	vc.Requires("fresh-result", f != nil && z == nil)
}

//vc:for Index
//vc:props P13
func vc_Index(collection, key cty.Value, srcRange *Range) {
	want, ok := vc_indexVal(collection, key)
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool { return vc.Implies(ok, v == want && len(d) == 0) })
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool { return vc.Implies(!ok, vc_failed(v, d, srcRange)) })
}

//vc:for GetAttr
//vc:props P13
func vc_GetAttr(obj cty.Value, attrName string, srcRange *Range) {
	want, ok := vc_attrVal(obj, attrName)
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool { return vc.Implies(ok, v == want && len(d) == 0) })
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool { return vc.Implies(!ok, vc_failed(v, d, srcRange)) })
}

// vc_stepVal and vc_stepOK are the meaning of one step, defined by vc_stepDef.
//
//vc:spec
func vc_stepVal(v cty.Value, step cty.PathStep) cty.Value { return v }

//vc:spec
func vc_stepOK(v cty.Value, step cty.PathStep) bool { return true }

//vc:axiom
func vc_stepDef() bool {
	return vc.All(func(v cty.Value, step cty.PathStep) bool {
		next, ok := cty.DynamicVal, false
		switch s := step.(type) {
		case cty.IndexStep:
			next, ok = vc_indexVal(v, s.Key)
		case cty.GetAttrStep:
			next, ok = vc_attrVal(v, s.Name)
		}
		return vc_stepVal(v, step) == next && vc_stepOK(v, step) == ok
	})
}

// vc_pathVal is the value after the first n steps of the path, defined by
// vc_pathDef.
//
//vc:spec
func vc_pathVal(v cty.Value, path cty.Path, n int) cty.Value { return v }

//vc:axiom
func vc_pathDef() bool {
	return vc.All(func(v cty.Value, path cty.Path, n int) bool {
		if n <= 0 {
			return vc_pathVal(v, path, n) == v
		}
		return vc_pathVal(v, path, n) == vc_stepVal(vc_pathVal(v, path, n-1), path[n-1])
	})
}

// vc_pathOK: none of the first n steps is an error.
func vc_pathOK(v cty.Value, path cty.Path, n int) bool {
	return vc.Forall(0, n, func(i int) bool { return vc_stepOK(vc_pathVal(v, path, i), path[i]) })
}

//vc:for ApplyPath
//vc:props P13
func vc_ApplyPath(val cty.Value, path cty.Path, srcRange *Range) {
	vc.Invariant("no-diags", func(diags Diagnostics) bool { return len(diags) == 0 })
	val0 := val
	vc.Invariant("value", func(val cty.Value, iter int) bool {
		return val == vc_pathVal(val0, path, iter)
	})
	vc.Invariant("ok", func(iter int) bool { return vc_pathOK(val, path, iter) })
	vc.Ensures("value", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(vc_pathOK(val, path, len(path)), v == vc_pathVal(val, path, len(path)) && len(d) == 0)
	})
	vc.Ensures("error", func(v cty.Value, d Diagnostics) bool {
		return vc.Implies(!vc_pathOK(val, path, len(path)), vc_failed(v, d, srcRange))
	})
}

//vc:for github.com/agext/levenshtein.Distance
//vc:trusted
func vc_Distance(a, b string, p *levenshtein.Params) {}
