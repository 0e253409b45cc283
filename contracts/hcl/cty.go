package hcl

// Assumed contracts of the value library (github.com/zclconf/go-cty v1.0.0),
// written from its source: preconditions are the conditions under which a
// function does not panic.

import (
	"math/big"

	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// vc_kind classifies types: 1 list, 2 map, 3 set, 4 tuple, 5 object,
// 6 primitive, 7 dynamic, 8 capsule.
//
//vc:spec
func vc_kind(ty cty.Type) int { return 0 }

//vc:axiom
func vc_axKinds() bool {
	return vc.All(func(t cty.Type) bool { return t.IsListType() == (vc_kind(t) == 1) }) &&
		vc.All(func(t cty.Type) bool { return t.IsMapType() == (vc_kind(t) == 2) }) &&
		vc.All(func(t cty.Type) bool { return t.IsSetType() == (vc_kind(t) == 3) }) &&
		vc.All(func(t cty.Type) bool { return t.IsTupleType() == (vc_kind(t) == 4) }) &&
		vc.All(func(t cty.Type) bool { return t.IsObjectType() == (vc_kind(t) == 5) }) &&
		vc.All(func(t cty.Type) bool { return t.IsPrimitiveType() == (vc_kind(t) == 6) }) &&
		vc.All(func(t cty.Type) bool { return t.IsCapsuleType() == (vc_kind(t) == 8) }) &&
		vc.All(func(t cty.Type) bool {
			return t.IsCollectionType() == (vc_kind(t) == 1 || vc_kind(t) == 2 || vc_kind(t) == 3)
		})
}

//vc:axiom
func vc_axPrims() bool {
	return vc_kind(cty.String) == 6 && vc_kind(cty.Number) == 6 && vc_kind(cty.Bool) == 6 && vc_kind(cty.DynamicPseudoType) == 7 &&
		cty.String != cty.Number && cty.Number != cty.Bool && cty.Bool != cty.String &&
		vc_kind(cty.EmptyObject) == 5 && vc_kind(cty.EmptyTuple) == 4 && cty.NilType != cty.DynamicPseudoType && cty.NilType != cty.String &&
		cty.NilType != cty.Number && cty.NilType != cty.Bool && vc_kind(cty.NilType) == 0
}

//vc:axiom
func vc_axVals() bool {
	return !cty.DynamicVal.IsKnown() && !cty.DynamicVal.IsNull() && cty.DynamicVal.Type() == cty.DynamicPseudoType &&
		cty.DynamicVal == cty.UnknownVal(cty.DynamicPseudoType) &&
		cty.True.IsKnown() && !cty.True.IsNull() && cty.True.Type() == cty.Bool &&
		cty.False.IsKnown() && !cty.False.IsNull() && cty.False.Type() == cty.Bool &&
		cty.EmptyTupleVal.Type() == cty.EmptyTuple && cty.EmptyTupleVal.IsKnown() && !cty.EmptyTupleVal.IsNull() &&
		cty.EmptyObjectVal.Type() == cty.EmptyObject && cty.EmptyObjectVal.IsKnown() && !cty.EmptyObjectVal.IsNull()
}

//vc:axiom
func vc_axNullKnown() bool {
	return vc.All(func(v cty.Value) bool { return vc.Implies(v.IsNull(), v.IsKnown()) })
}

//vc:axiom
func vc_axDynamic() bool {
	return vc.All(func(v cty.Value) bool {
		return vc.Implies(v.Type() == cty.DynamicPseudoType && !v.IsNull(), !v.IsKnown())
	})
}

//vc:axiom
func vc_axUnknown() bool {
	return vc.All(func(t cty.Type) bool {
		v := cty.UnknownVal(t)
		return !v.IsKnown() && !v.IsNull() && v.Type() == t
	})
}

//vc:axiom
func vc_axNull() bool {
	return vc.All(func(t cty.Type) bool {
		v := cty.NullVal(t)
		return v.IsKnown() && v.IsNull() && v.Type() == t
	})
}

//vc:axiom
func vc_axString() bool {
	return vc.All(func(s string) bool {
		v := cty.StringVal(s)
		return v.IsKnown() && !v.IsNull() && v.Type() == cty.String
	})
}

//vc:axiom
func vc_axNumberInt() bool {
	return vc.All(func(n int64) bool {
		v := cty.NumberIntVal(n)
		return v.IsKnown() && !v.IsNull() && v.Type() == cty.Number
	})
}

//vc:axiom
func vc_axBool() bool {
	return vc.All(func(b bool) bool {
		v := cty.BoolVal(b)
		return v.IsKnown() && !v.IsNull() && v.Type() == cty.Bool
	})
}

//vc:axiom
func vc_axTypeEquals() bool {
	return vc.All(func(a, b cty.Type) bool {
		return vc.Implies(a == b, a.Equals(b)) && vc.Implies(a.Equals(b), vc_kind(a) == vc_kind(b)) &&
			vc.Implies(a.Equals(b) && (vc_kind(b) == 6 || vc_kind(b) == 7), a == b)
	})
}

//vc:axiom
func vc_axMkTypes() bool {
	return vc.All(func(t cty.Type) bool { return vc_kind(cty.List(t)) == 1 && cty.List(t).ElementType() == t }) &&
		vc.All(func(t cty.Type) bool { return vc_kind(cty.Map(t)) == 2 && cty.Map(t).ElementType() == t }) &&
		vc.All(func(t cty.Type) bool { return vc_kind(cty.Set(t)) == 3 && cty.Set(t).ElementType() == t })
}

func vc_conc(v cty.Value, t cty.Type) bool { return v.Type() == t && v.IsKnown() && !v.IsNull() }

//vc:for github.com/zclconf/go-cty/cty.Value.True
//vc:trusted
//vc:pure
func vc_True(v cty.Value) { vc.Requires("known-bool", vc_conc(v, cty.Bool)) }

//vc:for github.com/zclconf/go-cty/cty.Value.False
//vc:trusted
//vc:pure
func vc_False(v cty.Value) {
	vc.Requires("known-bool", vc_conc(v, cty.Bool))
	vc.Ensures("not-true", func(r bool) bool { return r == !v.True() })
}

//vc:for github.com/zclconf/go-cty/cty.Value.AsString
//vc:trusted
//vc:pure
func vc_AsString(v cty.Value) { vc.Requires("known-string", vc_conc(v, cty.String)) }

//vc:for github.com/zclconf/go-cty/cty.Value.AsBigFloat
//vc:trusted
//vc:pure
func vc_AsBigFloat(v cty.Value) {
	vc.Requires("known-number", vc_conc(v, cty.Number))
	vc.Ensures("non-nil", func(f *big.Float) bool { return f != nil })
}

// Assumed: parsing succeeds only with a concrete number.
//
//vc:for github.com/zclconf/go-cty/cty.ParseNumberVal
//vc:trusted
//vc:pure
func vc_ParseNumberVal(s string) {
	vc.Ensures("number", func(v cty.Value, err error) bool { return vc.Implies(err == nil, vc_conc(v, cty.Number)) })
}

//vc:for github.com/zclconf/go-cty/cty.NumberVal
//vc:trusted
func vc_NumberVal(v *big.Float) {
	vc.Requires("number", v != nil)
	vc.Ensures("number", func(r cty.Value) bool { return vc_conc(r, cty.Number) })
}

func vc_indexable(t cty.Type) bool { return vc_kind(t) == 1 || vc_kind(t) == 2 || vc_kind(t) == 4 }

func vc_keyType(t cty.Type) cty.Type {
	if vc_kind(t) == 2 {
		return cty.String
	}
	return cty.Number
}

//vc:for github.com/zclconf/go-cty/cty.Value.HasIndex
//vc:trusted
//vc:pure
func vc_HasIndex(v, key cty.Value) {
	vc.Requires("indexable", vc_indexable(v.Type()) || v.Type() == cty.DynamicPseudoType)
	vc.Requires("key-not-null", !key.IsNull())
	vc.Requires("value-not-null", !v.IsNull())
	vc.Ensures("bool", func(r cty.Value) bool { return r.Type() == cty.Bool && !r.IsNull() })
	vc.Ensures("known", func(r cty.Value) bool {
		return vc.Implies(key.Type() == vc_keyType(v.Type()) && vc_indexable(v.Type()),
			r.IsKnown() == (key.IsKnown() && (v.IsKnown() || vc_kind(v.Type()) == 4)))
	})
}

//vc:for github.com/zclconf/go-cty/cty.Value.Index
//vc:trusted
//vc:pure
func vc_ValueIndex(v, key cty.Value) {
	vc.Requires("indexable", vc_indexable(v.Type()) || v.Type() == cty.DynamicPseudoType)
	vc.Requires("key", !key.IsNull() && (key.Type() == vc_keyType(v.Type()) || key.Type() == cty.DynamicPseudoType))
	vc.Requires("value-not-null", !v.IsNull())
	vc.Requires("present", !v.HasIndex(key).IsKnown() || v.HasIndex(key).True())
}

//vc:for github.com/zclconf/go-cty/cty.Value.GetAttr
//vc:trusted
//vc:pure
func vc_ValueGetAttr(v cty.Value, name string) {
	vc.Requires("object", vc_kind(v.Type()) == 5 && v.Type().HasAttribute(name))
	vc.Requires("value-not-null", !v.IsNull())
	vc.Ensures("type", func(r cty.Value) bool { return r.Type() == v.Type().AttributeType(name) })
}

//vc:for github.com/zclconf/go-cty/cty.Type.HasAttribute
//vc:trusted
//vc:pure
func vc_HasAttribute(t cty.Type, name string) { vc.Requires("object", vc_kind(t) == 5) }

//vc:for github.com/zclconf/go-cty/cty.Type.AttributeType
//vc:trusted
//vc:pure
func vc_AttributeType(t cty.Type, name string) {
	vc.Requires("object", vc_kind(t) == 5 && t.HasAttribute(name))
}

//vc:for github.com/zclconf/go-cty/cty.Type.ElementType
//vc:trusted
//vc:pure
func vc_ElementType(t cty.Type) {
	vc.Requires("collection", vc_kind(t) == 1 || vc_kind(t) == 2 || vc_kind(t) == 3)
	vc.Ensures("plain", func(e cty.Type) bool { return vc.Implies(VC_Plain(t), VC_Plain(e)) })
}

// Conversion to a primitive type.
//
//vc:for github.com/zclconf/go-cty/cty/convert.Convert
//vc:trusted
//vc:pure
func vc_Convert(v cty.Value, want cty.Type) {
	vc.Ensures("type", func(r cty.Value, err error) bool {
		return vc.Implies(err == nil && want != cty.DynamicPseudoType, vc_kind(r.Type()) == vc_kind(want) && vc.Implies(vc_kind(want) == 6, r.Type() == want))
	})
	vc.Ensures("null", func(r cty.Value, err error) bool { return vc.Implies(err == nil, r.IsNull() == v.IsNull()) })
	vc.Ensures("known", func(r cty.Value, err error) bool { return vc.Implies(err == nil, r.IsKnown() == v.IsKnown()) })
	vc.Ensures("same", func(r cty.Value, err error) bool {
		return vc.Implies(v.Type().Equals(want), err == nil && r == v)
	})
}

//vc:for github.com/zclconf/go-cty/cty.Value.LengthInt
//vc:trusted
//vc:pure
func vc_LengthInt(v cty.Value) {
	vc.Requires("sized", vc_kind(v.Type()) == 4 || vc_kind(v.Type()) == 5 || (vc_kind(v.Type()) >= 1 && vc_kind(v.Type()) <= 3 && v.IsKnown() && !v.IsNull()))
	vc.Ensures("size", func(n int) bool { return n >= 0 })
}

// Iteration over an unknown or null value panics.
//
//vc:for github.com/zclconf/go-cty/cty.Value.ElementIterator
//vc:trusted
func vc_ElementIterator(v cty.Value) {
	vc.Requires("iterable", vc_kind(v.Type()) >= 1 && vc_kind(v.Type()) <= 5 && v.IsKnown() && !v.IsNull())
	vc.Ensures("iterator", func(it cty.ElementIterator) bool { return it != nil && vc_iterated(it) == v })
}

// vc_iterated is the value an iterator goes through.
//
//vc:spec
func vc_iterated(it cty.ElementIterator) cty.Value { return cty.NilVal }

// VC_Writable: known at every depth, and without capsules.
//
//vc:spec
func VC_Writable(v cty.Value) bool { return false }

//vc:axiom
func vc_axWritable() bool {
	return vc.All(func(v cty.Value) bool {
		t := v.Type()
		return vc.Implies(VC_Writable(v), v.IsKnown() && (v.IsNull() || vc_kind(t) >= 1 && vc_kind(t) <= 5 ||
			t == cty.String || t == cty.Number || t == cty.Bool))
	}) && vc.All(func(s string) bool { return VC_Writable(cty.StringVal(s)) })
}

//vc:axiom
func vc_axIterable() bool {
	return vc.All(func(v cty.Value) bool {
		return vc.Implies(v.CanIterateElements(), vc_kind(v.Type()) >= 1 && vc_kind(v.Type()) <= 5 && !v.IsNull())
	})
}

// The keys of an iteration are concrete.
//
//vc:for github.com/zclconf/go-cty/cty.ElementIterator.Element
//vc:trusted
func vc_Element(it cty.ElementIterator) {
	vc.Ensures("key", func(k, v cty.Value) bool { return k.IsKnown() })
	vc.Ensures("name", func(k, v cty.Value) bool {
		kind := vc_kind(vc_iterated(it).Type())
		return vc.Implies(kind == 2 || kind == 5, vc_conc(k, cty.String) && VC_Writable(k))
	})
	vc.Ensures("writable", func(k, v cty.Value) bool { return vc.Implies(VC_Writable(vc_iterated(it)), VC_Writable(v)) })
}

//vc:for github.com/zclconf/go-cty/cty.ElementIterator.Next
//vc:trusted
func vc_Next(it cty.ElementIterator) {}

//vc:for github.com/zclconf/go-cty/cty.ListVal
//vc:trusted
func vc_ListVal(vals []cty.Value) {
	vc.Requires("some", len(vals) > 0)
	vc.Requires("one-type", vc.Forall(0, len(vals), func(i int) bool { return vals[i].Type().Equals(vals[0].Type()) }))
	vc.Ensures("list", func(v cty.Value) bool { return vc_kind(v.Type()) == 1 && v.IsKnown() && !v.IsNull() })
}

//vc:for github.com/zclconf/go-cty/cty.SetVal
//vc:trusted
func vc_SetVal(vals []cty.Value) {
	vc.Requires("some", len(vals) > 0)
	vc.Requires("one-type", vc.Forall(0, len(vals), func(i int) bool { return vals[i].Type().Equals(vals[0].Type()) }))
	vc.Ensures("set", func(v cty.Value) bool { return vc_kind(v.Type()) == 3 && !v.IsNull() })
}

//vc:for github.com/zclconf/go-cty/cty.MapVal
//vc:trusted
func vc_MapVal(vals map[string]cty.Value) {
	vc.Requires("some", len(vals) > 0)
	vc.Ensures("map", func(v cty.Value) bool { return vc_kind(v.Type()) == 2 && v.IsKnown() && !v.IsNull() })
}

//vc:for github.com/zclconf/go-cty/cty.TupleVal
//vc:trusted
func vc_TupleVal(vals []cty.Value) {
	vc.Ensures("tuple", func(v cty.Value) bool { return vc_kind(v.Type()) == 4 && v.IsKnown() && !v.IsNull() })
}

//vc:for github.com/zclconf/go-cty/cty.ObjectVal
//vc:trusted
func vc_ObjectVal(attrs map[string]cty.Value) {
	vc.Ensures("object", func(v cty.Value) bool { return vc_kind(v.Type()) == 5 && v.IsKnown() && !v.IsNull() })
}

//vc:for github.com/zclconf/go-cty/cty.Type.TupleElementTypes
//vc:trusted
//vc:pure
func vc_TupleElementTypes(t cty.Type) {
	vc.Requires("tuple", vc_kind(t) == 4)
	vc.Ensures("length", func(ts []cty.Type) bool { return len(ts) >= 0 })
	vc.Ensures("plain", func(ts []cty.Type) bool {
		return vc.Implies(VC_Plain(t), vc.Forall(0, len(ts), func(i int) bool { return VC_Plain(ts[i]) }))
	})
}

//vc:for github.com/zclconf/go-cty/cty.Type.AttributeTypes
//vc:trusted
//vc:pure
func vc_AttributeTypes(t cty.Type) {
	vc.Requires("object", vc_kind(t) == 5)
	vc.Ensures("plain", func(ts map[string]cty.Type) bool {
		return vc.Implies(VC_Plain(t), vc.All(func(n string) bool { at, ok := ts[n]; return vc.Implies(ok, VC_Plain(at)) }))
	})
}

//vc:for github.com/zclconf/go-cty/cty/function.Function.Params
//vc:trusted
//vc:pure
func vc_Params(f function.Function) {
	vc.Ensures("length", func(ps []function.Parameter) bool { return len(ps) >= 0 })
}

//vc:for github.com/zclconf/go-cty/cty/function.Function.VarParam
//vc:trusted
//vc:pure
func vc_VarParam(f function.Function) {}

// A function reports errors about the arguments it was given.
//
//vc:for github.com/zclconf/go-cty/cty/function.Function.Call
//vc:trusted
func vc_Call(f function.Function, args []cty.Value) {
	vc.Ensures("argument", func(v cty.Value, err error) bool {
		ae, ok := err.(function.ArgError)
		return vc.Implies(ok, 0 <= ae.Index && ae.Index < len(args) && (ae.Index < len(f.Params()) || f.VarParam() != nil))
	})
}

// VC_Exact: a type without the wildcard at any depth. VC_Plain: a type built
// from primitives, the wildcard, collections, tuples and objects.
//
//vc:spec
func VC_Exact(ty cty.Type) bool { return false }

//vc:spec
func VC_Plain(ty cty.Type) bool { return false }

//vc:axiom
func vc_axPlainBase() bool {
	return VC_Exact(cty.Bool) && VC_Exact(cty.Number) && VC_Exact(cty.String) && !VC_Exact(cty.DynamicPseudoType) &&
		VC_Plain(cty.Bool) && VC_Plain(cty.Number) && VC_Plain(cty.String) && VC_Plain(cty.DynamicPseudoType)
}

//vc:axiom
func vc_axPlainCollections() bool {
	return vc.AllPat(func(t cty.Type) cty.Type { return cty.List(t) }, func(t cty.Type) bool {
		return VC_Exact(cty.List(t)) == VC_Exact(t) && VC_Plain(cty.List(t)) == VC_Plain(t)
	}) && vc.AllPat(func(t cty.Type) cty.Type { return cty.Set(t) }, func(t cty.Type) bool {
		return VC_Exact(cty.Set(t)) == VC_Exact(t) && VC_Plain(cty.Set(t)) == VC_Plain(t)
	}) && vc.AllPat(func(t cty.Type) cty.Type { return cty.Map(t) }, func(t cty.Type) bool {
		return VC_Exact(cty.Map(t)) == VC_Exact(t) && VC_Plain(cty.Map(t)) == VC_Plain(t)
	})
}

//vc:axiom
func vc_axPlain() bool {
	return vc.AllPat(func(t cty.Type) bool { return VC_Plain(t) }, func(t cty.Type) bool {
		return vc.Implies(VC_Plain(t), t == cty.Bool || t == cty.Number || t == cty.String || t == cty.DynamicPseudoType ||
			t.IsCollectionType() || t.IsTupleType() || t.IsObjectType())
	})
}

//vc:for github.com/zclconf/go-cty/cty.Tuple
//vc:trusted
func vc_mkTuple(etys []cty.Type) {
	vc.Ensures("exact", func(t cty.Type) bool {
		return vc.Iff(VC_Exact(t), vc.Forall(0, len(etys), func(i int) bool { return VC_Exact(etys[i]) }))
	})
	vc.Ensures("plain", func(t cty.Type) bool {
		return vc.Iff(VC_Plain(t), vc.Forall(0, len(etys), func(i int) bool { return VC_Plain(etys[i]) }))
	})
	vc.Ensures("kind", func(t cty.Type) bool { return t.IsTupleType() })
}

//vc:for github.com/zclconf/go-cty/cty.Object
//vc:trusted
func vc_mkObject(atys map[string]cty.Type) {
	vc.Ensures("exact", func(t cty.Type) bool {
		return vc.Iff(VC_Exact(t), vc.All(func(n string) bool { at, ok := atys[n]; return vc.Implies(ok, VC_Exact(at)) }))
	})
	vc.Ensures("plain", func(t cty.Type) bool {
		return vc.Iff(VC_Plain(t), vc.All(func(n string) bool { at, ok := atys[n]; return vc.Implies(ok, VC_Plain(at)) }))
	})
	vc.Ensures("kind", func(t cty.Type) bool { return t.IsObjectType() })
}

var _ = convert.Convert
