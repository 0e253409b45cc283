package hcl

import vc "github.com/hashicorp/hcl2/zz_vc"

// vc_flatLen is the number of bodies the first n contribute once nested
// merged bodies are unpacked.
//
//vc:spec entry
func vc_flatLen(bodies []Body, n int) int { return 0 }

//vc:axiom
func vc_flatLenDef() bool {
	return vc.All(func(bodies []Body, n int) bool {
		if n <= 0 {
			return vc_flatLen(bodies, n) == 0
		}
		children, merged := bodies[n-1].(mergedBodies)
		if merged {
			return len(children) >= 0 && vc_flatLen(bodies, n) == vc_flatLen(bodies, n-1)+len(children)
		}
		return vc_flatLen(bodies, n) == vc_flatLen(bodies, n-1)+1
	})
}

func vc_anyMerged(bodies []Body, n int) bool {
	return vc.Exists(0, n, func(i int) bool {
		_, merged := bodies[i].(mergedBodies)
		return merged
	})
}

func vc_flatBounds(bodies []Body, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		children, merged := bodies[i].(mergedBodies)
		return vc_flatLen(bodies, i) >= 0 && vc_flatLen(bodies, i) <= vc_flatLen(bodies, n) &&
			vc.Implies(merged, vc_flatLen(bodies, i)+len(children) <= vc_flatLen(bodies, n)) &&
			vc.Implies(!merged, vc_flatLen(bodies, i) < vc_flatLen(bodies, n))
	})
}

func vc_flatPlain(got []Body, bodies []Body, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		_, merged := bodies[i].(mergedBodies)
		return vc.Implies(!merged, got[vc_flatLen(bodies, i)] == bodies[i])
	})
}

// vc_child is item j of the merged body at index i.
//
//vc:spec entry
func vc_child(bodies []Body, i, j int) Body { return nil }

//vc:axiom
func vc_childDef() bool {
	return vc.All(func(bodies []Body, i, j int) bool {
		children, merged := bodies[i].(mergedBodies)
		return vc.Implies(merged, vc_child(bodies, i, j) == children[j])
	})
}

func vc_flatMerged(got []Body, bodies []Body, n int) bool {
	return vc.AllPat(func(i, j int) interface{} { return vc_child(bodies, i, j) }, func(i, j int) bool {
		children, merged := bodies[i].(mergedBodies)
		return vc.Implies(0 <= i && i < n && merged && 0 <= j && j < len(children), got[vc_flatLen(bodies, i)+j] == vc_child(bodies, i, j))
	})
}

//vc:for MergeBodies
//vc:props P09
func vc_MergeBodies(bodies []Body) {
	vc.Requires("empty-body", len(emptyBody) == 0)
	vc.Assume("children-exist", vc.Forall(0, len(bodies), func(i int) bool {
		children, merged := bodies[i].(mergedBodies)
		return vc.Implies(merged, len(children) == 0 || vc.Allocated(children))
	}))
	vc.Invariant("length", func(newLen, iter int) bool { return newLen == vc_flatLen(bodies, iter) && newLen >= 0 })
	vc.Invariant("flatten", func(flatten bool, iter int) bool { return flatten == vc_anyMerged(bodies, iter) })
	vc.Invariant("plain", func(newLen, iter int) bool {
		return vc.Implies(!vc_anyMerged(bodies, iter), newLen == iter && vc.Forall(0, iter, func(i int) bool { return vc_flatLen(bodies, i) == i }))
	})
	vc.Invariant("bounds", func(iter int) bool { return vc_flatBounds(bodies, iter) })
	vc.Invariant("flat-length", func(new []Body, iter int) bool { return len(new) == vc_flatLen(bodies, iter) })
	vc.Invariant("flat-plain", func(new []Body, iter int) bool { return vc_flatPlain(new, bodies, iter) })
	vc.Invariant("flat-merged", func(new []Body, iter int) bool { return vc_flatMerged(new, bodies, iter) })
	vc.Ensures("flattened", func(r Body) bool {
		got, ok := r.(mergedBodies)
		n := len(bodies)
		return ok && len(got) == vc_flatLen(bodies, n) && vc_flatPlain(got, bodies, n) && vc_flatMerged(got, bodies, n)
	})
}

func vc_attrsOK(attrs map[string]*Attribute) bool {
	return vc.All(func(k string) bool {
		a, ok := attrs[k]
		return vc.Implies(ok, a != nil)
	})
}

func vc_contentOK(c *BodyContent) bool { return c != nil && vc_attrsOK(c.Attributes) }

// What every implementation of Body is taken to guarantee: the native and
// packed implementations are proved to.
//
//vc:for Body.Content
//vc:trusted
func vc_BodyContent(b Body, schema *BodySchema) {
	vc.Requires("schema", schema != nil)
	vc.Ensures("result", func(c *BodyContent, d Diagnostics) bool { return vc_contentOK(c) && VC_OKDiags(d) })
}

//vc:for Body.PartialContent
//vc:trusted
func vc_BodyPartialContent(b Body, schema *BodySchema) {
	vc.Requires("schema", schema != nil)
	vc.Ensures("result", func(c *BodyContent, r Body, d Diagnostics) bool {
		return vc_contentOK(c) && VC_OKDiags(d) && r != nil
	})
}

//vc:for Body.JustAttributes
//vc:trusted
func vc_BodyJustAttributes(b Body) {
	vc.Ensures("result", func(a Attributes, d Diagnostics) bool { return vc_attrsOK(a) && VC_OKDiags(d) })
}

func vc_optional(got []AttributeSchema, as []AttributeSchema, n int) bool {
	return len(got) == n && vc.Forall(0, n, func(i int) bool { return got[i].Name == as[i].Name && !got[i].Required })
}

func vc_missing(attrs map[string]*Attribute, schema *BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool {
		_, ok := attrs[schema.Attributes[i].Name]
		return schema.Attributes[i].Required && !ok
	})
}

//vc:for mergedBodies.mergedContent
//vc:props P09
func vc_mergedContent(mb mergedBodies, schema *BodySchema, partial bool) {
	vc.Requires("schema", schema != nil)
	vc.Requires("empty-body", len(emptyBody) == 0)
	vc.Requires("bodies", vc.Forall(0, len(mb), func(i int) bool { return mb[i] != nil }))
	vc.Invariant("optional", func(mergedSchema *BodySchema, iter int) bool {
		return vc_optional(mergedSchema.Attributes, schema.Attributes, iter)
	})
	vc.Invariant("entries", func(diags Diagnostics) bool { return VC_OKDiags(diags) })
	vc.Invariant("content", func(content *BodyContent) bool {
		return vc_contentOK(content) && content.Attributes != nil && vc.Fresh(content.Attributes)
	})
	vc.Invariant("own-blocks", func(content *BodyContent) bool {
		return len(content.Blocks) == 0 && content.Blocks == nil || vc.Fresh(content.Blocks)
	})
	vc.Invariant("own-schema", func(mergedSchema *BodySchema) bool {
		return len(mergedSchema.Attributes) == 0 && mergedSchema.Attributes == nil || vc.Fresh(mergedSchema.Attributes)
	})
	vc.Invariant("leftovers", func(mergedLeftovers []Body) bool {
		return vc.Forall(0, len(mergedLeftovers), func(i int) bool { return mergedLeftovers[i] != nil })
	})
	vc.Invariant("one-each", func(mergedLeftovers []Body, iter int) bool {
		if partial {
			return len(mergedLeftovers) == iter
		}
		return len(mergedLeftovers) == 0
	})
	vc.Invariant("kept", func(content *BodyContent, thisContent *BodyContent) bool {
		return vc.All(func(k string) bool {
			_, has := content.Attributes[k]
			_, ok := thisContent.Attributes[k]
			return vc.Implies(ok && vc.Visited(k), has)
		})
	})
	vc.Invariant("missing", func(content *BodyContent, diags Diagnostics, iter int) bool {
		return vc.Implies(vc_missing(content.Attributes, schema, iter), VC_AnyError(diags))
	})
	vc.Ensures("result", func(c *BodyContent, r Body, d Diagnostics) bool { return vc_contentOK(c) && VC_OKDiags(d) && r != nil })
	vc.Ensures("required", func(c *BodyContent, r Body, d Diagnostics) bool {
		return vc.Implies(vc_missing(c.Attributes, schema, len(schema.Attributes)), VC_AnyError(d))
	})
}

//vc:for mergedBodies.JustAttributes
//vc:props P09
func vc_mergedJustAttributes(mb mergedBodies) {
	vc.Requires("bodies", vc.Forall(0, len(mb), func(i int) bool { return mb[i] != nil }))
	vc.Invariant("attrs", func(attrs map[string]*Attribute) bool { return vc_attrsOK(attrs) })
	vc.Invariant("entries", func(diags Diagnostics) bool { return VC_OKDiags(diags) })
	vc.Ensures("result", func(a Attributes, d Diagnostics) bool { return vc_attrsOK(a) && VC_OKDiags(d) })
}
