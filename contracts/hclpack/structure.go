package hclpack

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

func vc_isAttr(got *hcl.Attribute, name string, a Attribute) bool {
	return got != nil && got.Name == name && vc_attrExpr(got, a)
}

func vc_attrExpr(got *hcl.Attribute, a Attribute) bool {
	e, ok := got.Expr.(*Expression)
	return ok && e != nil && vc.Same(e.Source, a.Expr.Source) && e.SourceType == a.Expr.SourceType
}

func vc_isBlock(got *hcl.Block, b Block) bool {
	return got != nil && got.Type == b.Type && vc.Same(got.Labels, b.Labels)
}

func vc_blockBody(got *hcl.Block, b Block) bool {
	body, ok := got.Body.(*Body)
	return ok && body != nil && vc.Same(body.Attributes, b.Body.Attributes) && vc.Same(body.ChildBlocks, b.Body.ChildBlocks)
}

func vc_has(b *Body, name string) bool {
	_, ok := b.Attributes[name]
	return ok
}

func vc_wanted(b *Body, schema *hcl.BodySchema, i int) bool {
	return hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), b.ChildBlocks[i].Type) >= 0
}

func vc_labelsMatch(b *Body, schema *hcl.BodySchema, i int) bool {
	j := hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), b.ChildBlocks[i].Type)
	return len(b.ChildBlocks[i].Labels) == len(schema.Blocks[j].LabelNames)
}

func vc_selected(b *Body, schema *hcl.BodySchema, i int) bool {
	return vc_wanted(b, schema, i) && vc_labelsMatch(b, schema, i)
}

// vc_nSel and vc_nRest count the selected and the unmentioned blocks among
// the first n.
//
//vc:spec entry
func vc_nSel(b *Body, schema *hcl.BodySchema, n int) int { return 0 }

//vc:axiom
func vc_nSelDef() bool {
	return vc.All(func(b *Body, schema *hcl.BodySchema, n int) bool {
		if n <= 0 {
			return vc_nSel(b, schema, n) == 0
		}
		if vc_selected(b, schema, n-1) {
			return vc_nSel(b, schema, n) == vc_nSel(b, schema, n-1)+1
		}
		return vc_nSel(b, schema, n) == vc_nSel(b, schema, n-1)
	})
}

//vc:spec entry
func vc_nRest(b *Body, schema *hcl.BodySchema, n int) int { return 0 }

//vc:axiom
func vc_nRestDef() bool {
	return vc.All(func(b *Body, schema *hcl.BodySchema, n int) bool {
		if n <= 0 {
			return vc_nRest(b, schema, n) == 0
		}
		if vc_wanted(b, schema, n-1) {
			return vc_nRest(b, schema, n) == vc_nRest(b, schema, n-1)
		}
		return vc_nRest(b, schema, n) == vc_nRest(b, schema, n-1)+1
	})
}

func vc_nSelOK(got []*hcl.Block, b *Body, schema *hcl.BodySchema, n int) bool {
	return len(got) == vc_nSel(b, schema, n) && vc.Forall(0, n, func(i int) bool {
		return vc_nSel(b, schema, i) >= 0 && vc_nSel(b, schema, i) <= len(got) &&
			vc.Implies(vc_selected(b, schema, i), vc_nSel(b, schema, i) < len(got))
	})
}

func vc_blocksSoFar(got []*hcl.Block, b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		return vc.Implies(vc_selected(b, schema, i), vc_isBlock(got[vc_nSel(b, schema, i)], b.ChildBlocks[i]))
	})
}

func vc_bodiesSoFar(got []*hcl.Block, b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		return vc.Implies(vc_selected(b, schema, i), vc_blockBody(got[vc_nSel(b, schema, i)], b.ChildBlocks[i]))
	})
}

func vc_nRestOK(remain *Body, b *Body, schema *hcl.BodySchema, n int) bool {
	return len(remain.ChildBlocks) == vc_nRest(b, schema, n) && vc.Forall(0, n, func(i int) bool {
		return vc_nRest(b, schema, i) >= 0 && vc_nRest(b, schema, i) <= len(remain.ChildBlocks) &&
			vc.Implies(!vc_wanted(b, schema, i), vc_nRest(b, schema, i) < len(remain.ChildBlocks))
	})
}

func vc_restSoFar(remain *Body, b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		r := remain.ChildBlocks[vc_nRest(b, schema, i)]
		return vc.Implies(!vc_wanted(b, schema, i), r.Type == b.ChildBlocks[i].Type && vc.Same(r.Labels, b.ChildBlocks[i].Labels))
	})
}

func vc_missing(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool {
		return schema.Attributes[i].Required && !vc_has(b, schema.Attributes[i].Name)
	})
}

func vc_mismatch(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool { return vc_wanted(b, schema, i) && !vc_labelsMatch(b, schema, i) })
}

func vc_extraBlock(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool { return !vc_wanted(b, schema, i) })
}

func vc_attrsHas(attrs map[string]*hcl.Attribute, b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.All(func(k string) bool {
		_, ok := attrs[k]
		return ok == (vc_has(b, k) && hcl.VC_AttrIdx(schema.Attributes, n, k) >= 0)
	})
}

func vc_attrsAre(attrs map[string]*hcl.Attribute, b *Body) bool {
	return vc.All(func(k string) bool {
		a, ok := attrs[k]
		return vc.Implies(ok, vc_isAttr(a, k, b.Attributes[k]))
	})
}

//vc:for (*Body).content
//vc:props P10
func vc_content(b *Body, schema *hcl.BodySchema, remain *Body) {
	vc.Requires("schema", schema != nil && b != nil)
	vc.Requires("empty-remain", vc.Implies(remain != nil, remain != b && len(remain.Attributes) == 0 && remain.Attributes == nil && len(remain.ChildBlocks) == 0 && remain.ChildBlocks == nil))
	vc.ModifiesIf(remain != nil, remain)

	vc.Invariant("remain-none", func() bool {
		return vc.Implies(remain != nil, len(remain.ChildBlocks) == 0 && remain.ChildBlocks == nil)
	})
	vc.Invariant("remain-blocks", func() bool {
		return vc.Implies(remain != nil, remain.ChildBlocks == nil && len(remain.ChildBlocks) == 0 || vc.Fresh(remain.ChildBlocks))
	})
	vc.Invariant("remain-attrs", func() bool {
		return vc.Implies(remain != nil, remain.Attributes == nil || vc.Fresh(remain.Attributes))
	})

	na := len(schema.Attributes)
	vc.Invariant("attrs-now", func(attrs map[string]*hcl.Attribute, iter int) bool { return vc_attrsHas(attrs, b, schema, iter) })
	vc.Invariant("attrs-are", func(attrs map[string]*hcl.Attribute) bool { return vc_attrsAre(attrs, b) })
	vc.Invariant("used-now", func(attrUsed map[string]struct{}, iter int) bool {
		return vc.All(func(k string) bool {
			_, ok := attrUsed[k]
			return ok == (vc_has(b, k) && hcl.VC_AttrIdx(schema.Attributes, iter, k) >= 0)
		})
	})
	vc.Invariant("entries", func(diags hcl.Diagnostics) bool { return hcl.VC_OKDiags(diags) })
	vc.Invariant("missing-now", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_missing(b, schema, iter), hcl.VC_AnyError(diags))
	})
	vc.Invariant("missing-all", func(diags hcl.Diagnostics) bool {
		return vc.Implies(vc_missing(b, schema, na), hcl.VC_AnyError(diags))
	})
	vc.Invariant("quiet-missing", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(!vc_missing(b, schema, iter), len(diags) == 0)
	})
	vc.Invariant("rest-attrs", func(diags hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			extra := vc.Visited(k) && vc_has(b, k) && !hcl.VC_InSchema(schema, k)
			if remain == nil {
				return vc.Implies(extra, hcl.VC_AnyError(diags))
			}
			v, ok := remain.Attributes[k]
			return ok == extra && vc.Implies(ok, vc.Same(v, b.Attributes[k]))
		})
	})
	vc.Invariant("rest-attrs-all", func(diags hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			extra := vc_has(b, k) && !hcl.VC_InSchema(schema, k)
			if remain == nil {
				return vc.Implies(extra, hcl.VC_AnyError(diags))
			}
			v, ok := remain.Attributes[k]
			return ok == extra && vc.Implies(ok, vc.Same(v, b.Attributes[k]))
		})
	})
	vc.Invariant("quiet-attrs", func(diags hcl.Diagnostics) bool {
		extra := vc.Some(func(k string) bool { return vc_has(b, k) && !hcl.VC_InSchema(schema, k) })
		return vc.Implies(!vc_missing(b, schema, na) && (remain != nil || !extra), len(diags) == 0)
	})
	vc.Invariant("wanted-now", func(blocksWanted map[string]hcl.BlockHeaderSchema, iter int) bool {
		return hcl.VC_WantedMap(blocksWanted, schema, iter)
	})
	vc.Invariant("blocks-count", func(blocks []*hcl.Block, iter int) bool { return vc_nSelOK(blocks, b, schema, iter) })
	vc.Invariant("bodies-now", func(blocks []*hcl.Block, iter int) bool {
		return vc.Implies(remain == nil, vc_bodiesSoFar(blocks, b, schema, iter))
	})
	vc.Invariant("blocks-now", func(blocks []*hcl.Block, iter int) bool { return vc_blocksSoFar(blocks, b, schema, iter) })
	vc.Invariant("rest-count", func(iter int) bool {
		return vc.Implies(remain != nil, vc_nRestOK(remain, b, schema, iter))
	})
	vc.Invariant("rest-blocks", func(iter int) bool {
		return vc.Implies(remain != nil, vc_restSoFar(remain, b, schema, iter))
	})
	vc.Invariant("block-errors", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_mismatch(b, schema, iter) || remain == nil && vc_extraBlock(b, schema, iter), hcl.VC_AnyError(diags))
	})
	vc.Invariant("quiet-blocks", func(diags hcl.Diagnostics, iter int) bool {
		extra := vc.Some(func(k string) bool { return vc_has(b, k) && !hcl.VC_InSchema(schema, k) })
		return vc.Implies(!vc_missing(b, schema, na) && (remain != nil || !extra) && !vc_mismatch(b, schema, iter) && (remain != nil || !vc_extraBlock(b, schema, iter)), len(diags) == 0)
	})

	nb := len(b.ChildBlocks)
	vc.Ensures("attributes", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return c != nil && vc_attrsHas(c.Attributes, b, schema, na) && vc_attrsAre(c.Attributes, b)
	})
	vc.Ensures("blocks", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc_nSelOK(c.Blocks, b, schema, nb) && vc_blocksSoFar(c.Blocks, b, schema, nb)
	})
	// with a remainder, the bodies of the blocks on either side are covered by the bounded harness only
	vc.Ensures("block-bodies", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.Implies(remain == nil, vc_bodiesSoFar(c.Blocks, b, schema, nb))
	})
	vc.Ensures("errors", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return hcl.VC_OKDiags(d) && vc.Implies(vc_missing(b, schema, na) || vc_mismatch(b, schema, nb) || remain == nil && vc_extraBlock(b, schema, nb), hcl.VC_AnyError(d))
	})
	vc.Ensures("rest-attributes", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			extra := vc_has(b, k) && !hcl.VC_InSchema(schema, k)
			if remain == nil {
				return vc.Implies(extra, hcl.VC_AnyError(d))
			}
			v, ok := remain.Attributes[k]
			return ok == extra && vc.Implies(ok, vc.Same(v, b.Attributes[k]))
		})
	})
	vc.Ensures("rest-blocks", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.Implies(remain != nil, vc_nRestOK(remain, b, schema, nb) && vc_restSoFar(remain, b, schema, nb))
	})
	vc.Ensures("quiet", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		extra := vc.Some(func(k string) bool { return vc_has(b, k) && !hcl.VC_InSchema(schema, k) })
		return vc.Implies(!vc_missing(b, schema, na) && (remain != nil || !extra) && !vc_mismatch(b, schema, nb) && (remain != nil || !vc_extraBlock(b, schema, nb)), len(d) == 0)
	})
	vc.Ensures("missing-item-range", func(c *hcl.BodyContent, d hcl.Diagnostics) bool { return c.MissingItemRange == b.MissingItemRange_ })
}

//vc:for nameSuggestion
//vc:props P10
func vc_nameSuggestion(given string, suggestions []string) {
	vc.Ensures("one-of-them", func(r string) bool {
		return r == "" || vc.Exists(0, len(suggestions), func(i int) bool { return suggestions[i] == r })
	})
}

//vc:for (*Body).JustAttributes
//vc:props P10
func vc_JustAttributes(b *Body) {
	vc.Requires("body", b != nil)
	vc.Invariant("attrs", func(ret hcl.Attributes) bool {
		return vc.All(func(k string) bool {
			a, ok := ret[k]
			return ok == (vc_has(b, k) && vc.Visited(k)) && vc.Implies(ok, vc_isAttr(a, k, b.Attributes[k]))
		})
	})
	vc.Invariant("errors", func(diags hcl.Diagnostics, iter int) bool {
		return hcl.VC_OKDiags(diags) && vc.Implies(iter > 0, hcl.VC_AnyError(diags)) && vc.Implies(iter == 0, len(diags) == 0)
	})
	vc.Ensures("attributes", func(attrs hcl.Attributes, d hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			a, ok := attrs[k]
			return ok == vc_has(b, k) && vc.Implies(ok, vc_isAttr(a, k, b.Attributes[k]))
		})
	})
	vc.Ensures("error-iff-block", func(attrs hcl.Attributes, d hcl.Diagnostics) bool {
		return hcl.VC_OKDiags(d) && vc.Implies(len(b.ChildBlocks) > 0, hcl.VC_AnyError(d)) && vc.Implies(len(b.ChildBlocks) == 0, len(d) == 0)
	})
}

//vc:for (*Body).Content
//vc:props P10
func vc_Content(b *Body, schema *hcl.BodySchema) {
	vc.Requires("schema", schema != nil && b != nil)
	na, nb := len(schema.Attributes), len(b.ChildBlocks)
	vc.Ensures("attributes", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return c != nil && vc_attrsHas(c.Attributes, b, schema, na) && vc_attrsAre(c.Attributes, b)
	})
	vc.Ensures("blocks", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc_nSelOK(c.Blocks, b, schema, nb) && vc_blocksSoFar(c.Blocks, b, schema, nb) && vc_bodiesSoFar(c.Blocks, b, schema, nb)
	})
	vc.Ensures("error-iff-bad", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		extra := vc.Some(func(k string) bool { return vc_has(b, k) && !hcl.VC_InSchema(schema, k) })
		bad := vc_missing(b, schema, na) || vc_mismatch(b, schema, nb) || vc_extraBlock(b, schema, nb) || extra
		return hcl.VC_OKDiags(d) && vc.Implies(bad, hcl.VC_AnyError(d)) && vc.Implies(!bad, len(d) == 0)
	})
}

//vc:for (*Body).PartialContent
//vc:props P10
func vc_PartialContent(b *Body, schema *hcl.BodySchema) {
	vc.Requires("schema", schema != nil && b != nil)
	na, nb := len(schema.Attributes), len(b.ChildBlocks)
	vc.Ensures("attributes", func(c *hcl.BodyContent, r hcl.Body, d hcl.Diagnostics) bool {
		return c != nil && vc_attrsHas(c.Attributes, b, schema, na) && vc_attrsAre(c.Attributes, b)
	})
	vc.Ensures("blocks", func(c *hcl.BodyContent, r hcl.Body, d hcl.Diagnostics) bool {
		return vc_nSelOK(c.Blocks, b, schema, nb) && vc_blocksSoFar(c.Blocks, b, schema, nb)
	})
	vc.Ensures("error-iff-bad", func(c *hcl.BodyContent, r hcl.Body, d hcl.Diagnostics) bool {
		bad := vc_missing(b, schema, na) || vc_mismatch(b, schema, nb)
		return hcl.VC_OKDiags(d) && vc.Implies(bad, hcl.VC_AnyError(d)) && vc.Implies(!bad, len(d) == 0)
	})
	vc.Ensures("rest-attributes", func(c *hcl.BodyContent, r hcl.Body, d hcl.Diagnostics) bool {
		remain, ok := r.(*Body)
		return ok && remain != nil && vc.All(func(k string) bool {
			v, ok := remain.Attributes[k]
			return ok == (vc_has(b, k) && !hcl.VC_InSchema(schema, k)) && vc.Implies(ok, vc.Same(v, b.Attributes[k]))
		})
	})
	vc.Ensures("rest-blocks", func(c *hcl.BodyContent, r hcl.Body, d hcl.Diagnostics) bool {
		remain, _ := r.(*Body)
		return vc_nRestOK(remain, b, schema, nb) && vc_restSoFar(remain, b, schema, nb)
	})
}
