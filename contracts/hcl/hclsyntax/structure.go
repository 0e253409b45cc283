package hclsyntax

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

func vc_okBlock(b *Block) bool { return b != nil && len(b.LabelRanges) == len(b.Labels) }

// vc_okBody: a body as the parser makes it.
func vc_okBody(b *Body) bool {
	return b != nil && vc.Forall(0, len(b.Blocks), func(i int) bool { return vc_okBlock(b.Blocks[i]) }) &&
		vc.All(func(name string) bool {
			a, ok := b.Attributes[name]
			return vc.Implies(ok, a != nil)
		})
}

func vc_hiddenAttr(b *Body, name string) bool {
	_, h := b.hiddenAttrs[name]
	return h
}

func vc_hiddenBlock(b *Body, ty string) bool {
	_, h := b.hiddenBlocks[ty]
	return h
}

// vc_hasAttr: the attribute is defined and not consumed yet.
func vc_hasAttr(b *Body, name string) bool {
	_, ok := b.Attributes[name]
	return ok && !vc_hiddenAttr(b, name)
}

func vc_isAttr(got *hcl.Attribute, a *Attribute) bool {
	return got != nil && got.Name == a.Name && got.Expr == hcl.Expression(a.Expr) && got.Range == a.SrcRange && got.NameRange == a.NameRange
}

func vc_isBlock(got *hcl.Block, b *Block) bool {
	return got != nil && got.Type == b.Type && vc.Same(got.Labels, b.Labels) && got.Body == hcl.Body(b.Body) && got.TypeRange == b.TypeRange && vc.Same(got.LabelRanges, b.LabelRanges)
}

// vc_wanted: the block is of a schema type and not consumed yet.
func vc_wanted(b *Body, schema *hcl.BodySchema, i int) bool {
	ty := b.Blocks[i].Type
	return !vc_hiddenBlock(b, ty) && hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), ty) >= 0
}

func vc_labelsMatch(b *Body, schema *hcl.BodySchema, i int) bool {
	j := hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), b.Blocks[i].Type)
	return len(b.Blocks[i].Labels) == len(schema.Blocks[j].LabelNames)
}

func vc_selected(b *Body, schema *hcl.BodySchema, i int) bool {
	return vc_wanted(b, schema, i) && vc_labelsMatch(b, schema, i)
}

// vc_nSel is the number of selected blocks among the first n.
//
//vc:spec entry
func vc_nSel(b *Body, schema *hcl.BodySchema, n int) int { return 0 }

//vc:axiom
func vc_nSelDef() bool {
	return vc.All(func(b *Body, schema *hcl.BodySchema, n int) bool {
		if n <= 0 {
			return vc_nSel(b, schema, n) == 0
		}
		if vc_selected(b, schema, n-1) {
			return vc_nSel(b, schema, n) == vc_nSel(b, schema, n-1)+1
		}
		return vc_nSel(b, schema, n) == vc_nSel(b, schema, n-1)
	})
}

// vc_blocksSoFar: the selected blocks among the first n, in order.
func vc_blocksSoFar(got hcl.Blocks, b *Body, schema *hcl.BodySchema, n int) bool {
	return len(got) == vc_nSel(b, schema, n) && vc.Forall(0, n, func(i int) bool {
		return vc_nSel(b, schema, i) >= 0 && vc_nSel(b, schema, i) <= len(got) &&
			vc.Implies(vc_selected(b, schema, i), vc_nSel(b, schema, i) < len(got) && vc_isBlock(got[vc_nSel(b, schema, i)], b.Blocks[i]))
	})
}

// vc_missing: a required attribute of the schema is not there.
func vc_missing(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool {
		return schema.Attributes[i].Required && !vc_hasAttr(b, schema.Attributes[i].Name)
	})
}

func vc_mismatch(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool { return vc_wanted(b, schema, i) && !vc_labelsMatch(b, schema, i) })
}

//vc:for (*Body).PartialContent
//vc:props P07
func vc_PartialContent(b *Body, schema *hcl.BodySchema) {
	vc.Requires("body", vc_okBody(b))
	vc.Requires("schema", schema != nil)

	vc.Invariant("hidden-copy", func(hiddenAttrs map[string]struct{}) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenAttrs[k]
			return h == (vc_hiddenAttr(b, k) && vc.Visited(k))
		})
	})
	vc.Invariant("hidden-copy-b", func(hiddenBlocks map[string]struct{}) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenBlocks[k]
			return h == (vc_hiddenBlock(b, k) && vc.Visited(k))
		})
	})
	vc.Invariant("hidden-base", func(hiddenAttrs map[string]struct{}) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenAttrs[k]
			return h == vc_hiddenAttr(b, k)
		})
	})
	vc.Invariant("hidden-base-b", func(hiddenBlocks map[string]struct{}) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenBlocks[k]
			return h == vc_hiddenBlock(b, k)
		})
	})
	vc.Invariant("hidden-now", func(hiddenAttrs map[string]struct{}, iter int) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenAttrs[k]
			return h == (vc_hiddenAttr(b, k) || vc_hasAttr(b, k) && hcl.VC_AttrIdx(schema.Attributes, iter, k) >= 0)
		})
	})
	vc.Invariant("hidden-all", func(hiddenAttrs map[string]struct{}) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenAttrs[k]
			return h == (vc_hiddenAttr(b, k) || vc_hasAttr(b, k) && hcl.VC_InSchema(schema, k))
		})
	})
	vc.Invariant("attrs-now", func(attrs hcl.Attributes, iter int) bool {
		return vc.All(func(k string) bool {
			a, ok := attrs[k]
			return ok == (vc_hasAttr(b, k) && hcl.VC_AttrIdx(schema.Attributes, iter, k) >= 0) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Invariant("attrs-all", func(attrs hcl.Attributes) bool {
		return vc.All(func(k string) bool {
			a, ok := attrs[k]
			return ok == (vc_hasAttr(b, k) && hcl.VC_InSchema(schema, k)) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Invariant("entries", func(diags hcl.Diagnostics) bool { return hcl.VC_OKDiags(diags) })
	vc.Invariant("missing-now", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_missing(b, schema, iter), hcl.VC_AnyError(diags))
	})
	vc.Invariant("missing-all", func(diags hcl.Diagnostics) bool {
		return vc.Implies(vc_missing(b, schema, len(schema.Attributes)), hcl.VC_AnyError(diags))
	})
	vc.Invariant("wanted-now", func(blocksWanted map[string]hcl.BlockHeaderSchema, iter int) bool {
		return hcl.VC_WantedMap(blocksWanted, schema, iter)
	})
	vc.Invariant("wanted-all", func(blocksWanted map[string]hcl.BlockHeaderSchema) bool {
		return hcl.VC_WantedMap(blocksWanted, schema, len(schema.Blocks))
	})
	vc.Invariant("blocks-now", func(blocks hcl.Blocks, iter int) bool { return vc_blocksSoFar(blocks, b, schema, iter) })
	vc.Invariant("blocks-all", func(blocks hcl.Blocks) bool { return vc_blocksSoFar(blocks, b, schema, len(b.Blocks)) })
	vc.Invariant("blocks-none", func(blocks hcl.Blocks) bool { return len(blocks) == 0 })
	vc.Invariant("mismatch-now", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_mismatch(b, schema, iter), hcl.VC_AnyError(diags))
	})
	vc.Invariant("mismatch-all", func(diags hcl.Diagnostics) bool {
		return vc.Implies(vc_mismatch(b, schema, len(b.Blocks)), hcl.VC_AnyError(diags))
	})
	vc.Invariant("quiet-attrs-now", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(!vc_missing(b, schema, iter) && !hcl.VC_DupAttr(schema), len(diags) == 0)
	})
	vc.Invariant("quiet-attrs", func(diags hcl.Diagnostics) bool {
		return vc.Implies(!vc_missing(b, schema, len(schema.Attributes)) && !hcl.VC_DupAttr(schema), len(diags) == 0)
	})
	vc.Invariant("quiet-now", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(!vc_missing(b, schema, len(schema.Attributes)) && !hcl.VC_DupAttr(schema) && !vc_mismatch(b, schema, iter), len(diags) == 0)
	})
	vc.Invariant("quiet-all", func(diags hcl.Diagnostics) bool {
		return vc.Implies(!vc_missing(b, schema, len(schema.Attributes)) && !hcl.VC_DupAttr(schema) && !vc_mismatch(b, schema, len(b.Blocks)), len(diags) == 0)
	})
	vc.Invariant("hidden-blocks-now", func(hiddenBlocks map[string]struct{}, iter int) bool {
		return vc.All(func(k string) bool {
			_, h := hiddenBlocks[k]
			return h == (vc_hiddenBlock(b, k) || hcl.VC_BlockIdx(schema.Blocks, iter, k) >= 0)
		})
	})
	vc.Ensures("attributes", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return c != nil && vc.All(func(k string) bool {
			a, ok := c.Attributes[k]
			return ok == (vc_hasAttr(b, k) && hcl.VC_InSchema(schema, k)) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Ensures("missing-required", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return vc.Implies(vc_missing(b, schema, len(schema.Attributes)), hcl.VC_AnyError(d))
	})
	vc.Ensures("blocks", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return vc_blocksSoFar(c.Blocks, b, schema, len(b.Blocks))
	})
	vc.Ensures("label-mismatch", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return vc.Implies(vc_mismatch(b, schema, len(b.Blocks)), hcl.VC_AnyError(d))
	})
	vc.Ensures("quiet", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return vc.Implies(!vc_missing(b, schema, len(schema.Attributes)) && !hcl.VC_DupAttr(schema) && !vc_mismatch(b, schema, len(b.Blocks)), len(d) == 0)
	})
	vc.Ensures("remain", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		r, ok := remain.(*Body)
		return ok && r != nil && vc.Same(r.Attributes, b.Attributes) && vc.Same(r.Blocks, b.Blocks) && r.SrcRange == b.SrcRange && r.EndRange == b.EndRange
	})
	vc.Ensures("remain-attributes", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		r, _ := remain.(*Body)
		return vc.All(func(k string) bool {
			return vc_hiddenAttr(r, k) == (vc_hiddenAttr(b, k) || vc_hasAttr(b, k) && hcl.VC_InSchema(schema, k))
		})
	})
	vc.Ensures("remain-blocks", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		r, _ := remain.(*Body)
		return vc.All(func(k string) bool {
			return vc_hiddenBlock(r, k) == (vc_hiddenBlock(b, k) || hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), k) >= 0)
		})
	})
	vc.Ensures("entries", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
	vc.Ensures("range", func(c *hcl.BodyContent, remain hcl.Body, d hcl.Diagnostics) bool {
		return c.MissingItemRange.Filename == b.SrcRange.Filename
	})
}

// vc_leftover: an item of the body is neither consumed already nor mentioned
// by the schema.
func vc_leftoverAttr(b *Body, schema *hcl.BodySchema) bool {
	return vc.Some(func(k string) bool {
		return vc_hasAttr(b, k) && !hcl.VC_InSchema(schema, k)
	})
}

func vc_leftoverBlock(b *Body, schema *hcl.BodySchema, n int) bool {
	return vc.Exists(0, n, func(i int) bool {
		return !vc_hiddenBlock(b, b.Blocks[i].Type) && hcl.VC_BlockIdx(schema.Blocks, len(schema.Blocks), b.Blocks[i].Type) < 0
	})
}

func vc_clean(b *Body, schema *hcl.BodySchema) bool {
	return !vc_missing(b, schema, len(schema.Attributes)) && !hcl.VC_DupAttr(schema) && !vc_mismatch(b, schema, len(b.Blocks))
}

func vc_bad(b *Body, schema *hcl.BodySchema) bool {
	return vc_missing(b, schema, len(schema.Attributes)) || vc_mismatch(b, schema, len(b.Blocks))
}

//vc:for (*Body).Content
//vc:props P07
func vc_Content(b *Body, schema *hcl.BodySchema) {
	vc.Requires("body", vc_okBody(b))
	vc.Requires("schema", schema != nil)
	vc.Invariant("entries", func(diags hcl.Diagnostics) bool { return hcl.VC_OKDiags(diags) })
	vc.Invariant("bad", func(diags hcl.Diagnostics) bool { return vc.Implies(vc_bad(b, schema), hcl.VC_AnyError(diags)) })
	vc.Invariant("extra-attrs-now", func(diags hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			return vc.Implies(vc.Visited(k) && vc_hasAttr(b, k) && !hcl.VC_InSchema(schema, k), hcl.VC_AnyError(diags))
		})
	})
	vc.Invariant("extra-attrs", func(diags hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			return vc.Implies(vc_hasAttr(b, k) && !hcl.VC_InSchema(schema, k), hcl.VC_AnyError(diags))
		})
	})
	vc.Invariant("extra-blocks", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_leftoverBlock(b, schema, iter), hcl.VC_AnyError(diags))
	})
	vc.Invariant("quiet-attrs", func(diags hcl.Diagnostics) bool {
		return vc.Implies(vc_clean(b, schema) && !vc_leftoverAttr(b, schema), len(diags) == 0)
	})
	vc.Invariant("quiet-blocks", func(diags hcl.Diagnostics, iter int) bool {
		return vc.Implies(vc_clean(b, schema) && !vc_leftoverAttr(b, schema) && !vc_leftoverBlock(b, schema, iter), len(diags) == 0)
	})
	vc.Ensures("attributes", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return c != nil && vc.All(func(k string) bool {
			a, ok := c.Attributes[k]
			return ok == (vc_hasAttr(b, k) && hcl.VC_InSchema(schema, k)) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Ensures("blocks", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc_blocksSoFar(c.Blocks, b, schema, len(b.Blocks))
	})
	vc.Ensures("missing-or-mismatch", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.Implies(vc_bad(b, schema), hcl.VC_AnyError(d))
	})
	vc.Ensures("unsupported-attribute", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			return vc.Implies(vc_hasAttr(b, k) && !hcl.VC_InSchema(schema, k), hcl.VC_AnyError(d))
		})
	})
	vc.Ensures("unsupported-block", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.Implies(vc_leftoverBlock(b, schema, len(b.Blocks)), hcl.VC_AnyError(d))
	})
	vc.Ensures("quiet", func(c *hcl.BodyContent, d hcl.Diagnostics) bool {
		return vc.Implies(vc_clean(b, schema) && !vc_leftoverAttr(b, schema) && !vc_leftoverBlock(b, schema, len(b.Blocks)), len(d) == 0)
	})
	vc.Ensures("entries", func(c *hcl.BodyContent, d hcl.Diagnostics) bool { return hcl.VC_OKDiags(d) })
}

//vc:for (*Body).JustAttributes
//vc:props P07
func vc_JustAttributes(b *Body) {
	vc.Requires("body", vc_okBody(b))
	vc.Invariant("attrs-now", func(attrs hcl.Attributes) bool {
		return vc.All(func(k string) bool {
			a, ok := attrs[k]
			return ok == (vc_hasAttr(b, k) && vc.Visited(k)) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Invariant("none-yet", func(diags hcl.Diagnostics, iter int) bool {
		return len(diags) == 0 && vc.Forall(0, iter, func(i int) bool { return vc_hiddenBlock(b, b.Blocks[i].Type) })
	})
	vc.Ensures("attributes", func(attrs hcl.Attributes, d hcl.Diagnostics) bool {
		return vc.All(func(k string) bool {
			a, ok := attrs[k]
			return ok == vc_hasAttr(b, k) && vc.Implies(ok, vc_isAttr(a, b.Attributes[k]))
		})
	})
	vc.Ensures("error-iff-block", func(attrs hcl.Attributes, d hcl.Diagnostics) bool {
		visible := vc.Exists(0, len(b.Blocks), func(i int) bool { return !vc_hiddenBlock(b, b.Blocks[i].Type) })
		return hcl.VC_OKDiags(d) && vc.Implies(visible, hcl.VC_AnyError(d)) && vc.Implies(!visible, len(d) == 0)
	})
}

//vc:for nameSuggestion
//vc:props P07
func vc_nameSuggestion(given string, suggestions []string) {
	vc.Ensures("one-of-them", func(r string) bool {
		return r == "" || vc.Exists(0, len(suggestions), func(i int) bool { return suggestions[i] == r })
	})
}
