package hclsyntax

// Position lookups (P22).

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

func vc_blockAt(blk *Block, pos hcl.Pos) bool {
	return hcl.RangeBetween(blk.TypeRange, blk.CloseBraceRange).ContainsPos(pos)
}

// vc_first is the index of the first block at the position, or the number of
// blocks.
//
//vc:spec entry
func vc_first(b *Body, pos hcl.Pos) int { return 0 }

//vc:axiom
func vc_firstDef() bool {
	return vc.All(func(b *Body, pos hcl.Pos) bool {
		f := vc_first(b, pos)
		return 0 <= f && f <= len(b.Blocks) && vc.Forall(0, f, func(i int) bool { return !vc_blockAt(b.Blocks[i], pos) }) &&
			vc.Implies(f < len(b.Blocks), vc_blockAt(b.Blocks[f], pos))
	})
}

// vc_inner is the block at the position that has no block at the position
// inside it, or nil.
//
//vc:spec entry
func vc_inner(b *Body, pos hcl.Pos) *Block { return nil }

//vc:axiom
func vc_innerDef() bool {
	return vc.All(func(b *Body, pos hcl.Pos) bool {
		f := vc_first(b, pos)
		if b == nil || f >= len(b.Blocks) {
			return vc_inner(b, pos) == nil
		}
		return vc_inner(b, pos) == vc_deeper(vc_inner(b.Blocks[f].Body, pos), b.Blocks[f])
	})
}

func vc_deeper(inner, blk *Block) *Block {
	if inner != nil {
		return inner
	}
	return blk
}

// vc_tree: no missing blocks or attributes in any body.
func vc_tree() bool {
	return vc.All(func(b *Body, i int) bool {
		return vc.Implies(b != nil && 0 <= i && i < len(b.Blocks), b.Blocks[i] != nil && b.Blocks[i].Body != nil)
	}) && vc.All(func(b *Body, k string) bool {
		a, ok := b.Attributes[k]
		return vc.Implies(ok, a != nil && a.Expr != nil)
	})
}

// vc_shows: the public form of a block.
func vc_shows(h *hcl.Block, blk *Block) bool {
	body, isBody := h.Body.(*Body)
	return h != nil && blk != nil && h.Type == blk.Type && vc.Same(h.Labels, blk.Labels) && isBody && body == blk.Body &&
		h.TypeRange == blk.TypeRange && vc.Same(h.LabelRanges, blk.LabelRanges)
}

//vc:for (*Body).blocksAtPos
//vc:props P22
func vc_blocksAtPos(b *Body, pos hcl.Pos, makeList bool) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Invariant("inner", func(current *Body, innermost *Block) bool {
		return vc_inner(b, pos) == vc_deeper(vc_inner(current, pos), innermost)
	})
	vc.Invariant("at", func(innermost *Block) bool { return vc.Implies(innermost != nil, vc_blockAt(innermost, pos)) })
	vc.Invariant("body", func(current *Body, innermost *Block) bool {
		return current != nil && (innermost == nil && current == b || innermost != nil && current == innermost.Body)
	})
	vc.Invariant("before", func(current *Body, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return !vc_blockAt(current.Blocks[i], pos) })
	})
	vc.Invariant("list", func(list []*hcl.Block, innermost *Block) bool {
		return vc.Implies(makeList, (len(list) == 0) == (innermost == nil) && vc.Implies(len(list) > 0, vc_shows(list[len(list)-1], innermost)))
	})
	vc.Invariant("no-list", func(list []*hcl.Block) bool { return vc.Implies(!makeList, list == nil) })
	vc.Invariant("outermost", func(list []*hcl.Block) bool {
		return vc.Implies(len(list) > 0, vc_first(b, pos) < len(b.Blocks) && vc_shows(list[0], b.Blocks[vc_first(b, pos)]))
	})
	vc.Invariant("nested", func(list []*hcl.Block) bool { return vc_nested(list, pos) })
	vc.Invariant("own", func(list []*hcl.Block) bool { return list == nil || vc.Fresh(list) })
	vc.Invariant("own-blocks", func(list []*hcl.Block) bool {
		return vc.Forall(0, len(list), func(i int) bool { return list[i] != nil && vc.Fresh(list[i]) })
	})
	vc.Ensures("innermost", func(list []*hcl.Block, innermost *Block) bool { return innermost == vc_inner(b, pos) })
	vc.Ensures("contains", func(list []*hcl.Block, innermost *Block) bool {
		return vc.Implies(innermost != nil, vc_blockAt(innermost, pos) && innermost.Body != nil)
	})
	vc.Ensures("list", func(list []*hcl.Block, innermost *Block) bool {
		return vc.Implies(makeList, (len(list) == 0) == (innermost == nil) && vc.Implies(len(list) > 0, vc_shows(list[len(list)-1], innermost)))
	})
	vc.Ensures("outermost", func(list []*hcl.Block, innermost *Block) bool {
		return vc.Implies(len(list) > 0, vc_first(b, pos) < len(b.Blocks) && vc_shows(list[0], b.Blocks[vc_first(b, pos)]))
	})
	vc.Ensures("nested", func(list []*hcl.Block, innermost *Block) bool { return vc_nested(list, pos) })
}

// vc_nested: every block after the first is in the body of the one before it
// and is the first one there at the position.
func vc_nested(list []*hcl.Block, pos hcl.Pos) bool {
	return vc.Forall(1, len(list), func(i int) bool {
		outer, isBody := list[i-1].Body.(*Body)
		f := vc_first(outer, pos)
		return isBody && outer != nil && 0 <= f && f < len(outer.Blocks) && vc_shows(list[i], outer.Blocks[f])
	})
}

//vc:for (*Body).outermostBlockAtPos
//vc:props P22
func vc_outermostBlockAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Invariant("before", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return !vc_blockAt(b.Blocks[i], pos) })
	})
	vc.Ensures("first", func(r *Block) bool {
		f := vc_first(b, pos)
		if f >= len(b.Blocks) {
			return r == nil
		}
		return r == b.Blocks[f] && vc_blockAt(r, pos)
	})
}

//vc:for (*Body).BlocksAtPos
//vc:props P22
func vc_BlocksAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Ensures("innermost", func(list []*hcl.Block) bool {
		in := vc_inner(b, pos)
		return (len(list) == 0) == (in == nil) && vc.Implies(len(list) > 0, vc_shows(list[len(list)-1], in))
	})
	vc.Ensures("outermost", func(list []*hcl.Block) bool {
		return vc.Implies(len(list) > 0, vc_first(b, pos) < len(b.Blocks) && vc_shows(list[0], b.Blocks[vc_first(b, pos)]))
	})
	vc.Ensures("nested", func(list []*hcl.Block) bool { return vc_nested(list, pos) })
}

//vc:for (*Body).InnermostBlockAtPos
//vc:props P22
func vc_InnermostBlockAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Ensures("innermost", func(r *hcl.Block) bool {
		in := vc_inner(b, pos)
		return (r == nil) == (in == nil) && vc.Implies(r != nil, vc_shows(r, in) && vc_blockAt(in, pos))
	})
}

//vc:for (*Body).OutermostBlockAtPos
//vc:props P22
func vc_OutermostBlockAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Ensures("outermost", func(r *hcl.Block) bool {
		f := vc_first(b, pos)
		return (r == nil) == (f >= len(b.Blocks)) && vc.Implies(r != nil, vc_shows(r, b.Blocks[f]) && vc_blockAt(b.Blocks[f], pos))
	})
}

func vc_search(b *Body, pos hcl.Pos) *Body {
	if in := vc_inner(b, pos); in != nil {
		return in.Body
	}
	return b
}

//vc:for (*Body).attributeAtPos
//vc:props P22
func vc_attributeAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Invariant("before", func(searchBody *Body) bool {
		return vc.All(func(k string) bool {
			a, ok := searchBody.Attributes[k]
			return vc.Implies(ok && vc.Visited(k), !a.SrcRange.ContainsPos(pos))
		})
	})
	vc.Ensures("contains", func(r *Attribute) bool {
		return vc.Implies(r != nil, r.SrcRange.ContainsPos(pos) && r.Expr != nil)
	})
	vc.Ensures("member", func(r *Attribute) bool {
		return vc.Implies(r != nil, vc.Some(func(k string) bool {
			a, ok := vc_search(b, pos).Attributes[k]
			return ok && a == r
		}))
	})
	vc.Ensures("finds", func(r *Attribute) bool {
		return vc.Implies(r == nil, vc.All(func(k string) bool {
			a, ok := vc_search(b, pos).Attributes[k]
			return vc.Implies(ok, !a.SrcRange.ContainsPos(pos))
		}))
	})
}

//vc:for (*Body).AttributeAtPos
//vc:props P22
func vc_AttributeAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Ensures("contains", func(r *hcl.Attribute) bool { return vc.Implies(r != nil, r.Range.ContainsPos(pos)) })
	vc.Ensures("finds", func(r *hcl.Attribute) bool {
		return vc.Implies(r == nil, vc.All(func(k string) bool {
			a, ok := vc_search(b, pos).Attributes[k]
			return vc.Implies(ok, !a.SrcRange.ContainsPos(pos))
		}))
	})
}

//vc:for (*Body).OutermostExprAtPos
//vc:props P22
func vc_OutermostExprAtPos(b *Body, pos hcl.Pos) {
	vc.Requires("tree", b != nil && vc_tree())
	vc.Ensures("contains", func(r hcl.Expression) bool {
		return vc.Implies(r != nil, vc.Some(func(k string) bool {
			a, ok := vc_search(b, pos).Attributes[k]
			return ok && a.Expr == r && a.SrcRange.ContainsPos(pos)
		}))
	})
}

//vc:for navigation.ContextString
//vc:props P22
func vc_ContextString(n navigation, offset int) {
	vc.Requires("tree", n.root != nil && vc_tree())
}

//vc:for navigation.ContextDefRange
//vc:props P22
func vc_ContextDefRange(n navigation, offset int) {
	vc.Requires("tree", n.root != nil && vc_tree())
	vc.Invariant("before", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return !n.root.Blocks[i].Range().ContainsOffset(offset) })
	})
	vc.Ensures("none", func(r hcl.Range) bool {
		return vc.Implies(vc.Forall(0, len(n.root.Blocks), func(i int) bool { return !n.root.Blocks[i].Range().ContainsOffset(offset) }), r == hcl.Range{})
	})
}
