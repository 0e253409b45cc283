package hclwrite

// Edits of a body (P17).

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

// vc_attr: an attribute with a name and an expression that is in a list.
func vc_attr(a *Attribute) bool {
	return a != nil && a.name != nil && vc_named(a.name.content) && a.expr != nil && a.expr.list != nil
}

func vc_named(c nodeContent) bool {
	id, is := c.(*identifier)
	return is && id != nil && id.token != nil
}

// vc_item: an item of a body, which is well formed if it is an attribute.
func vc_item(n *node) bool {
	a, is := n.content.(*Attribute)
	return n.list != nil && vc.Implies(is, vc_attr(a))
}

func vc_body(b *Body) bool {
	return b != nil && b.children != nil && b.items != nil && vc.All(func(n *node) bool {
		_, has := b.items[n]
		return vc.Implies(has, n != nil && vc_item(n))
	})
}

func vc_hasName(a *Attribute, name string) bool {
	return a.name.content.(*identifier).hasName(name)
}

// vc_nameIs: the attribute's name token has the given text.
func vc_nameIs(a *Attribute, name string) bool {
	return vc_text(a.name.content.(*identifier).token, name)
}

//vc:for (*identifier).hasName
//vc:pure
//vc:props P17
func vc_identifier_hasName(i *identifier, name string) {
	vc.Requires("token", i != nil && i.token != nil)
	vc.Ensures("text", func(r bool) bool { return vc.Implies(r, vc_text(i.token, name)) })
}

//vc:for (*Body).GetAttribute
//vc:props P17
func vc_Body_GetAttribute(b *Body, name string) {
	vc.Requires("body", vc_body(b))
	vc.Ensures("found", func(r *Attribute) bool {
		return r == nil || vc_attr(r) && vc_nameIs(r, name) && vc.Some(func(n *node) bool {
			_, has := b.items[n]
			a, is := n.content.(*Attribute)
			return has && is && a == r
		})
	})
	vc.Ensures("none", func(r *Attribute) bool {
		return r != nil || vc.All(func(n *node) bool {
			_, has := b.items[n]
			a, is := n.content.(*Attribute)
			return !has || !is || !vc_hasName(a, name)
		})
	})
	vc.Invariant("none", func() bool {
		return vc.All(func(n *node) bool {
			a, is := n.content.(*Attribute)
			return !vc.Visited(n) || !is || !vc_hasName(a, name)
		})
	})
}

//vc:for NewExpressionLiteral
//vc:props P17
func vc_NewExpressionLiteral(val cty.Value) {
	vc.Requires("writable", hcl.VC_Writable(val))
	vc.Requires("lists", vc_lists())
	vc_spacing()
	vc_listFrame()
	vc.Ensures("expression", func(r *Expression) bool {
		return r != nil && vc.Fresh(r) && r.parent == nil && r.children != nil && vc.Fresh(r.children) && r.children.first != nil
	})
	vc.Ensures("kept", func(r *Expression) bool { return vc_others(nil, nil, nil) && vc_otherLists(nil) })
	vc.Ensures("lists", func(r *Expression) bool { return vc_lists() })
}

// vc_bodyFrame: what an edit that appends to a body may change. Contents of
// nodes, and attributes other than by their links, stay as they are.
func vc_bodyFrame(b *Body) {
	vc_spacing()
	vc_listFrame()
}

//vc:for (*Attribute).init
//vc:props P17
func vc_Attribute_init(a *Attribute, name string, expr *Expression) {
	vc.Requires("attribute", a != nil && a.children != nil && expr != nil && expr.parent == nil)
	vc.Requires("lists", vc_lists())
	vc.Modifies(a)
	vc_listFrame()
	vc.Ensures("attribute", func() bool { return vc_attr(a) && vc_nameIs(a, name) && a.expr.list == a.children })
	vc.Ensures("expression", func() bool {
		e, is := a.expr.content.(*Expression)
		return is && e == expr
	})
	vc.Ensures("children", func() bool {
		c := a.children
		return vc.Old(func() bool { return a.children == c })
	})
	vc.Ensures("kept", func() bool { return vc_otherLists(a.children) && vc_placesKept() })
	vc.Ensures("lists", func() bool { return vc_lists() })
}

// vc_placesKept: no existing node moved to another list.
func vc_placesKept() bool {
	return vc.All(func(m *node) bool {
		list, before := m.list, m.before
		return m == nil || vc.Fresh(m) || vc.Old(func() bool { return m.list == list && m.before == before })
	})
}

//vc:for (*Body).startLine
//vc:props P17
func vc_Body_startLine(b *Body) {
	vc.Requires("body", b != nil && b.children != nil)
	vc.Requires("lists", vc_lists())
	vc_listFrame()
	vc.Ensures("lists", func() bool { return vc_lists() })
	vc.Ensures("places", func() bool { return vc_sameLists() })
}

// vc_sameLists: every existing node is in the list it was in.
func vc_sameLists() bool {
	return vc.All(func(m *node) bool {
		list := m.list
		return m == nil || vc.Fresh(m) || vc.Old(func() bool { return m.list == list })
	})
}

//vc:for (*Body).appendItem
//vc:props P17
func vc_Body_appendItem(b *Body, c nodeContent) {
	vc.Requires("body", b != nil && b.children != nil && b.items != nil)
	vc.Requires("lists", vc_lists())
	vc_listFrame()
	vc.Modifies(b.items)
	vc.Ensures("added", func(r *node) bool {
		_, has := b.items[r]
		return r != nil && vc.Fresh(r) && r.content == c && r.list == b.children && has && b.children.last == r
	})
	vc.Ensures("items", func(r *node) bool {
		return vc.All(func(n *node) bool {
			_, has := b.items[n]
			return n == r || has == vc.Old(func() bool {
				_, had := b.items[n]
				return had
			})
		})
	})
	vc.Ensures("places", func(r *node) bool { return vc_sameLists() })
	vc.Ensures("lists", func(r *node) bool { return vc_lists() })
}

//vc:for (*Body).SetAttributeValue
//vc:props P17
func vc_Body_SetAttributeValue(b *Body, name string, val cty.Value) {
	vc.Requires("body", vc_body(b))
	vc.Requires("lists", vc_lists())
	vc.Requires("writable", hcl.VC_Writable(val))
	vc_setAttribute(b, name)
}

func vc_setAttribute(b *Body, name string) {
	vc_spacing()
	vc_listFrame()
	vc.Modifies(b.items)
	vc.ModifiesField((*Attribute)(nil), "expr")
	vc.Ensures("attribute", func(r *Attribute) bool { return vc_attr(r) && vc_nameIs(r, name) })
	vc.Ensures("item", func(r *Attribute) bool {
		return vc.Some(func(n *node) bool {
			_, has := b.items[n]
			a, is := n.content.(*Attribute)
			return has && is && a == r
		})
	})
	vc.Ensures("expression", func(r *Attribute) bool {
		e, is := r.expr.content.(*Expression)
		return is && e != nil && vc.Fresh(e)
	})
	vc.Ensures("others", func(r *Attribute) bool {
		return vc.All(func(a *Attribute) bool {
			e := a.expr
			return a == nil || a == r || vc.Fresh(a) || vc.Old(func() bool { return a.expr == e })
		})
	})
	vc.Ensures("kept", func(r *Attribute) bool {
		return vc.All(func(n *node) bool {
			_, has := b.items[n]
			return has || !vc.Old(func() bool {
				_, had := b.items[n]
				return had
			})
		})
	})
	vc.Ensures("lists", func(r *Attribute) bool { return vc_lists() })
}

//vc:for (*Body).Clear
//vc:props P17
func vc_Body_Clear(b *Body) {
	vc.Requires("body", b != nil && b.children != nil)
	vc.Requires("lists", vc_lists())
	vc.Modifies(b)
	vc.Modifies(b.children)
	vc.Ensures("empty", func() bool {
		return b.children.first == nil && b.children.last == nil && vc.All(func(n *node) bool {
			_, has := b.items[n]
			return !has
		})
	})
	vc.Ensures("lists", func() bool { return vc_lists() })
}

//vc:for nodeContent.BuildTokens
//vc:props P17
func vc_BuildTokens(c nodeContent, to Tokens) {
	vc.Requires("tokens", vc_toks(to))
	vc.Assume("a syntax tree has no missing parts", vc_content(c))
	vc.Modifies(to[len(to):cap(to)])
	vc.Ensures("extends", func(r Tokens) bool { return vc_extends(r, to) })
	given := to
	vc.Invariant("extends", func(to Tokens) bool { return vc_extends(to, given) })
}

func vc_content(c nodeContent) bool {
	switch tc := c.(type) {
	case Tokens:
		return vc_toks(tc)
	case *comments:
		return tc != nil && vc_toks(tc.tokens)
	case *identifier:
		return tc != nil && tc.token != nil
	case *number:
		return tc != nil && tc.token != nil
	case *quoted:
		return tc != nil && vc_toks(tc.tokens)
	case *inTree:
		return tc != nil && tc.children != nil
	case *File:
		return tc != nil && tc.children != nil
	case *Attribute:
		return tc != nil && tc.children != nil
	case *Block:
		return tc != nil && tc.children != nil
	case *Body:
		return tc != nil && tc.children != nil
	case *Expression:
		return tc != nil && tc.children != nil
	case *Traversal:
		return tc != nil && tc.children != nil
	case *TraverseName:
		return tc != nil && tc.children != nil
	case *TraverseIndex:
		return tc != nil && tc.children != nil
	}
	return true
}

//vc:for (*inTree).BuildTokens
//vc:props P17
func vc_inTree_BuildTokens(it *inTree, to Tokens) {
	vc.Requires("tree", it != nil && it.children != nil)
	vc_buildTokens(to)
}

//vc:for (*nodes).BuildTokens
//vc:props P17
func vc_nodes_BuildTokens(ns *nodes, to Tokens) {
	vc.Requires("list", ns != nil)
	vc_buildTokens(to)
}

//vc:for (*node).BuildTokens
//vc:props P17
func vc_node_BuildTokens(n *node, to Tokens) {
	vc.Requires("node", n != nil)
	vc.Assume("a node has content", n.content != nil)
	vc_buildTokens(to)
}

//vc:for Tokens.BuildTokens
//vc:props P17
func vc_Tokens_BuildTokens(ts, to Tokens) {
	vc.Requires("own-tokens", vc_toks(ts))
	vc_buildTokens(to)
	vc.Ensures("copied", func(r Tokens) bool {
		return len(r) == len(to)+len(ts) && vc.Forall(len(to), len(r), func(i int) bool {
			t := r[i]
			return vc.Old(func() bool { return ts[i-len(to)] == t })
		})
	})
}

func vc_buildTokens(to Tokens) {
	vc.Requires("tokens", vc_toks(to))
	vc.Modifies(to[len(to):cap(to)])
	vc.Ensures("extends", func(r Tokens) bool { return vc_extends(r, to) })
	given := to
	vc.Invariant("extends", func(to Tokens) bool { return vc_extends(to, given) })
}

//vc:for NewExpressionAbsTraversal
//vc:props P17
func vc_NewExpressionAbsTraversal(traversal hcl.Traversal) {
	vc.Requires("steps", vc_steps(traversal))
	vc.Requires("absolute", len(traversal) > 0 && vc_isRoot(traversal[0]))
	vc.Requires("lists", vc_lists())
	vc_spacing()
	vc_listFrame()
	vc.Ensures("expression", func(r *Expression) bool {
		return r != nil && vc.Fresh(r) && r.parent == nil && r.children != nil && vc.Fresh(r.children) && r.children.first != nil
	})
	vc.Ensures("places", func(r *Expression) bool { return vc_sameLists() })
	vc.Ensures("lists", func(r *Expression) bool { return vc_lists() })
	vc.Invariant("traversal", func(physT *Traversal) bool {
		return physT != nil && vc.Fresh(physT) && physT.children != nil && vc.Fresh(physT.children) && physT.steps != nil && vc.Fresh(physT.steps)
	})
	vc.Invariant("places", func(physT *Traversal) bool { return vc_sameLists() })
	vc.Invariant("lists", func(physT *Traversal) bool { return vc_lists() })
}

func vc_isRoot(s hcl.Traverser) bool {
	_, is := s.(hcl.TraverseRoot)
	return is
}

//vc:for (*Body).SetAttributeTraversal
//vc:props P17
func vc_Body_SetAttributeTraversal(b *Body, name string, traversal hcl.Traversal) {
	vc.Requires("body", vc_body(b))
	vc.Requires("lists", vc_lists())
	vc.Requires("steps", vc_steps(traversal))
	vc.Requires("absolute", len(traversal) > 0 && vc_isRoot(traversal[0]))
	vc_setAttribute(b, name)
}

//vc:for (*Block).init
//vc:props P17
func vc_Block_init(b *Block, typeName string, labels []string) {
	vc.Requires("block", b != nil && b.children != nil && b.labels != nil)
	vc.Requires("lists", vc_lists())
	vc.Modifies(b)
	vc.Modifies(b.labels)
	vc_spacing()
	vc_listFrame()
	vc.Ensures("block", func() bool { return vc_block(b) && b.body.list == b.children })
	vc.Ensures("lists", func() bool { return vc_lists() })
	vc.Invariant("lists", func() bool { return vc_lists() })
	vc.Invariant("fields", func() bool {
		c, l := b.children, b.labels
		return vc.Old(func() bool { return vc.Same(b.children, c) && vc.Same(b.labels, l) })
	})
}

func vc_block(b *Block) bool {
	body, is := b.body.content.(*Body)
	return b.body != nil && is && body != nil && body.children != nil && body.items != nil
}

//vc:for (*Block).Body
//vc:props P17
func vc_Block_Body(b *Block) {
	vc.Requires("block", b != nil && b.body != nil && vc_block(b))
	vc.Ensures("body", func(r *Body) bool { return r != nil && r == b.body.content.(*Body) })
}

//vc:for (*Body).AppendBlock
//vc:props P17
func vc_Body_AppendBlock(b *Body, block *Block) {
	vc.Requires("body", b != nil && b.children != nil && b.items != nil)
	vc.Requires("lists", vc_lists())
	vc_listFrame()
	vc.Modifies(b.items)
	vc.Ensures("last", func(r *Block) bool {
		last, is := b.children.last.content.(*Block)
		_, has := b.items[b.children.last]
		return r == block && is && last == block && has
	})
	vc.Ensures("lists", func(r *Block) bool { return vc_lists() })
}

//vc:for (*Body).AppendNewBlock
//vc:props P17
func vc_Body_AppendNewBlock(b *Body, typeName string, labels []string) {
	vc.Requires("body", b != nil && b.children != nil && b.items != nil)
	vc.Requires("lists", vc_lists())
	vc_spacing()
	vc_listFrame()
	vc.Modifies(b.items)
	vc.Ensures("last", func(r *Block) bool {
		last, is := b.children.last.content.(*Block)
		_, has := b.items[b.children.last]
		return r != nil && vc_block(r) && is && last == r && has
	})
	vc.Ensures("lists", func(r *Block) bool { return vc_lists() })
}

//vc:for (*Body).AppendNewline
//vc:props P17
func vc_Body_AppendNewline(b *Body) {
	vc.Requires("body", b != nil && b.children != nil)
	vc.Requires("lists", vc_lists())
	vc_listFrame()
	vc.Ensures("last", func() bool {
		toks, is := b.children.last.content.(Tokens)
		return is && len(toks) == 1 && toks[0].Type == hclsyntax.TokenNewline
	})
	vc.Ensures("lists", func() bool { return vc_lists() })
}
