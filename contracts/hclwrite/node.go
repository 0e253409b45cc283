package hclwrite

// The syntax tree of a file being edited: lists of nodes (P17).

import (
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_links: neighbours in a list point at each other and are in the same list.
func vc_links() bool {
	return vc.All(func(n *node) bool {
		return n == nil || n.list == nil ||
			(n.before == nil || n.before.after == n && n.before.list == n.list) &&
				(n.after == nil || n.after.before == n && n.after.list == n.list)
	})
}

// vc_ends: the ends of a list are in it, and nothing is beyond them.
func vc_ends() bool {
	return vc.All(func(l *nodes) bool {
		return l == nil || (l.first == nil && l.last == nil) ||
			l.first != nil && l.last != nil &&
				l.first.list == l && l.first.before == nil && l.last.list == l && l.last.after == nil &&
				(l.first.after != nil || l.first == l.last) && (l.last.before != nil || l.first == l.last)
	})
}

// vc_loose: a node outside any list has no neighbours.
func vc_loose() bool {
	return vc.All(func(n *node) bool { return n == nil || n.list != nil || n.before == nil && n.after == nil })
}

func vc_lists() bool { return vc_links() && vc_ends() && vc_loose() }

// vc_listFrame: only links change; the content of a node never does.
func vc_listFrame() {
	vc.ModifiesField((*node)(nil), "list")
	vc.ModifiesField((*node)(nil), "before")
	vc.ModifiesField((*node)(nil), "after")
	vc.ModifiesAll((*nodes)(nil))
}

// vc_kept: the node is where it was at entry.
func vc_kept(m *node) bool {
	list, before, after := m.list, m.before, m.after
	return vc.Old(func() bool { return m.list == list && m.before == before && m.after == after })
}

// vc_keptList: the list has the ends it had at entry.
func vc_keptList(l *nodes) bool {
	first, last := l.first, l.last
	return vc.Old(func() bool { return l.first == first && l.last == last })
}

func vc_otherLists(except *nodes) bool {
	return vc.All(func(l *nodes) bool { return l == nil || l == except || vc.Fresh(l) || vc_keptList(l) })
}

// vc_others: every node but the given ones is where it was.
func vc_others(a, b, c *node) bool {
	return vc.All(func(m *node) bool { return m == nil || m == a || m == b || m == c || vc.Fresh(m) || vc_kept(m) })
}

// vc_appended: n is now the last node of l, after what was last before.
func vc_appended(l *nodes, n *node) bool {
	before, first := n.before, l.first
	return n.list == l && n.after == nil && l.last == n &&
		vc.Old(func() bool { return l.last == before && (l.first == first || l.first == nil && first == n) }) &&
		(before == nil || before.after == n) && (before != nil || l.first == n) &&
		vc_otherLists(l) && vc_others(n, before, nil) &&
		(before == nil || vc_samePlace(before))
}

// vc_samePlace: same list and same predecessor.
func vc_samePlace(m *node) bool {
	list, before := m.list, m.before
	return vc.Old(func() bool { return m.list == list && m.before == before })
}

//vc:for newNode
//vc:inline
func vc_newNode(c nodeContent) {}

// vc_live: the node has no neighbour only where it is at an end of its list,
// as is the case unless the list was cleared.
func vc_live(n *node) bool {
	return n == nil || (n.before != nil || n.list.first == n) && (n.after != nil || n.list.last == n)
}

//vc:for (*node).Detach
//vc:props P17
func vc_node_Detach(n *node) {
	vc.Requires("lists", n != nil && vc_lists())
	vc.Requires("live", n.list == nil || vc_live(n) && vc_live(n.before) && vc_live(n.after))
	vc_listFrame()
	vc.Ensures("detached", func() bool { return n.list == nil && n.before == nil && n.after == nil })
	vc.Ensures("lists", func() bool { return vc_lists() })
	vc.Ensures("neighbours", func() bool {
		return vc.All(func(m *node) bool {
			list, before, after := m.list, m.before, m.after
			return m == nil || m == n || vc.Old(func() bool {
				return m.list == list && (m.before == before || m.before == n && n.before == before) &&
					(m.after == after || m.after == n && n.after == after)
			})
		})
	})
}

//vc:for (*node).ReplaceWith
//vc:props P17
func vc_node_ReplaceWith(n *node, c nodeContent) {
	vc.Requires("lists", n != nil && n.list != nil && vc_lists())
	vc_listFrame()
	vc.Ensures("detached", func(r *node) bool { return n.list == nil && n.before == nil && n.after == nil })
	vc.Ensures("replaced", func(r *node) bool {
		list, before, after := r.list, r.before, r.after
		return r != nil && vc.Fresh(r) && r.content == c &&
			vc.Old(func() bool { return n.list == list && n.before == before && n.after == after })
	})
	vc.Ensures("neighbours", func(r *node) bool {
		return (r.before == nil || r.before.after == r) && (r.after == nil || r.after.before == r)
	})
	vc.Ensures("ends", func(r *node) bool {
		list := r.list
		return (list.first == r) == vc.Old(func() bool { return list.first == n }) && (list.last == r) == vc.Old(func() bool { return list.last == n })
	})
	vc.Ensures("others", func(r *node) bool {
		return vc.All(func(m *node) bool { return m == nil || m == n || m == r.before || m == r.after || vc.Fresh(m) || vc_kept(m) })
	})
	vc.Ensures("lists", func(r *node) bool { return vc_lists() })
}

//vc:for (*nodes).AppendNode
//vc:props P17
func vc_nodes_AppendNode(ns *nodes, n *node) {
	vc.Requires("lists", ns != nil && n != nil && n.list == nil && vc_lists())
	vc_listFrame()
	vc.Ensures("last", func() bool { return vc_appended(ns, n) })
	vc.Ensures("lists", func() bool { return vc_lists() })
}

//vc:for (*nodes).Append
//vc:props P17
func vc_nodes_Append(ns *nodes, c nodeContent) {
	vc.Requires("lists", ns != nil && vc_lists())
	vc_listFrame()
	vc.Ensures("node", func(r *node) bool { return r != nil && vc.Fresh(r) && r.content == c })
	vc.Ensures("last", func(r *node) bool { return vc_appended(ns, r) })
	vc.Ensures("lists", func(r *node) bool { return vc_lists() })
	vc.Ensures("places", func(r *node) bool { return vc_sameLists() })
}

//vc:for (*nodes).Prepend
//vc:props P17
func vc_nodes_Prepend(ns *nodes, c nodeContent) {
	vc.Requires("lists", ns != nil && vc_lists())
	vc_listFrame()
	vc.Ensures("node", func(r *node) bool {
		return r != nil && vc.Fresh(r) && r.content == c && r.list == ns && r.before == nil && ns.first == r
	})
	vc.Ensures("after", func(r *node) bool {
		after, last := r.after, ns.last
		return vc.Old(func() bool { return ns.first == after && (ns.last == last || ns.last == nil && last == r) }) &&
			(after == nil || after.before == r) && vc_otherLists(ns) && vc_others(r, after, nil)
	})
	vc.Ensures("lists", func(r *node) bool { return vc_lists() })
}

//vc:for (*nodes).AppendUnstructuredTokens
//vc:props P17
func vc_nodes_AppendUnstructuredTokens(ns *nodes, tokens Tokens) {
	vc.Requires("lists", ns != nil && vc_lists())
	vc_listFrame()
	vc.Ensures("none", func(r *node) bool { return (r == nil) == (len(tokens) == 0) && (r != nil || vc_others(nil, nil, nil) && vc_otherLists(nil)) })
	vc.Ensures("node", func(r *node) bool { return r == nil || vc.Fresh(r) && vc.Same(r.content.(Tokens), tokens) })
	vc.Ensures("last", func(r *node) bool { return r == nil || vc_appended(ns, r) })
	vc.Ensures("lists", func(r *node) bool { return vc_lists() })
	vc.Ensures("places", func(r *node) bool { return vc_sameLists() })
}

//vc:for (*nodes).Clear
//vc:props P17
func vc_nodes_Clear(ns *nodes) {
	vc.Requires("lists", ns != nil && vc_lists())
	vc.Modifies(ns)
	vc.Ensures("empty", func() bool { return ns.first == nil && ns.last == nil })
	vc.Ensures("lists", func() bool { return vc_lists() })
}

//vc:for newInTree
//vc:props P17
func vc_newInTree() {
	vc.Requires("lists", vc_lists())
	vc.Ensures("empty", func(r inTree) bool {
		return r.parent == nil && r.children != nil && vc.Fresh(r.children) && r.children.first == nil && r.children.last == nil
	})
	vc.Ensures("lists", func(r inTree) bool { return vc_lists() })
}

//vc:for nodeSet.Has
//vc:props P17
func vc_nodeSet_Has(ns nodeSet, n *node) {
	vc.Ensures("has", func(r bool) bool {
		_, ok := ns[n]
		return r == ok
	})
}
