package hclwrite

// Loading a file for editing: tokens are split without loss (P16).

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_paired: the two token lists have the same length.
func vc_paired(it inputTokens) bool {
	return len(it.nativeTokens) == len(it.writerTokens) && vc_toks(it.writerTokens)
}

// vc_part: part is the tokens from lo to hi of it, with no room to grow into
// what follows.
func vc_part(part, it inputTokens, lo, hi int) bool {
	return 0 <= lo && lo <= hi && hi <= len(it.nativeTokens) &&
		vc.Same(part.nativeTokens, it.nativeTokens[lo:hi:hi]) && vc.Same(part.writerTokens, it.writerTokens[lo:hi:hi])
}

// vc_before: the tokens before index n are exactly those that start before b,
// up to the first one that does not.
func vc_before(toks hclsyntax.Tokens, from, n, b int) bool {
	return vc.Forall(from, n, func(i int) bool { return toks[i].Range.Start.Byte < b }) &&
		vc.Implies(n < len(toks), toks[n].Range.Start.Byte >= b)
}

//vc:for partitionTokens
//vc:props P16
func vc_partitionTokens(toks hclsyntax.Tokens, rng hcl.Range) {
	vc.Ensures("order", func(start, end int) bool { return 0 <= start && start <= end && end <= len(toks) })
	vc.Ensures("start", func(start, end int) bool { return vc_before(toks, 0, start, rng.Start.Byte) })
	vc.Ensures("end", func(start, end int) bool { return vc_before(toks, start, end, rng.End.Byte) })
	vc.Invariant("start", func(i int) bool {
		return 0 <= i && vc.Forall(0, i, func(j int) bool { return j >= len(toks) || toks[j].Range.Start.Byte < rng.Start.Byte })
	})
	vc.Invariant("end", func(i, start int) bool {
		return start <= i && i <= len(toks) && vc.Forall(start, i, func(j int) bool { return toks[j].Range.Start.Byte < rng.End.Byte })
	})
}

//vc:for partitionLeadCommentTokens
//vc:props P16
func vc_partitionLeadCommentTokens(toks hclsyntax.Tokens) {
	vc.Ensures("index", func(r int) bool { return 0 <= r && r <= len(toks) })
	vc.Ensures("comments", func(r int) bool {
		return vc.Forall(r, len(toks), func(i int) bool { return toks[i].Type == hclsyntax.TokenComment }) &&
			vc.Implies(r > 0, toks[r-1].Type != hclsyntax.TokenComment)
	})
	vc.Invariant("comments", func(i int) bool {
		return -1 <= i && i < len(toks) && vc.Forall(i+1, len(toks), func(j int) bool { return toks[j].Type == hclsyntax.TokenComment })
	})
}

// vc_lineEnd: only comments up to a newline or the end of the file.
func vc_lineEnd(toks hclsyntax.Tokens) bool {
	return vc.Forall(0, len(toks), func(i int) bool {
		return vc.Implies(vc.Forall(0, i, func(j int) bool { return toks[j].Type == hclsyntax.TokenComment && !vc_endsLine(toks[j].Bytes) }),
			toks[i].Type == hclsyntax.TokenComment || toks[i].Type == hclsyntax.TokenNewline || toks[i].Type == hclsyntax.TokenEOF)
	})
}

func vc_endsLine(b []byte) bool { return len(b) > 0 && b[len(b)-1] == '\n' }

//vc:for partitionLineEndTokens
//vc:props P16
func vc_partitionLineEndTokens(toks hclsyntax.Tokens) {
	vc.Requires("trailer", vc_lineEnd(toks))
	vc.Ensures("order", func(c, n int) bool { return 0 <= c && c <= n && n <= len(toks) && n <= c+1 })
	vc.Ensures("comments", func(c, n int) bool {
		return vc.Forall(0, c, func(i int) bool { return toks[i].Type == hclsyntax.TokenComment }) && vc.Implies(n > c, toks[c].Type == hclsyntax.TokenNewline)
	})
	vc.Invariant("comments", func(i int) bool {
		return 0 <= i && i <= len(toks) && vc.Forall(0, i, func(j int) bool { return toks[j].Type == hclsyntax.TokenComment && !vc_endsLine(toks[j].Bytes) })
	})
}

//vc:for inputTokens.Slice
//vc:props P16
func vc_Slice(it inputTokens, start, end int) {
	vc.Requires("paired", vc_paired(it))
	vc.Requires("bounds", 0 <= start && start <= end && end <= len(it.nativeTokens))
	vc.Ensures("part", func(r inputTokens) bool { return vc_part(r, it, start, end) && vc_paired(r) })
}

// vc_split: the three parts are consecutive and make up the whole.
func vc_split(it, before, within, after inputTokens) bool {
	n, m := len(before.nativeTokens), len(before.nativeTokens)+len(within.nativeTokens)
	return vc_part(before, it, 0, n) && vc_part(within, it, n, m) && vc_part(after, it, m, len(it.nativeTokens)) &&
		vc_paired(before) && vc_paired(within) && vc_paired(after)
}

//vc:for inputTokens.Partition
//vc:props P16
func vc_Partition(it inputTokens, rng hcl.Range) {
	vc.Requires("paired", vc_paired(it))
	vc.Ensures("whole", func(b, w, a inputTokens) bool { return vc_split(it, b, w, a) })
}

// vc_hasType: some token is of the type.
func vc_hasType(ts Tokens, ty hclsyntax.TokenType) bool {
	return vc.Exists(0, len(ts), func(i int) bool { return ts[i].Type == ty })
}

//vc:for inputTokens.PartitionType
//vc:props P16
func vc_PartitionType(it inputTokens, ty hclsyntax.TokenType) {
	vc.Requires("paired", vc_paired(it))
	vc.Requires("present", vc_hasType(it.writerTokens, ty))
	vc.Ensures("whole", func(b, w, a inputTokens) bool { return vc_split(it, b, w, a) })
	vc.Ensures("single", func(b, w, a inputTokens) bool { return len(w.writerTokens) == 1 && w.writerTokens[0].Type == ty })
	vc.Ensures("first", func(b, w, a inputTokens) bool {
		return vc.Forall(0, len(b.writerTokens), func(i int) bool { return it.writerTokens[i].Type != ty })
	})
	vc.Invariant("absent", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return it.writerTokens[i].Type != ty })
	})
}

//vc:for inputTokens.PartitionTypeSingle
//vc:props P16
func vc_PartitionTypeSingle(it inputTokens, ty hclsyntax.TokenType) {
	vc.Requires("paired", vc_paired(it))
	vc.Requires("present", vc_hasType(it.writerTokens, ty))
	vc.Ensures("found", func(b inputTokens, tok *Token, a inputTokens) bool {
		n := len(b.nativeTokens)
		return tok != nil && tok.Type == ty && vc_part(b, it, 0, n) && n < len(it.nativeTokens) && tok == it.writerTokens[n] && vc_part(a, it, n+1, len(it.nativeTokens))
	})
}

//vc:for inputTokens.hasType
//vc:props P16
func vc_inputHasType(it inputTokens, ty hclsyntax.TokenType) {
	vc.Requires("tokens", vc_toks(it.writerTokens))
	vc.Ensures("present", func(r bool) bool { return r == vc_hasType(it.writerTokens, ty) })
	vc.Invariant("absent", func(iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return it.writerTokens[i].Type != ty })
	})
}

//vc:for inputTokens.PartitionLeadComments
//vc:props P16
func vc_PartitionLeadComments(it inputTokens) {
	vc.Requires("paired", vc_paired(it))
	vc.Ensures("whole", func(b, w inputTokens) bool {
		n := len(b.nativeTokens)
		return vc_part(b, it, 0, n) && vc_part(w, it, n, len(it.nativeTokens)) && vc_paired(b) && vc_paired(w)
	})
}

//vc:for inputTokens.PartitionLineEndTokens
//vc:props P16
func vc_PartitionLineEndTokens(it inputTokens) {
	vc.Requires("paired", vc_paired(it))
	vc.Requires("trailer", vc_lineEnd(it.nativeTokens))
	vc.Ensures("whole", func(c, n, a inputTokens) bool { return vc_split(it, c, n, a) })
}
