package hclwrite

// Formatting (P15).

import (
	"io"

	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_toks: a token list without missing tokens.
func vc_toks(ts Tokens) bool {
	return vc.Forall(0, len(ts), func(i int) bool { return ts[i] != nil })
}

// vc_line: the cells of a line hold tokens, and a cell that is present is not
// empty.
func vc_line(l formatLine) bool {
	return vc_toks(l.lead) && vc_toks(l.assign) && vc_toks(l.comment) &&
		vc.Implies(l.assign != nil, len(l.assign) > 0) && vc.Implies(l.comment != nil, len(l.comment) > 0)
}

func vc_lines(ls []formatLine) bool {
	return vc.Forall(0, len(ls), func(i int) bool { return vc_line(ls[i]) })
}

// vc_spacing: the only thing formatting may change is the spacing.
func vc_spacing() {
	vc.ModifiesField((*Token)(nil), "SpacesBefore")
}

//vc:for format
//vc:props P15
func vc_format(tokens Tokens) {
	vc.Requires("tokens", vc_toks(tokens))
	vc_spacing()
}

func vc_isNewline(tok *Token) bool {
	return tok.Type == hclsyntax.TokenNewline ||
		tok.Type == hclsyntax.TokenComment && len(tok.Bytes) > 0 && tok.Bytes[len(tok.Bytes)-1] == '\n'
}

// vc_newlines is the number of line-ending tokens among the first n.
//
//vc:spec entry
func vc_newlines(ts Tokens, n int) int { return 0 }

//vc:axiom
func vc_newlinesDef() bool {
	return vc.All(func(ts Tokens, n int) bool {
		if n <= 0 {
			return vc_newlines(ts, n) == 0
		}
		if vc_isNewline(ts[n-1]) {
			return vc_newlines(ts, n) == vc_newlines(ts, n-1)+1
		}
		return vc_newlines(ts, n) == vc_newlines(ts, n-1)
	})
}

//vc:for linesForFormat
//vc:props P15
func vc_linesForFormat(tokens Tokens) {
	vc.Requires("tokens", vc_toks(tokens))
	vc.Ensures("lines", func(ls []formatLine) bool { return vc_lines(ls) && vc.Fresh(ls) })
	vc.Invariant("fresh", func(lines []formatLine) bool { return vc.Fresh(lines) })
	vc.Invariant("count", func(lineCount int, iter int) bool {
		return lineCount == vc_newlines(tokens, iter)+1 && vc.Forall(0, iter+1, func(j int) bool { return 0 <= vc_newlines(tokens, j) && vc_newlines(tokens, j) < lineCount })
	})
	vc.Invariant("line", func(li, lineStart int, iter int) bool {
		return li == vc_newlines(tokens, iter) && 0 <= lineStart && lineStart <= iter
	})
	vc.Invariant("lines", func(lines []formatLine) bool { return vc_lines(lines) })
}

//vc:for formatIndent
//vc:props P15
func vc_formatIndent(lines []formatLine) {
	vc.Requires("lines", vc_lines(lines))
	vc_spacing()
}

//vc:for formatSpaces
//vc:props P15
func vc_formatSpaces(lines []formatLine) {
	vc.Requires("lines", vc_lines(lines))
	vc_spacing()
}

//vc:for formatCells
//vc:props P15
func vc_formatCells(lines []formatLine) {
	vc.Requires("lines", vc_lines(lines))
	vc_spacing()
	vc.Invariant("assign-chain", func(chainStart int, iter int) bool {
		return -1 <= chainStart && chainStart <= iter && vc.Implies(chainStart >= 0, vc.Forall(chainStart, iter, func(i int) bool { return lines[i].assign != nil }))
	})
	vc.Invariant("comment-chain", func(chainStart int, iter int) bool {
		return -1 <= chainStart && chainStart <= iter && vc.Implies(chainStart >= 0, vc.Forall(chainStart, iter, func(i int) bool { return lines[i].comment != nil }))
	})
}

//vc:for spaceAfterToken
//vc:props P15
func vc_spaceAfterToken(subject, before, after *Token) {
	vc.Requires("tokens", subject != nil && before != nil && after != nil)
	vc.Ensures("newline", func(r bool) bool {
		return vc.Implies(after.Type == hclsyntax.TokenNewline || after.Type == hclsyntax.TokenNil, !r)
	})
	vc.Ensures("template-parts", func(r bool) bool {
		in := after.Type == hclsyntax.TokenQuotedLit || after.Type == hclsyntax.TokenStringLit || after.Type == hclsyntax.TokenCQuote || after.Type == hclsyntax.TokenCHeredoc
		out := subject.Type == hclsyntax.TokenQuotedLit || subject.Type == hclsyntax.TokenStringLit || subject.Type == hclsyntax.TokenOQuote || subject.Type == hclsyntax.TokenOHeredoc
		between := subject.Type == hclsyntax.TokenTemplateSeqEnd && (after.Type == hclsyntax.TokenTemplateInterp || after.Type == hclsyntax.TokenTemplateControl)
		return vc.Implies((in || out || between) && subject.Type != hclsyntax.TokenComma && !(subject.Type == hclsyntax.TokenIdent && between), !r)
	})
}

//vc:for tokenIsNewline
//vc:props P15
func vc_tokenIsNewline(tok *Token) {
	vc.Requires("token", tok != nil)
	vc.Ensures("newline", func(r bool) bool { return r == vc_isNewline(tok) })
}

//vc:for tokenBracketChange
//vc:props P15
func vc_tokenBracketChange(tok *Token) {
	vc.Requires("token", tok != nil)
	vc.Ensures("step", func(r int) bool { return -1 <= r && r <= 1 })
}

//vc:for Tokens.Columns
//vc:props P15
func vc_Columns(ts Tokens) {
	vc.Requires("tokens", vc_toks(ts))
}

//vc:for Tokens.WriteTo
//vc:props P15,P16
func vc_WriteTo(ts Tokens, wr io.Writer) {
	vc.Requires("tokens", vc_toks(ts))
	vc.Requires("writer", wr != nil)
}

//vc:for Format
//vc:props P15
func vc_Format(src []byte) {
	vc_spacing()
}

func vc_sameBytes(a, b []byte) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// vc_copied: the writer tokens are new and have the kinds and bytes of the
// native ones.
func vc_copied(ts Tokens, native hclsyntax.Tokens) bool {
	return len(ts) == len(native) && vc.Forall(0, len(ts), func(i int) bool {
		return ts[i] != nil && vc.Fresh(ts[i]) && ts[i].Type == native[i].Type && vc_sameBytes(ts[i].Bytes, native[i].Bytes)
	})
}

//vc:for writerTokens
//vc:props P15,P16
func vc_writerTokens(nativeTokens hclsyntax.Tokens) {
	vc.Assume("the bytes of given tokens are existing memory", vc.Forall(0, len(nativeTokens), func(i int) bool { return vc.Allocated(nativeTokens[i].Bytes) }))
	vc.Ensures("copied", func(ts Tokens) bool { return vc_copied(ts, nativeTokens) })
	vc.Invariant("buffer", func(tokBuf []Token) bool { return len(tokBuf) == len(nativeTokens) && vc.Fresh(tokBuf) })
	vc.Invariant("types", func(tokBuf []Token, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return tokBuf[i].Type == nativeTokens[i].Type })
	})
	vc.Invariant("owned", func(tokBuf []Token, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return len(tokBuf[i].Bytes) == len(nativeTokens[i].Bytes) && vc.Allocated(tokBuf[i].Bytes) })
	})
	vc.Invariant("bytes", func(tokBuf []Token, iter int) bool {
		return vc.Forall(0, iter, func(i int) bool { return vc_sameBytes(tokBuf[i].Bytes, nativeTokens[i].Bytes) })
	})
	vc.Invariant("pointers", func(ret Tokens, tokBuf []Token, iter int) bool {
		return len(ret) == len(tokBuf) && vc.Fresh(ret) && vc.Forall(0, iter, func(i int) bool { return ret[i] == &tokBuf[i] })
	})
}

//vc:for lexConfig
//vc:props P15
func vc_lexConfig(src []byte) {
	vc.Ensures("tokens", func(ts Tokens) bool { return vc_toks(ts) })
}
