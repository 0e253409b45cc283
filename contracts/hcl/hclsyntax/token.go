package hclsyntax

import (
	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_lineCol is the line and column reached from p by walking over the
// characters of b (the byte offset is left alone); it is defined by
// vc_lineColDef, unfolded once per vc_unfold term.
//
//vc:spec
func vc_lineCol(p hcl.Pos, b []byte) hcl.Pos { return p }

//vc:spec
func vc_unfold(p hcl.Pos, b []byte) bool { return true }

func vc_isNewline(g []byte) bool {
	return len(g) == 1 && g[0] == '\n' || len(g) == 2 && g[0] == '\r' && g[1] == '\n'
}

func vc_step(p hcl.Pos, g []byte) hcl.Pos {
	if vc_isNewline(g) {
		p.Line++
		p.Column = 1
	} else {
		p.Column++
	}
	return p
}

//vc:axiom
func vc_lineColDef() bool {
	return vc.AllPat(func(p hcl.Pos, b []byte) bool { return vc_unfold(p, b) }, func(p hcl.Pos, b []byte) bool {
		if !vc_unfold(p, b) {
			return false
		}
		if len(b) <= 0 {
			return vc_lineCol(p, b) == p
		}
		n, _, _ := textseg.ScanGraphemeClusters(b, true)
		return vc_lineCol(p, b) == vc_lineCol(vc_step(p, b[:n]), b[n:])
	})
}

func vc_sameToken(a, b Token) bool {
	return a.Type == b.Type && vc.Same(a.Bytes, b.Bytes) && a.Range == b.Range
}

//vc:for (*tokenAccum).emitToken
//vc:props P04
func vc_emitToken(f *tokenAccum, ty TokenType, startOfs, endOfs int) {
	vc.Requires("span", f != nil && 0 <= startOfs && startOfs <= endOfs && endOfs <= len(f.Bytes))
	vc.ModifiesAll((*Token)(nil))
	vc.Modifies(f)
	pos, data, n := f.Pos, f.Bytes, len(f.Tokens)
	start := pos
	start.Column += startOfs + f.StartByte - pos.Byte
	start.Byte = startOfs + f.StartByte
	after := start
	after.Byte = endOfs + f.StartByte
	vc.Invariant("position", func(end hcl.Pos, b []byte) bool {
		return vc_unfold(end, b) && vc_lineCol(end, b) == vc_lineCol(after, data[startOfs:endOfs])
	})
	vc.Invariant("offset", func(end hcl.Pos, b []byte) bool { return end.Byte == after.Byte })
	vc.Ensures("one-more", func() bool { return len(f.Tokens) == n+1 })
	vc.Ensures("token", func() bool {
		t := f.Tokens[n]
		return t.Type == ty && len(t.Bytes) == endOfs-startOfs && (len(t.Bytes) == 0 || &t.Bytes[0] == &data[startOfs])
	})
	vc.Ensures("start", func() bool { return f.Tokens[n].Range.Start == start && f.Tokens[n].Range.Filename == f.Filename })
	vc.Ensures("end", func() bool {
		e := f.Tokens[n].Range.End
		return e.Byte == after.Byte && e == vc_lineCol(after, data[startOfs:endOfs]) && f.Pos == e
	})
	vc.Ensures("earlier", func() bool {
		return vc.Forall(0, n, func(i int) bool {
			t := f.Tokens[i]
			return vc.Old(func() bool { return vc_sameToken(t, f.Tokens[i]) })
		})
	})
	vc.Ensures("buffer", func() bool {
		return vc.Same(f.Bytes, data) && f.StartByte == vc.OldInt(func() int { return f.StartByte }) && f.Filename == vc.OldStr(func() string { return f.Filename })
	})
}

func vc_badToken(ty TokenType) bool {
	return ty == TokenInvalid || ty == TokenBadUTF8 || ty == TokenTabs || ty == TokenSemicolon || ty == TokenApostrophe || ty == TokenBacktick || ty == TokenStarStar ||
		ty == TokenBitwiseAnd || ty == TokenBitwiseOr || ty == TokenBitwiseXor || ty == TokenBitwiseNot || ty == TokenQuotedNewline
}

func vc_anyBad(tokens Tokens, n int) bool {
	return vc.Exists(0, n, func(i int) bool { return vc_badToken(tokens[i].Type) })
}

//vc:for checkInvalidTokens
//vc:props P04
func vc_checkInvalidTokens(tokens Tokens) {
	vc.Invariant("entries", func(diags hcl.Diagnostics) bool {
		return vc.Forall(0, len(diags), func(i int) bool { return diags[i] != nil && diags[i].Severity == hcl.DiagError })
	})
	vc.Invariant("told", func(diags hcl.Diagnostics, toldBitwise, toldExponent, toldBacktick, toldApostrophe, toldSemicolon, toldTabs, toldBadUTF8 int) bool {
		return vc.Implies(toldBitwise > 0 || toldExponent > 0 || toldBacktick > 0 || toldApostrophe > 0 || toldSemicolon > 0 || toldTabs > 0 || toldBadUTF8 > 0, len(diags) > 0)
	})
	vc.Invariant("reported", func(diags hcl.Diagnostics, iter int) bool { return vc.Iff(vc_anyBad(tokens, iter), len(diags) > 0) })
	vc.Ensures("error-iff-bad", func(d hcl.Diagnostics) bool {
		return vc.Iff(vc_anyBad(tokens, len(tokens)), len(d) > 0) && vc.Forall(0, len(d), func(i int) bool { return d[i] != nil && d[i].Severity == hcl.DiagError })
	})
}

// Assumed, as documented: reports whether the slice begins with the prefix.
//
//vc:for bytes.HasPrefix
//vc:trusted
//vc:pure
func vc_HasPrefix(s, prefix []byte) {
	vc.Ensures("prefix", func(r bool) bool {
		return r == (len(s) >= len(prefix) && vc.Forall(0, len(prefix), func(i int) bool { return s[i] == prefix[i] }))
	})
}

//vc:for stripUTF8BOM
//vc:props P04
func vc_stripUTF8BOM(src []byte) {
	vc.Requires("bom", len(utf8BOM) == 3)
	vc.Ensures("suffix", func(r []byte) bool {
		return len(r) == len(src) && vc.Same(r, src) || len(r) == len(src)-3 && (len(r) == 0 || &r[0] == &src[3])
	})
}

// The generated scanner is not verified: what it emits is examined by the
// bounded check. Callers only learn that it leaves its input alone and that
// the end-of-file token comes last.
//
//vc:for scanTokens
//vc:trusted
func vc_scanTokens(data []byte, filename string, start hcl.Pos, mode scanMode) {
	vc.Ensures("fresh", func(r []Token) bool { return r == nil || vc.Fresh(r) })
	vc.Ensures("eof", func(r []Token) bool { return len(r) > 0 && r[len(r)-1].Type == TokenEOF })
}

func vc_lexed(tokens Tokens, d hcl.Diagnostics) bool {
	return vc.Iff(vc_anyBad(tokens, len(tokens)), len(d) > 0) && vc.Forall(0, len(d), func(i int) bool { return d[i] != nil && d[i].Severity == hcl.DiagError })
}

//vc:for LexConfig
//vc:props P04
func vc_LexConfig(src []byte, filename string, start hcl.Pos) {
	vc.Ensures("error-iff-bad", func(tokens Tokens, d hcl.Diagnostics) bool { return vc_lexed(tokens, d) })
	vc.Ensures("own", func(tokens Tokens, d hcl.Diagnostics) bool { return vc.Fresh(tokens) })
	vc.Ensures("eof", func(tokens Tokens, d hcl.Diagnostics) bool { return len(tokens) > 0 && tokens[len(tokens)-1].Type == TokenEOF })
}

//vc:for LexExpression
//vc:props P04
func vc_LexExpression(src []byte, filename string, start hcl.Pos) {
	vc.Ensures("error-iff-bad", func(tokens Tokens, d hcl.Diagnostics) bool { return vc_lexed(tokens, d) })
	vc.Ensures("own", func(tokens Tokens, d hcl.Diagnostics) bool { return vc.Fresh(tokens) })
	vc.Ensures("eof", func(tokens Tokens, d hcl.Diagnostics) bool { return len(tokens) > 0 && tokens[len(tokens)-1].Type == TokenEOF })
}

//vc:for LexTemplate
//vc:props P04
func vc_LexTemplate(src []byte, filename string, start hcl.Pos) {
	vc.Ensures("error-iff-bad", func(tokens Tokens, d hcl.Diagnostics) bool { return vc_lexed(tokens, d) })
	vc.Ensures("own", func(tokens Tokens, d hcl.Diagnostics) bool { return vc.Fresh(tokens) })
	vc.Ensures("eof", func(tokens Tokens, d hcl.Diagnostics) bool { return len(tokens) > 0 && tokens[len(tokens)-1].Type == TokenEOF })
}
