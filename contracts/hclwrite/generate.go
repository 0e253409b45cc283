package hclwrite

// Source code generated for values and traversals (P18).

import (
	"math/big"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

// vc_extends: r is from with further tokens after it, all of them new.
func vc_extends(r, from Tokens) bool {
	return len(r) >= len(from) && vc_toks(r) && (vc.Fresh(r) || vc.Same(r[:len(from)], from)) &&
		vc.Forall(0, len(from), func(i int) bool { return r[i] == from[i] && vc_keptToken(from, i) })
}

// vc_keptToken: the token at index i is the one that was there at entry.
func vc_keptToken(ts Tokens, i int) bool {
	t := ts[i]
	return vc.Old(func() bool { return ts[i] == t })
}

// vc_text: the token has the given text.
func vc_text(t *Token, s string) bool {
	return len(t.Bytes) == len(s) && vc.Forall(0, len(s), func(i int) bool { return t.Bytes[i] == s[i] })
}

// vc_enclosed: the tokens from index lo on begin and end with the given types.
func vc_enclosed(r Tokens, lo int, open, close hclsyntax.TokenType) bool {
	return lo+2 <= len(r) && r[lo].Type == open && r[len(r)-1].Type == close
}

//vc:for appendTokensForValue
//vc:props P18
func vc_appendTokensForValue(val cty.Value, toks Tokens) {
	vc.Modifies(toks[len(toks):cap(toks)])
	vc.Requires("writable", hcl.VC_Writable(val))
	vc.Requires("tokens", vc_toks(toks))
	vc.Ensures("extends", func(r Tokens) bool { return vc_extends(r, toks) && len(r) > len(toks) })
	vc.Ensures("null", func(r Tokens) bool {
		return vc.Implies(val.IsNull(), len(r) == len(toks)+1 && r[len(toks)].Type == hclsyntax.TokenIdent && vc_text(r[len(toks)], "null"))
	})
	vc.Ensures("bool", func(r Tokens) bool {
		return vc.Implies(!val.IsNull() && val.Type() == cty.Bool, len(r) == len(toks)+1 && r[len(toks)].Type == hclsyntax.TokenIdent &&
			(vc_text(r[len(toks)], "true")) == val.True() && (val.True() || vc_text(r[len(toks)], "false")))
	})
	vc.Ensures("number", func(r Tokens) bool {
		return vc.Implies(!val.IsNull() && val.Type() == cty.Number, len(r) == len(toks)+1 && r[len(toks)].Type == hclsyntax.TokenNumberLit)
	})
	vc.Ensures("string", func(r Tokens) bool {
		return vc.Implies(!val.IsNull() && val.Type() == cty.String, len(r) <= len(toks)+3 && vc_enclosed(r, len(toks), hclsyntax.TokenOQuote, hclsyntax.TokenCQuote) &&
			vc.Implies(len(r) == len(toks)+3, r[len(toks)+1].Type == hclsyntax.TokenQuotedLit))
	})
	vc.Ensures("sequence", func(r Tokens) bool {
		ty := val.Type()
		return vc.Implies(!val.IsNull() && (ty.IsListType() || ty.IsSetType() || ty.IsTupleType()), vc_enclosed(r, len(toks), hclsyntax.TokenOBrack, hclsyntax.TokenCBrack))
	})
	vc.Ensures("mapping", func(r Tokens) bool {
		ty := val.Type()
		return vc.Implies(!val.IsNull() && (ty.IsMapType() || ty.IsObjectType()), vc_enclosed(r, len(toks), hclsyntax.TokenOBrace, hclsyntax.TokenCBrace))
	})
	given := toks
	vc.Invariant("extends", func(toks Tokens) bool { return len(toks) > len(given) && vc_extends(toks, given) })
	vc.Invariant("open", func(toks Tokens) bool {
		ty := val.Type()
		return vc.Implies(ty.IsListType() || ty.IsSetType() || ty.IsTupleType(), toks[len(given)].Type == hclsyntax.TokenOBrack) &&
			vc.Implies(ty.IsMapType() || ty.IsObjectType(), toks[len(given)].Type == hclsyntax.TokenOBrace)
	})
}

//vc:for TokensForValue
//vc:props P18
func vc_TokensForValue(val cty.Value) {
	vc.Requires("writable", hcl.VC_Writable(val))
	vc_spacing()
	vc.Ensures("tokens", func(r Tokens) bool { return vc_toks(r) && len(r) > 0 })
}

// vc_steps: a traversal made of the three kinds of steps that have a syntax.
func vc_step(s hcl.Traverser) bool {
	switch ts := s.(type) {
	case hcl.TraverseRoot:
		return true
	case hcl.TraverseAttr:
		return true
	case hcl.TraverseIndex:
		return hcl.VC_Writable(ts.Key)
	}
	return false
}

func vc_steps(t hcl.Traversal) bool {
	return vc.Forall(0, len(t), func(i int) bool { return vc_step(t[i]) })
}

//vc:for appendTokensForTraversalStep
//vc:props P18
func vc_appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
	vc.Modifies(toks[len(toks):cap(toks)])
	vc.Requires("step", vc_step(step))
	vc.Requires("tokens", vc_toks(toks))
	vc.Ensures("extends", func(r Tokens) bool { return vc_extends(r, toks) && len(r) > len(toks) })
	vc.Ensures("root", func(r Tokens) bool {
		ts, is := step.(hcl.TraverseRoot)
		return vc.Implies(is, len(r) == len(toks)+1 && r[len(toks)].Type == hclsyntax.TokenIdent && vc_text(r[len(toks)], ts.Name))
	})
	vc.Ensures("attr", func(r Tokens) bool {
		ts, is := step.(hcl.TraverseAttr)
		return vc.Implies(is, len(r) == len(toks)+2 && r[len(toks)].Type == hclsyntax.TokenDot && r[len(toks)+1].Type == hclsyntax.TokenIdent &&
			vc_text(r[len(toks)+1], ts.Name))
	})
	vc.Ensures("index", func(r Tokens) bool {
		_, is := step.(hcl.TraverseIndex)
		return vc.Implies(is, len(r) > len(toks)+2 && vc_enclosed(r, len(toks), hclsyntax.TokenOBrack, hclsyntax.TokenCBrack))
	})
}

//vc:for appendTokensForTraversal
//vc:props P18
func vc_appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) {
	vc.Modifies(toks[len(toks):cap(toks)])
	vc.Requires("steps", vc_steps(traversal))
	vc.Requires("tokens", vc_toks(toks))
	vc.Ensures("extends", func(r Tokens) bool { return vc_extends(r, toks) && len(r) >= len(toks)+len(traversal) })
	given := toks
	vc.Invariant("extends", func(toks Tokens, iter int) bool { return vc_extends(toks, given) && len(toks) >= len(given)+iter })
}

//vc:for TokensForTraversal
//vc:props P18
func vc_TokensForTraversal(traversal hcl.Traversal) {
	vc.Requires("steps", vc_steps(traversal))
	vc_spacing()
	vc.Ensures("tokens", func(r Tokens) bool { return vc_toks(r) && len(r) >= len(traversal) })
}

//vc:for escapeQuotedStringLit
//vc:props P18
func vc_escapeQuotedStringLit(s string) {
	vc.Ensures("empty", func(r []byte) bool { return vc.Implies(len(s) == 0, len(r) == 0) })
	vc.Invariant("own", func(buf []byte) bool { return vc.Fresh(buf) })
}

//vc:for appendRune
//vc:props P18
func vc_appendRune(b []byte, r rune) {
	vc.Modifies(b[len(b):cap(b)])
	given := b
	vc.Invariant("room", func(b []byte, i, l int) bool {
		return len(b) == len(given)+i && 0 <= i && i <= l && (vc.Fresh(b) || vc.Same(b[:len(given)], given))
	})
	vc.Requires("rune", r >= 0 && r <= 0x10ffff && (r < 0xd800 || r > 0xdfff))
	vc.Ensures("kept", func(o []byte) bool {
		return len(o) > len(b) && (vc.Fresh(o) || vc.Same(o[:len(b)], b))
	})
}

// Assumed: writes into the given bytes only, and panics unless they have room.
//
//vc:for unicode/utf8.EncodeRune
//vc:trusted
func vc_EncodeRune(p []byte, r rune) {
	vc.Requires("room", len(p) >= utf8.RuneLen(r))
	vc.Modifies(p)
}

// Assumed: changes nothing.
//
//vc:for (*math/big.Float).Text
//vc:trusted
func vc_Float_Text(x *big.Float, format byte, prec int) {}
