package hclsyntax

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
	"github.com/zclconf/go-cty/cty"
)

// vc_ready is what every parsing function relies on and keeps: there is a
// token list whose last token is the end of the file, the position is inside
// it, and the stack of newline modes is not empty.
func vc_ready(p *peeker) bool {
	return p != nil && len(p.Tokens) > 0 && p.Tokens[len(p.Tokens)-1].Type == TokenEOF && 0 <= p.NextIndex && p.NextIndex <= len(p.Tokens) && len(p.IncludeNewlinesStack) >= 1
}

// vc_moved: same tokens, same newline modes, position not before at.
func vc_moved(p *peeker, tokens Tokens, depth, at int) bool {
	return vc.Same(p.Tokens, tokens) && len(p.IncludeNewlinesStack) == depth && at <= p.NextIndex && p.NextIndex <= len(tokens)
}

// vc_skips: the parser passes over the token in the given newline mode.
func vc_skips(p *peeker, newlines bool, t Token) bool {
	if t.Type == TokenComment && !p.IncludeComments {
		return !(newlines && len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n')
	}
	return t.Type == TokenNewline && !newlines
}

// vc_kind is the kind of token the parser sees where it does not skip.
func vc_kind(p *peeker, t Token) TokenType {
	if t.Type == TokenComment && !p.IncludeComments {
		return TokenNewline
	}
	return t.Type
}

func vc_newlines(p *peeker) bool { return p.IncludeNewlinesStack[len(p.IncludeNewlinesStack)-1] }

// vc_nextIs: the next token the parser sees is the one at index k.
func vc_nextIs(p *peeker, newlines bool, k int) bool {
	return p.NextIndex <= k && k < len(p.Tokens) && !vc_skips(p, newlines, p.Tokens[k]) &&
		vc.Forall(p.NextIndex, k, func(i int) bool { return vc_skips(p, newlines, p.Tokens[i]) })
}

// vc_at: the next token the parser sees is of the given kind.
func vc_at(p *peeker, ty TokenType) bool {
	return vc.Exists(0, len(p.Tokens), func(k int) bool { return vc_nextIs(p, vc_newlines(p), k) && vc_kind(p, p.Tokens[k]) == ty })
}

// vc_atKeyword: ignoring newlines, the next token is the given keyword.
func vc_atKeyword(p *peeker, kw Keyword) bool {
	return vc.Exists(0, len(p.Tokens), func(k int) bool { return vc_nextIs(p, false, k) && vc_isKeyword(kw, p.Tokens[k].Type, p.Tokens[k].Bytes) })
}

// vc_isKeyword is what the keyword comparison decides.
func vc_isKeyword(kw Keyword, ty TokenType, b []byte) bool {
	return ty == TokenIdent && len(b) == len(kw) && vc.Forall(0, len(b), func(i int) bool { return kw[i] == b[i] })
}

// vc_diags: complete diagnostics.
func vc_diags(d hcl.Diagnostics) bool {
	return vc.Forall(0, len(d), func(i int) bool { return d[i] != nil })
}

// vc_sound: an expression that can be inspected.
func vc_sound(e Expression) bool {
	switch te := e.(type) {
	case *ScopeTraversalExpr:
		return te != nil
	case *RelativeTraversalExpr:
		return te != nil
	case *LiteralValueExpr:
		return te != nil
	case *TemplateExpr:
		return te != nil
	}
	return e != nil
}

//vc:for Keyword.TokenMatches
//vc:props P05
func vc_TokenMatches(kw Keyword, token Token) {
	vc.Ensures("ident", func(r bool) bool { return r == vc_isKeyword(kw, token.Type, token.Bytes) })
}

//vc:for newPeeker
//vc:props P05
func vc_newPeeker(tokens Tokens, includeComments bool) {
	vc.Ensures("ready", func(r *peeker) bool {
		return r != nil && vc.Fresh(r) && vc.Same(r.Tokens, tokens) && r.NextIndex == 0 && len(r.IncludeNewlinesStack) == 1
	})
}

//vc:for (*peeker).nextToken
//vc:props P05
func vc_nextToken(p *peeker) {
	vc.Requires("ready", vc_ready(p))
	vc.Invariant("skipped", func(i int) bool {
		return p.NextIndex <= i && i <= len(p.Tokens) && vc.Forall(p.NextIndex, i, func(j int) bool { return vc_skips(p, vc_newlines(p), p.Tokens[j]) })
	})
	vc.Ensures("end", func(t Token, next int) bool {
		return vc.Implies(p.NextIndex == len(p.Tokens), next == len(p.Tokens) && t.Type == TokenEOF)
	})
	vc.Ensures("first", func(t Token, next int) bool {
		return vc.Implies(p.NextIndex < len(p.Tokens), vc_nextIs(p, vc_newlines(p), next-1) && t.Type == vc_kind(p, p.Tokens[next-1]))
	})
	vc.Ensures("token", func(t Token, next int) bool {
		return vc.Implies(p.NextIndex < len(p.Tokens) && p.Tokens[next-1].Type != TokenComment, vc_sameToken(t, p.Tokens[next-1]))
	})
	vc.Ensures("range", func(t Token, next int) bool { return p.NextIndex <= next && next <= len(p.Tokens) })
}

//vc:for (*parser).recover
//vc:props P05
func vc_recover(p *parser, end TokenType) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(t Token) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
}

//vc:for (*parser).recoverOver
//vc:props P05
func vc_recoverOver(p *parser, start TokenType) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
}

//vc:for (*parser).recoverAfterBodyItem
//vc:props P05
func vc_recoverAfterBodyItem(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
}

//vc:for (*parser).ParseBody
//vc:props P05
func vc_ParseBody(p *parser, end TokenType) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(b *Body, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(b *Body, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Invariant("attrs", func(attrs Attributes) bool {
		return attrs != nil && vc.Fresh(attrs) && vc.All(func(k string) bool { _, has := attrs[k]; return vc.Implies(has, attrs[k] != nil) })
	})
	vc.Ensures("result", func(b *Body, d hcl.Diagnostics) bool { return b != nil })
}

func vc_item(n Node) bool {
	switch tn := n.(type) {
	case *Attribute:
		return tn != nil
	case *Block:
		return tn != nil
	}
	return true
}

//vc:for (*parser).ParseBodyItem
//vc:props P05
func vc_ParseBodyItem(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(n Node, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(n Node, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("item", func(n Node, d hcl.Diagnostics) bool { return vc_item(n) })
}

//vc:for (*parser).parseSingleAttrBody
//vc:props P05
func vc_parseSingleAttrBody(p *parser, end TokenType) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(b *Body, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(b *Body, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(b *Body, d hcl.Diagnostics) bool { return b != nil || len(d) > 0 })
}

//vc:for (*parser).finishParsingBodyAttribute
//vc:props P05
func vc_finishParsingBodyAttribute(p *parser, ident Token, singleLine bool) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("at", vc_at(p.peeker, TokenEqual))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(n Node, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(n Node, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("item", func(n Node, d hcl.Diagnostics) bool {
		a, ok := n.(*Attribute)
		return ok && a != nil
	})
}

//vc:for (*parser).finishParsingBodyBlock
//vc:props P05
func vc_finishParsingBodyBlock(p *parser, ident Token) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(n Node, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(n Node, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("item", func(n Node, d hcl.Diagnostics) bool { return vc_item(n) })
}

//vc:for (*parser).ParseExpression
//vc:props P05
func vc_ParseExpression(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseTernaryConditional
//vc:props P05
func vc_parseTernaryConditional(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseExpressionWithTraversals
//vc:props P05
func vc_parseExpressionWithTraversals(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseExpressionTerm
//vc:props P05
func vc_parseExpressionTerm(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseTupleCons
//vc:props P05
func vc_parseTupleCons(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("at", vc_at(p.peeker, TokenOBrack))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseObjectCons
//vc:props P05
func vc_parseObjectCons(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("at", vc_at(p.peeker, TokenOBrace))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseBinaryOps
//vc:props P05
func vc_parseBinaryOps(p *parser, ops []map[TokenType]*Operation) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
	vc.Invariant("operands", func(lhs, rhs Expression, operation *Operation) bool {
		return vc_sound(lhs) && vc.Implies(operation != nil, vc_sound(rhs))
	})
}

//vc:for (*parser).parseExpressionTraversals
//vc:props P05
func vc_parseExpressionTraversals(p *parser, from Expression) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("from", vc_sound(from))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
	vc.Invariant("sound", func(ret Expression) bool { return vc_sound(ret) })
}

//vc:for (*parser).finishParsingFunctionCall
//vc:props P05
func vc_finishParsingFunctionCall(p *parser, name Token) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("at", vc_at(p.peeker, TokenOParen))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).finishParsingForExpr
//vc:props P05
func vc_finishParsingForExpr(p *parser, open Token) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Requires("for", (open.Type == TokenOBrace || open.Type == TokenOBrack) && vc_atKeyword(p.peeker, forKeyword))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseQuotedStringLiteral
//vc:props P05
func vc_parseQuotedStringLiteral(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(s string, r hcl.Range, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(s string, r hcl.Range, d hcl.Diagnostics) bool { return vc_diags(d) })
}

//vc:for (*parser).decodeStringLit
//vc:props P05
func vc_decodeStringLit(p *parser, tok Token) {
	vc.Requires("literal", tok.Type == TokenQuotedLit || tok.Type == TokenStringLit)
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(s string, d hcl.Diagnostics) bool { return vc_diags(d) })
}

//vc:for (*parser).ParseTemplate
//vc:props P05
func vc_ParseTemplate(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseTemplate
//vc:props P05
func vc_parseTemplate(p *parser, end TokenType, flushHeredoc bool) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(e Expression, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*parser).parseTemplateInner
//vc:props P05
func vc_parseTemplateInner(p *parser, end TokenType, flushHeredoc bool) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(es []Expression, pass bool, r hcl.Range, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(es []Expression, pass bool, r hcl.Range, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("exprs", func(es []Expression, pass bool, r hcl.Range, d hcl.Diagnostics) bool {
		return vc.Implies(pass, len(es) == 1) && vc.Forall(0, len(es), func(i int) bool { return vc_sound(es[i]) })
	})
}

//vc:for (*parser).parseTemplateParts
//vc:props P05
func vc_parseTemplateParts(p *parser, end TokenType) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(r *templateParts, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(r *templateParts, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Invariant("parts", func(parts []templateToken) bool {
		return vc.Forall(0, len(parts), func(i int) bool { return vc_templateToken(parts[i]) })
	})
	vc.Ensures("parts", func(r *templateParts, d hcl.Diagnostics) bool {
		return r != nil && len(r.Tokens) >= 2 && vc_endToken(r.Tokens[len(r.Tokens)-1]) && vc.Forall(0, len(r.Tokens), func(i int) bool { return vc_templateToken(r.Tokens[i]) })
	})
}

//vc:for (*parser).ParseTraversalAbs
//vc:props P05
func vc_ParseTraversalAbs(p *parser) {
	vc.Requires("ready", p != nil && vc_ready(p.peeker))
	vc.Modifies(p)
	vc.Modifies(p.peeker)
	vc.ModifiesAll((*bool)(nil))
	vc.ModifiesAll((*hcl.Traverser)(nil))
	vc.ModifiesAll((*ScopeTraversalExpr)(nil))
	vc.ModifiesAll((*RelativeTraversalExpr)(nil))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	pk, tokens, depth, at := p.peeker, p.Tokens, len(p.IncludeNewlinesStack), p.NextIndex
	vc.Invariant("kept", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("kept-inner", func() bool { return p.peeker == pk && vc_moved(pk, tokens, depth+1, at) })
	vc.Ensures("kept", func(t hcl.Traversal, d hcl.Diagnostics) bool { return p.peeker == pk && vc_moved(pk, tokens, depth, at) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(t hcl.Traversal, d hcl.Diagnostics) bool { return vc_diags(d) })
}

// Template tokens always end in the end token.
func vc_treadyAt(p *templateParser) bool {
	return p != nil && 0 <= p.pos && p.pos < len(p.Tokens) && vc_endToken(p.Tokens[len(p.Tokens)-1]) &&
		vc.Forall(0, len(p.Tokens), func(i int) bool { return vc_templateToken(p.Tokens[i]) })
}

func vc_endToken(t templateToken) bool {
	e, ok := t.(*templateEndToken)
	return ok && e != nil
}

// vc_singleInterp: one interpolation and nothing else.
func vc_singleInterp(toks []templateToken) bool {
	if len(toks) != 2 {
		return false
	}
	_, ok := toks[0].(*templateInterpToken)
	return ok
}

// vc_templateToken: a non-nil token of one of the known kinds, complete.
func vc_templateToken(t templateToken) bool {
	switch tt := t.(type) {
	case *templateLiteralToken:
		return tt != nil
	case *templateInterpToken:
		return tt != nil && vc_sound(tt.Expr)
	case *templateIfToken:
		return tt != nil && vc_sound(tt.CondExpr)
	case *templateForToken:
		return tt != nil && vc_sound(tt.CollExpr)
	case *templateEndCtrlToken:
		return tt != nil && (tt.Type == templateEndIf || tt.Type == templateElse || tt.Type == templateEndFor)
	case *templateEndToken:
		return tt != nil
	}
	return false
}

//vc:for (*templateParser).parseRoot
//vc:props P05
func vc_parseRoot(p *templateParser) {
	vc.Requires("ready", vc_treadyAt(p))
	vc.Modifies(p)
	toks, at := p.Tokens, p.pos
	vc.Invariant("ready", func() bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) })
	vc.Invariant("exprs", func(exprs []Expression) bool {
		return vc.Forall(0, len(exprs), func(i int) bool { return vc_sound(exprs[i]) })
	})
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(es []Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Invariant("single", func(exprs []Expression) bool {
		return vc.Implies(at == 0 && vc_singleInterp(toks), p.pos == len(exprs) && len(exprs) <= 1)
	})
	vc.Ensures("single", func(es []Expression, d hcl.Diagnostics) bool { return vc.Implies(at == 0 && vc_singleInterp(toks), len(es) == 1) })
	vc.Ensures("exprs", func(es []Expression, d hcl.Diagnostics) bool {
		return vc.Forall(0, len(es), func(i int) bool { return vc_sound(es[i]) })
	})
}

//vc:for (*templateParser).parseExpr
//vc:props P05
func vc_parseExpr(p *templateParser) {
	vc.Requires("ready", vc_treadyAt(p))
	vc.Modifies(p)
	toks, at := p.Tokens, p.pos
	vc.Invariant("ready", func() bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Invariant("own", func(es []Expression) bool { return es == nil || vc.Fresh(es) })
	vc.Invariant("exprs", func(es []Expression) bool {
		return vc.Forall(0, len(es), func(i int) bool { return vc_sound(es[i]) })
	})
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("ready", func(e Expression, d hcl.Diagnostics) bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
	_, interp := p.Tokens[p.pos].(*templateInterpToken)
	vc.Ensures("single", func(e Expression, d hcl.Diagnostics) bool { return vc.Implies(interp, p.pos == at+1) })
}

//vc:for (*templateParser).parseIf
//vc:props P05
func vc_parseIf(p *templateParser) {
	vc.Requires("ready", vc_treadyAt(p))
	_, ok := p.Tokens[p.pos].(*templateIfToken)
	vc.Requires("at", ok)
	vc.Modifies(p)
	toks, at := p.Tokens, p.pos
	vc.Invariant("ready", func() bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Invariant("own", func(es []Expression) bool { return es == nil || vc.Fresh(es) })
	vc.Invariant("exprs", func(es []Expression) bool {
		return vc.Forall(0, len(es), func(i int) bool { return vc_sound(es[i]) })
	})
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("ready", func(e Expression, d hcl.Diagnostics) bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for (*templateParser).parseFor
//vc:props P05
func vc_parseFor(p *templateParser) {
	vc.Requires("ready", vc_treadyAt(p))
	_, ok := p.Tokens[p.pos].(*templateForToken)
	vc.Requires("at", ok)
	vc.Modifies(p)
	toks, at := p.Tokens, p.pos
	vc.Invariant("ready", func() bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Invariant("own", func(es []Expression) bool { return es == nil || vc.Fresh(es) })
	vc.Invariant("exprs", func(es []Expression) bool {
		return vc.Forall(0, len(es), func(i int) bool { return vc_sound(es[i]) })
	})
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc_diags(diags) })
	vc.Ensures("diags", func(e Expression, d hcl.Diagnostics) bool { return vc_diags(d) })
	vc.Ensures("ready", func(e Expression, d hcl.Diagnostics) bool { return vc_treadyAt(p) && vc.Same(p.Tokens, toks) && at <= p.pos })
	vc.Ensures("result", func(e Expression, d hcl.Diagnostics) bool { return vc_sound(e) })
}

//vc:for flushHeredocTemplateParts
//vc:props P05
func vc_flushHeredocTemplateParts(parts *templateParts) {
	vc.Requires("parts", parts != nil && vc.Forall(0, len(parts.Tokens), func(i int) bool { return vc_templateToken(parts.Tokens[i]) }))
	vc.ModifiesAll((*templateLiteralToken)(nil))
	VC_ValueModifies()
	vc.Invariant("adjust", func(adjust []*templateLiteralToken) bool {
		return vc.Forall(0, len(adjust), func(i int) bool { return adjust[i] != nil })
	})
	vc.Invariant("split", func(lit *templateLiteralToken, valBytes []byte, spaceByteCount int) bool {
		return spaceByteCount >= 0 && spaceByteCount+len(valBytes) == len(lit.Val)
	})
}

// The generated string scanner is not verified. What the parser relies on,
// that a slice starting like a unicode escape of the right length has only
// hexadecimal digits, is examined by the bounded check.
//
//vc:for scanStringLit
//vc:trusted
func vc_scanStringLit(data []byte, quoted bool) {
	vc.Ensures("escapes", func(r [][]byte) bool {
		return vc.Forall(0, len(r), func(i int) bool {
			s := r[i]
			if !quoted || len(s) < 2 || s[0] != '\\' || !(s[1] == 'u' && len(s) == 6 || s[1] == 'U' && len(s) == 10) {
				return true
			}
			return vc.Forall(2, len(s), func(j int) bool { return vc_hex(s[j]) })
		})
	})
	vc.Ensures("parts", func(r [][]byte) bool {
		return vc.Forall(0, len(r), func(i int) bool { return vc.PartOf(r[i], data) })
	})
}

func vc_hex(c byte) bool { return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }

// Assumed, as documented: a number of up to eight hexadecimal digits fits.
//
//vc:for strconv.ParseUint
//vc:trusted
//vc:pure
func vc_ParseUint(s string, base int, bitSize int) {
	vc.Ensures("hex", func(n uint64, err error) bool {
		return vc.Implies(base == 16 && bitSize == 32 && 1 <= len(s) && len(s) <= 8 && vc.Forall(0, len(s), func(i int) bool { return vc_hex(s[i]) }), err == nil)
	})
}

// Assumed, as documented: equal contents.
//
//vc:for bytes.Equal
//vc:trusted
//vc:pure
func vc_bytesEqual(a, b []byte) {
	vc.Ensures("equal", func(r bool) bool {
		return r == (len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == b[i] }))
	})
}

// Assumed, as documented: the index of the byte or -1.
//
//vc:for bytes.IndexByte
//vc:trusted
//vc:pure
func vc_IndexByte(b []byte, c byte) {
	vc.Ensures("range", func(r int) bool { return -1 <= r && r < len(b) })
}

// Assumed, as documented: a suffix of the string.
//
//vc:for strings.TrimLeftFunc
//vc:trusted
//vc:pure
func vc_TrimLeftFunc(s string, f func(rune) bool) {
	vc.Ensures("shorter", func(r string) bool { return len(r) <= len(s) })
}

// Assumed, as documented: -1 or the length of the encoding.
//
//vc:for unicode/utf8.RuneLen
//vc:trusted
//vc:pure
func vc_RuneLen(r rune) {
	vc.Ensures("length", func(n int) bool { return n == -1 || 1 <= n && n <= 4 })
	vc.Ensures("valid", func(n int) bool { return (n > 0) == (r >= 0 && r <= 0x10ffff && (r < 0xd800 || r > 0xdfff)) })
}
