package json

import (
	"encoding/json"

	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_ready: there is a token list whose last token is the end of the file,
// and the position is inside it.
func vc_ready(p *peeker) bool {
	return p != nil && len(p.tokens) > 0 && p.tokens[len(p.tokens)-1].Type == tokenEOF && 0 <= p.pos && p.pos < len(p.tokens)
}

// vc_moved: same tokens, position inside the list and not before at.
func vc_moved(p *peeker, tokens []token, at int) bool {
	return vc.Same(p.tokens, tokens) && at <= p.pos && p.pos < len(tokens)
}

func vc_sameToken(a, b token) bool {
	return a.Type == b.Type && vc.Same(a.Bytes, b.Bytes) && a.Range == b.Range
}

//vc:for newPeeker
//vc:props P06
func vc_newPeeker(tokens []token) {
	vc.Ensures("start", func(r *peeker) bool { return r != nil && vc.Fresh(r) && vc.Same(r.tokens, tokens) && r.pos == 0 })
}

//vc:for (*peeker).Peek
//vc:props P06
func vc_Peek(p *peeker) {
	vc.Requires("ready", vc_ready(p))
	vc.Ensures("current", func(t token) bool { return vc_sameToken(t, p.tokens[p.pos]) })
}

//vc:for (*peeker).Read
//vc:props P06
func vc_Read(p *peeker) {
	vc.Requires("ready", vc_ready(p))
	vc.Modifies(p)
	tokens, at := p.tokens, p.pos
	vc.Ensures("current", func(t token) bool { return vc_sameToken(t, tokens[at]) })
	vc.Ensures("kept", func(t token) bool { return vc.Same(p.tokens, tokens) })
	vc.Ensures("step", func(t token) bool {
		if tokens[at].Type == tokenEOF {
			return p.pos == at
		}
		return p.pos == at+1
	})
	vc.Ensures("ready", func(t token) bool { return vc_ready(p) })
}

// Assumed: a syntax error is reported by a real error value.
//
//vc:for encoding/json.Unmarshal
//vc:trusted
func vc_Unmarshal(data []byte, v interface{}) {
	vc.Modifies(v)
	vc.Ensures("error", func(err error) bool {
		se, is := err.(*json.SyntaxError)
		return vc.Implies(is, se != nil)
	})
}

func vc_isEnd(tokens []token) bool {
	return len(tokens) > 0 && tokens[len(tokens)-1].Type == tokenEOF
}

// vc_kind: the kind of node the token starts.
func vc_kind(n node, t tokenType) bool {
	switch tn := n.(type) {
	case *objectVal:
		return tn != nil && t == tokenBraceO && vc.Forall(0, len(tn.Attrs), func(i int) bool { return tn.Attrs[i] != nil && tn.Attrs[i].Value != nil })
	case *arrayVal:
		return tn != nil && t == tokenBrackO && vc.Forall(0, len(tn.Values), func(i int) bool { return tn.Values[i] != nil })
	case *numberVal:
		return tn != nil && t == tokenNumber
	case *stringVal:
		return tn != nil && t == tokenString
	case *booleanVal:
		return tn != nil && t == tokenKeyword
	case *nullVal:
		return tn != nil && t == tokenKeyword
	}
	return false
}

// vc_parse: what every parse function promises: tokens kept, position forward,
// a node of the right kind exactly if nothing was reported.
func vc_parse(p *peeker, want tokenType) {
	vc.Requires("ready", vc_ready(p))
	vc.Modifies(p)
	tokens, at := p.tokens, p.pos
	first := p.tokens[p.pos].Type
	vc.Requires("first", want == tokenInvalid || first == want)
	vc.Invariant("moved", func() bool { return vc_moved(p, tokens, at+1) })
	vc.Invariant("diags", func(diags hcl.Diagnostics) bool { return vc.Forall(0, len(diags), func(i int) bool { return diags[i] != nil && diags[i].Severity == hcl.DiagError }) })
	vc.Ensures("moved", func(n node, d hcl.Diagnostics) bool { return vc_moved(p, tokens, at) })
	vc.Ensures("forward", func(n node, d hcl.Diagnostics) bool { return vc.Implies(len(d) == 0, p.pos > at) })
	vc.Ensures("diags", func(n node, d hcl.Diagnostics) bool {
		return vc.Forall(0, len(d), func(i int) bool { return d[i] != nil && d[i].Severity == hcl.DiagError })
	})
	vc.Ensures("kind", func(n node, d hcl.Diagnostics) bool { return vc.Implies(len(d) == 0, vc_kind(n, first)) })
	vc.Ensures("closed", func(n node, d hcl.Diagnostics) bool {
		return vc.Implies(len(d) == 0 && first == tokenBraceO, tokens[p.pos-1].Type == tokenBraceC) &&
			vc.Implies(len(d) == 0 && first == tokenBrackO, tokens[p.pos-1].Type == tokenBrackC)
	})
}

// vc_okNode: a node can be inspected.
func vc_okNode(n node) bool {
	switch tn := n.(type) {
	case *objectVal:
		return tn != nil && vc.Forall(0, len(tn.Attrs), func(i int) bool { return tn.Attrs[i] != nil && tn.Attrs[i].Value != nil })
	case *arrayVal:
		return tn != nil && vc.Forall(0, len(tn.Values), func(i int) bool { return tn.Values[i] != nil })
	case *numberVal:
		return tn != nil
	case *stringVal:
		return tn != nil
	case *booleanVal:
		return tn != nil
	case *nullVal:
		return tn != nil
	}
	return n != nil
}

//vc:for parseValue
//vc:props P06
func vc_parseValue(p *peeker) {
	vc_parse(p, tokenInvalid)
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return vc_okNode(n) })
}

//vc:for parseObject
//vc:props P06
func vc_parseObject(p *peeker) {
	vc_parse(p, tokenBraceO)
	vc.Invariant("attrs", func(attrs []*objectAttr) bool {
		return vc.Fresh(attrs) && vc.Forall(0, len(attrs), func(i int) bool { return attrs[i] != nil && attrs[i].Value != nil })
	})
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return n == nil && len(d) > 0 || n != nil && vc_okNode(n) })
}

//vc:for parseArray
//vc:props P06
func vc_parseArray(p *peeker) {
	vc_parse(p, tokenBrackO)
	vc.Invariant("vals", func(vals []node) bool {
		return vc.Fresh(vals) && vc.Forall(0, len(vals), func(i int) bool { return vals[i] != nil })
	})
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return n == nil && len(d) > 0 || n != nil && vc_okNode(n) })
}

//vc:for parseNumber
//vc:props P06
func vc_parseNumber(p *peeker) {
	vc_parse(p, tokenNumber)
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return n == nil && len(d) > 0 || n != nil && vc_okNode(n) })
}

//vc:for parseString
//vc:props P06
func vc_parseString(p *peeker) {
	vc_parse(p, tokenString)
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return n == nil && len(d) > 0 || n != nil && vc_okNode(n) })
}

//vc:for parseKeyword
//vc:props P06
func vc_parseKeyword(p *peeker) {
	vc_parse(p, tokenKeyword)
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return n == nil && len(d) > 0 || n != nil && vc_okNode(n) })
}

//vc:for parseFileContent
//vc:props P06
func vc_parseFileContent(buf []byte, filename string) {
	vc.Ensures("node", func(n node, d hcl.Diagnostics) bool { return vc_okNode(n) })
	vc.Ensures("diags", func(n node, d hcl.Diagnostics) bool {
		return vc.Forall(0, len(d), func(i int) bool { return d[i] != nil && d[i].Severity == hcl.DiagError })
	})
}
