package zz_vh

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

var lexers = []struct {
	name string
	f    func([]byte, string, hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics)
}{{"config", hclsyntax.LexConfig}, {"expression", hclsyntax.LexExpression}, {"template", hclsyntax.LexTemplate}}

func advancePos(p hcl.Pos, b []byte) hcl.Pos {
	p.Byte += len(b)
	for len(b) > 0 {
		n, seq, _ := textseg.ScanGraphemeClusters(b, true)
		if string(seq) == "\n" || string(seq) == "\r\n" {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
		b = b[n:]
	}
	return p
}

func badToken(ty hclsyntax.TokenType) bool {
	switch ty {
	case hclsyntax.TokenInvalid, hclsyntax.TokenBadUTF8, hclsyntax.TokenTabs, hclsyntax.TokenSemicolon, hclsyntax.TokenApostrophe, hclsyntax.TokenBacktick, hclsyntax.TokenStarStar,
		hclsyntax.TokenBitwiseAnd, hclsyntax.TokenBitwiseOr, hclsyntax.TokenBitwiseXor, hclsyntax.TokenBitwiseNot, hclsyntax.TokenQuotedNewline:
		return true
	}
	return false
}

func checkLex(h *vh, which string, src string, start hcl.Pos, toks hclsyntax.Tokens, diags hcl.Diagnostics) {
	buf := []byte(src)
	pos := start
	rest := buf
	if bytes.HasPrefix(buf, []byte("\xef\xbb\xbf")) {
		rest = buf[3:]
		pos.Byte += 3
	}
	id := fmt.Sprintf("%s %q at %#v", which, src, start)
	if len(toks) == 0 || toks[len(toks)-1].Type != hclsyntax.TokenEOF {
		h.fail("%s: does not end in EOF", id)
		return
	}
	bad := false
	for i, tok := range toks {
		if tok.Type == hclsyntax.TokenEOF && i != len(toks)-1 {
			h.fail("%s: EOF token in the middle", id)
		}
		gap := tok.Range.Start.Byte - pos.Byte
		if gap < 0 || gap > len(rest) {
			h.fail("%s: token %d at %d, expected from %d", id, i, tok.Range.Start.Byte, pos.Byte)
			return
		}
		if len(bytes.Trim(rest[:gap], " \t")) != 0 {
			h.fail("%s: bytes %q before token %d are in no token", id, rest[:gap], i)
		}
		pos.Byte += gap
		pos.Column += gap
		rest = rest[gap:]
		n := tok.Range.End.Byte - tok.Range.Start.Byte
		if n < 0 || n > len(rest) || !bytes.Equal(tok.Bytes, rest[:n]) {
			h.fail("%s: token %d bytes %q are not the source at %#v", id, i, tok.Bytes, tok.Range)
			return
		}
		if n == 0 && tok.Type != hclsyntax.TokenEOF && tok.Type != hclsyntax.TokenCHeredoc && tok.Type != hclsyntax.TokenStringLit {
			h.fail("%s: token %d is empty", id, i)
		}
		if tok.Range.Start != pos {
			h.fail("%s: token %d starts at %#v, want %#v", id, i, tok.Range.Start, pos)
			return
		}
		pos = advancePos(pos, rest[:n])
		if tok.Range.End != pos {
			h.fail("%s: token %d ends at %#v, want %#v", id, i, tok.Range.End, pos)
			return
		}
		if tok.Range.Filename != "f.hcl" {
			h.fail("%s: token %d file name %q", id, i, tok.Range.Filename)
		}
		rest = rest[n:]
		bad = bad || badToken(tok.Type)
	}
	if len(rest) != 0 {
		h.fail("%s: %q is not covered", id, rest)
	}
	if bad && !diags.HasErrors() {
		h.fail("%s: invalid token without error", id)
	}
	if !bad && len(diags) != 0 {
		h.fail("%s: error without invalid token: %s", id, diags)
	}
}

func TestVerifP04(t *testing.T) {
	h := newVH(t, "config, expression and template lexing of all byte strings up to length 2 over 40 bytes, and random fragment sequences up to 14 fragments")
	defer h.done()
	starts := []hcl.Pos{{Line: 1, Column: 1}, {Line: 3, Column: 7, Byte: 42}}
	try := func(src string) {
		for _, lx := range lexers {
			for _, st := range starts {
				h.run(fmt.Sprintf("lex %s %q from %d", lx.name, src, st.Byte), func() {
					toks, diags := lx.f([]byte(src), "f.hcl", st)
					checkLex(h, lx.name, src, st, toks, diags)
				})
			}
		}
	}
	small := " \t\n\r\"$%{}~\\<-EO'`;#/*=!&|.e0aé\x00\xff\xc3@"
	for i := 0; i < len(small) && h.more(); i++ {
		try(small[i : i+1])
		for j := 0; j < len(small) && h.more(); j++ {
			try(small[i:i+1] + small[j:j+1])
		}
	}
	n := 3000
	if h.extended() {
		n = 60000
	}
	for i := 0; i < n && h.more(); i++ {
		switch h.rng.Intn(5) {
		case 0:
			try(h.mutate(h.randConfig(2, "")))
		case 1:
			try("\xef\xbb\xbf" + h.soup(6))
		case 2:
			try(h.pick("<<EOT\n", "<<-EOT\n", "\"", "a = \"", "${") + h.soup(8) + h.pick("", "EOT\n", "\"", "}"))
		default:
			try(h.soup(14))
		}
	}
}
