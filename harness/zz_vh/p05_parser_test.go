package zz_vh

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

var exprIface = reflect.TypeOf((*hclsyntax.Expression)(nil)).Elem()

// wellFormed walks a syntax tree by reflection and reports the first missing
// part; seen collects the source ranges of the nodes.
func wellFormed(v reflect.Value, path string, seen *[]hcl.Range) string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			if v.Type() == exprIface {
				return path + " is nil"
			}
			return ""
		}
		return wellFormed(v.Elem(), path, seen)
	case reflect.Ptr:
		if v.IsNil() {
			switch v.Interface().(type) {
			case *hclsyntax.Body, *hclsyntax.Attribute, *hclsyntax.Block, *hclsyntax.Operation:
				return path + " is nil"
			}
			if v.Type().Implements(exprIface) {
				return path + " is nil"
			}
			return ""
		}
		if n, ok := v.Interface().(hclsyntax.Node); ok {
			*seen = append(*seen, n.Range())
			if e, ok := n.(hcl.Expression); ok {
				e.StartRange()
				e.Variables()
			}
		}
		if v.Elem().Kind() != reflect.Struct || v.Elem().Type().PkgPath() != "github.com/hashicorp/hcl2/hcl/hclsyntax" {
			return ""
		}
		if _, ok := v.Interface().(*hclsyntax.Operation); ok {
			return ""
		}
		return wellFormed(v.Elem(), path, seen)
	case reflect.Struct:
		if v.Type().PkgPath() != "github.com/hashicorp/hcl2/hcl/hclsyntax" {
			if r, ok := v.Interface().(hcl.Range); ok {
				*seen = append(*seen, r)
			}
			return ""
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if v.Type().Name() == "ForExpr" && (f.Name == "KeyExpr" || f.Name == "CondExpr") && v.Field(i).IsNil() {
				continue
			}
			if s := wellFormed(v.Field(i), path+"."+f.Name, seen); s != "" {
				return s
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if s := wellFormed(v.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); s != "" {
				return s
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if s := wellFormed(v.MapIndex(k), fmt.Sprintf("%s[%q]", path, k), seen); s != "" {
				return s
			}
		}
	}
	return ""
}

func checkDiags(h *vh, id string, diags hcl.Diagnostics) {
	for i, d := range diags {
		if d == nil {
			h.fail("%s: diagnostic %d is nil", id, i)
		} else if d.Severity != hcl.DiagError && d.Severity != hcl.DiagWarning {
			h.fail("%s: diagnostic %d has no severity", id, i)
		} else if d.Subject == nil {
			h.fail("%s: diagnostic %q has no subject", id, d.Summary)
		}
	}
}

func covered(r hcl.Range, seen []hcl.Range) bool {
	for _, s := range seen {
		if s.Start.Byte <= r.Start.Byte && r.End.Byte <= s.End.Byte {
			return true
		}
	}
	return false
}

// checkComplete: when nothing is reported, every token that carries meaning is
// represented in the tree.
func checkComplete(h *vh, id string, toks hclsyntax.Tokens, seen []hcl.Range) {
	for _, t := range toks {
		switch t.Type {
		case hclsyntax.TokenNewline, hclsyntax.TokenComment, hclsyntax.TokenEOF, hclsyntax.TokenOParen, hclsyntax.TokenCParen:
			continue
		}
		if !covered(t.Range, seen) {
			h.fail("%s: no error, but token %s %q at %s is not part of the result", id, t.Type, t.Bytes, t.Range)
			return
		}
	}
}

func checkParse(h *vh, src string) {
	start := hcl.Pos{Byte: 0, Line: 1, Column: 1}
	h.run("config "+src, func() {
		id := fmt.Sprintf("config %q", src)
		f, diags := hclsyntax.ParseConfig([]byte(src), "t", start)
		checkDiags(h, id, diags)
		if f == nil || f.Body == nil {
			h.fail("%s: nil result", id)
			return
		}
		body, ok := f.Body.(*hclsyntax.Body)
		if !ok || body == nil {
			h.fail("%s: no body", id)
			return
		}
		var seen []hcl.Range
		if s := wellFormed(reflect.ValueOf(body), "body", &seen); s != "" {
			h.fail("%s: %s", id, s)
			return
		}
		if string(f.Bytes) != src {
			h.fail("%s: source bytes not kept", id)
		}
		if !diags.HasErrors() {
			toks, ld := hclsyntax.LexConfig([]byte(src), "t", start)
			if ld.HasErrors() {
				h.fail("%s: lexer errors not reported", id)
			}
			checkItems(h, id, body, toks, -1, len(src)+1)
		}
	})
	h.run("expr "+src, func() {
		id := fmt.Sprintf("expression %q", src)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t", start)
		checkExpr(h, id, e, diags, src, hclsyntax.LexExpression)
	})
	h.run("template "+src, func() {
		id := fmt.Sprintf("template %q", src)
		e, diags := hclsyntax.ParseTemplate([]byte(src), "t", start)
		checkExpr(h, id, e, diags, src, nil)
	})
	h.run("traversal "+src, func() {
		id := fmt.Sprintf("traversal %q", src)
		tr, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t", start)
		checkDiags(h, id, diags)
		for i, s := range tr {
			if s == nil {
				h.fail("%s: step %d is nil", id, i)
			}
		}
		if !diags.HasErrors() {
			if len(tr) == 0 {
				h.fail("%s: empty traversal without error", id)
				return
			}
			toks, _ := hclsyntax.LexExpression([]byte(src), "t", start)
			var seen []hcl.Range
			for _, s := range tr {
				seen = append(seen, s.SourceRange())
			}
			checkComplete(h, id, toks, seen)
		}
	})
}

func checkExpr(h *vh, id string, e hclsyntax.Expression, diags hcl.Diagnostics, src string, lex func([]byte, string, hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics)) {
	checkDiags(h, id, diags)
	if e == nil {
		h.fail("%s: nil result", id)
		return
	}
	var seen []hcl.Range
	if s := wellFormed(reflect.ValueOf(&e).Elem(), "expr", &seen); s != "" {
		h.fail("%s: %s", id, s)
		return
	}
	e.Value(nil)
	if lex != nil && !diags.HasErrors() {
		toks, ld := lex([]byte(src), "t", hcl.Pos{Byte: 0, Line: 1, Column: 1})
		if ld.HasErrors() {
			h.fail("%s: lexer errors not reported", id)
		}
		checkComplete(h, id, toks, seen)
	}
}

// checkItems: without errors the tokens strictly between two byte offsets are
// divided up among the items of the body.
func checkItems(h *vh, id string, body *hclsyntax.Body, toks hclsyntax.Tokens, from, to int) {
	var seen []hcl.Range
	for _, a := range body.Attributes {
		seen = append(seen, a.SrcRange)
	}
	for _, b := range body.Blocks {
		seen = append(seen, hcl.RangeBetween(b.TypeRange, b.CloseBraceRange))
		checkItems(h, id, b.Body, toks, b.OpenBraceRange.End.Byte, b.CloseBraceRange.Start.Byte)
	}
	for _, t := range toks {
		if t.Range.Start.Byte < from || t.Range.End.Byte > to || t.Type == hclsyntax.TokenNewline || t.Type == hclsyntax.TokenComment || t.Type == hclsyntax.TokenEOF {
			continue
		}
		if covered(t.Range, seen) || t.Type == hclsyntax.TokenCParen {
			continue
		}
		h.fail("%s: no error, but token %s %q at %s is in no item", id, t.Type, t.Bytes, t.Range)
		return
	}
}

func TestVerifP05(t *testing.T) {
	h := newVH(t, "configurations, expressions, templates and traversals: all soups of up to 2 of 130 language fragments, random soups of up to 12, random valid texts with up to 2 damaged places and all their prefixes")
	defer h.done()
	for _, a := range soupParts {
		checkParse(h, a)
		for _, b := range soupParts {
			checkParse(h, a+b)
		}
	}
	for n := 0; h.more() && (n < 4000 || h.extended()); n++ {
		checkParse(h, h.soup(12))
		checkParse(h, h.mutate("x = "+h.randExpr(3, nil)+"\n"))
		checkParse(h, h.mutate(h.randExpr(3, nil)))
		c := h.randConfig(2, "")
		checkParse(h, h.mutate(c))
		if n%50 == 0 && len(c) < 200 {
			for i := range c {
				checkParse(h, c[:i])
			}
		}
		if h.fails > 0 {
			break
		}
		src := "v = " + h.randExpr(3, nil) + "\n"
		h.run("valid "+src, func() {
			_, diags := hclsyntax.ParseConfig([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() && !strings.Contains(src, ".0.1") { // legacy index syntax
				h.fail("valid %q: %s", src, diags)
			}
		})
	}
}
