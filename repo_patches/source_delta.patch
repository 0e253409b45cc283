From 9507245b44b8e14156e58d5fa4f564fc7629eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:17 +0000
Subject: [PATCH 01/23] fix: do not report touching source ranges as
 overlapping

The end of a range is exclusive, but Overlaps tested whether the end
offset of one range is inside the other. Two ranges that only touch were
reported as overlapping.
---
 hcl/pos.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hcl/pos.go b/hcl/pos.go
index 06db8bf..61ccece 100644
--- a/hcl/pos.go
+++ b/hcl/pos.go
@@ -202,9 +202,9 @@ func (r Range) Overlaps(other Range) bool {
 	case r.Empty() || other.Empty():
 		// Empty ranges can never overlap
 		return false
-	case r.ContainsOffset(other.Start.Byte) || r.ContainsOffset(other.End.Byte):
-		return true
-	case other.ContainsOffset(r.Start.Byte) || other.ContainsOffset(r.End.Byte):
+	case r.ContainsOffset(other.Start.Byte) || other.ContainsOffset(r.Start.Byte):
+		// The end of a range is exclusive, so two ranges that merely touch
+		// do not overlap.
 		return true
 	default:
 		return false
-- 
2.43.0


From 8b6d53b1d0d5d8b6c1fa334bfb635f5133676ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:43 +0000
Subject: [PATCH 02/23] fix: make RangeScanner handle fragments and very long
 characters

A scanner created for a fragment used the absolute start offset as an
index into the fragment, so it stopped early or read the wrong bytes.
A single character longer than 64 KiB made the inner bufio.Scanner fail,
so the scanner never advanced past it.
---
 hcl/pos_scanner.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..f21a338 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -2,7 +2,6 @@ package hcl
 
 import (
 	"bufio"
-	"bytes"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 )
@@ -21,6 +20,7 @@ import (
 type RangeScanner struct {
 	filename string
 	b        []byte
+	base     int // byte offset of b[0], in the same terms as pos.Byte
 	cb       bufio.SplitFunc
 
 	pos Pos    // position of next byte to process in b
@@ -50,13 +50,15 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 	return &RangeScanner{
 		filename: filename,
 		b:        b,
+		base:     start.Byte,
 		cb:       cb,
 		pos:      start,
 	}
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	rest := sc.pos.Byte - sc.base // index into b of the next byte to process
+	if rest >= len(sc.b) || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +66,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(sc.b[rest:], true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,17 +94,15 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := sc.b[rest : rest+advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
 	// can correctly advance Line.
-	advR := bytes.NewReader(adv)
-	gsc := bufio.NewScanner(advR)
 	advanced := 0
-	gsc.Split(textseg.ScanGraphemeClusters)
-	for gsc.Scan() {
-		gr := gsc.Bytes()
+	for len(adv) > 0 {
+		n, gr, _ := textseg.ScanGraphemeClusters(adv, true)
+		adv = adv[n:]
 		new.Byte += len(gr)
 		new.Column++
 
-- 
2.43.0


From 49ca23f84dfb8706ccc2674165301db8812e0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:03 +0000
Subject: [PATCH 03/23] fix: do not report consumed blocks when reading the
 rest of a body as attributes

After a partial extraction the remaining body hides the items already
consumed. JustAttributes looked at all blocks regardless and so complained
about blocks the caller had already taken.
---
 hcl/hclsyntax/structure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..2e8c302 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +264,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From 8d366f9c07c5f09a96da4d02bcd3c65cb012f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:13 +0000
Subject: [PATCH 04/23] fix: give each attribute of a packed body its own
 expression

JustAttributes took the address of the loop variable, so every returned
attribute ended up with the expression of whichever attribute came last.
The ranges in its diagnostics were shared in the same way.
---
 hclpack/structure.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..54cd783 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -195,6 +195,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
+			block := block // the diagnostic refers to its range
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
@@ -212,6 +213,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // the result refers to its expression
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From b5e98de48c78e89e1b9baf3c78b710c30c662acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:21 +0000
Subject: [PATCH 05/23] fix: give an attribute-only splat without further steps
 a proper range end

An expression such as m.* had a source range whose end position was zero.
---
 hcl/hclsyntax/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..bddb3da 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -670,6 +670,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range // used if no traversal steps follow
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
-- 
2.43.0


From f66c8b0f820d276ea1ecdd89b68aa069229c3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:55 +0000
Subject: [PATCH 06/23] fix: do not record a JSON file that could not be read

---
 hclparse/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..7e1f4f3 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,7 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
-	p.files[filename] = file
+	if file != nil {
+		p.files[filename] = file
+	}
 	return file, diags
 }
 
-- 
2.43.0


From a8539eae7baa4a288cf2941d93eaf6441b8d07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:56 +0000
Subject: [PATCH 07/23] fix: end the JSON token sequence after an invalid token

---
 hcl/json/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..a8fdbe6 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -17,6 +17,15 @@ func parseFileContent(buf []byte, filename string) (node, hcl.Diagnostics) {
 			Column: 1,
 		},
 	})
+	// The scanner stops at an invalid character, but the parser relies on
+	// finding an end-of-file token when it recovers from errors.
+	if last := tokens[len(tokens)-1]; last.Type != tokenEOF {
+		end := pos{Filename: filename, Pos: last.Range.End}
+		tokens = append(tokens, token{
+			Type:  tokenEOF,
+			Range: posRange(end, end),
+		})
+	}
 	p := newPeeker(tokens)
 	node, diags := parseValue(p)
 	if len(diags) == 0 && p.Peek().Type != tokenEOF {
-- 
2.43.0


From fce580f07cb322d3ef8fe14522c017b63013a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:57 +0000
Subject: [PATCH 08/23] fix: end a JSON string at a quote inside a grapheme
 cluster

---
 hcl/json/scanner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hcl/json/scanner.go b/hcl/json/scanner.go
index da72884..f5fb345 100644
--- a/hcl/json/scanner.go
+++ b/hcl/json/scanner.go
@@ -219,6 +219,14 @@ Byte:
 			// Ignoring error because this scanner cannot produce errors.
 			advance, _, _ := textseg.ScanGraphemeClusters(buf[i:], true)
 
+			// Some characters form a cluster with whatever follows them,
+			// which must not hide a closing quote or an escape.
+			for j := 1; j < advance; j++ {
+				if buf[i+j] == '"' || buf[i+j] == '\\' {
+					advance = j
+				}
+			}
+
 			p.Pos.Byte += advance
 			p.Pos.Column++
 			i += advance
-- 
2.43.0


From 4d0c2bceea1341455a9aaba17936b5cc695992de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:57 +0000
Subject: [PATCH 09/23] fix: report an argument error for an expanded argument
 without panicking

---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..7c5a475 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -393,7 +393,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 982d3f63b022e6bd755a47e94a7bafc1540caf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:59 +0000
Subject: [PATCH 10/23] fix: give a splat with results of different types a
 tuple value

---
 hcl/hclsyntax/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7c5a475..c50639c 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1370,6 +1370,14 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			diags = append(diags, tyDiags...)
 			return cty.ListValEmpty(ty.ElementType()), diags
 		}
+		for _, val := range vals {
+			if !val.Type().Equals(vals[0].Type()) {
+				// The type of a nested splat depends on whether its source
+				// is null, so the results can differ in type and then only
+				// a tuple can represent them.
+				return cty.TupleVal(vals), diags
+			}
+		}
 		return cty.ListVal(vals), diags
 	default:
 		return cty.TupleVal(vals), diags
-- 
2.43.0


From 2611698b3af3ae9db931a6e332d1b8bb309e37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:00 +0000
Subject: [PATCH 11/23] fix: report conditional results whose types cannot be
 unified without panicking

---
 hcl/hclsyntax/expression.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index c50639c..ab3eac8 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -499,7 +499,7 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 
 	default:
 		// Try to find a type that both results can be converted to.
-		resultType, convs = convert.UnifyUnsafe([]cty.Type{trueResult.Type(), falseResult.Type()})
+		resultType, convs = unifyResultTypes(trueResult.Type(), falseResult.Type())
 	}
 
 	if resultType == cty.NilType {
@@ -603,6 +603,20 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 	}
 }
 
+// unifyResultTypes finds a type that both of the given types can be converted
+// to, along with the conversions, or returns cty.NilType if there is none.
+//
+// Unification panics for some tuple types that have no type in common, which
+// we report in the same way as any other pair of inconsistent types.
+func unifyResultTypes(a, b cty.Type) (ty cty.Type, convs []convert.Conversion) {
+	defer func() {
+		if r := recover(); r != nil {
+			ty, convs = cty.NilType, nil
+		}
+	}()
+	return convert.UnifyUnsafe([]cty.Type{a, b})
+}
+
 func (e *ConditionalExpr) Range() hcl.Range {
 	return e.SrcRange
 }
-- 
2.43.0


From 220659813fe4c4cd03bd94c072bae0d1d8c2276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 12/23] fix: do not present a call with an expanded argument as
 a static call

---
 hcl/hclsyntax/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index ab3eac8..ebd7e79 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -441,6 +441,11 @@ func (e *FunctionCallExpr) StartRange() hcl.Range {
 
 // Implementation for hcl.ExprCall.
 func (e *FunctionCallExpr) ExprCall() *hcl.StaticCall {
+	if e.ExpandFinal {
+		// A static call has no way to represent the expansion of its final
+		// argument.
+		return nil
+	}
 	ret := &hcl.StaticCall{
 		Name:      e.Name,
 		NameRange: e.NameRange,
-- 
2.43.0


From c390737d466263fd9a08bce8303ecebb89b351c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:16 +0000
Subject: [PATCH 13/23] fix: render an object attribute named "for" so that the
 type parses back

---
 ext/typeexpr/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..5f4a363 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -97,6 +97,10 @@ func TypeString(ty cty.Type) string {
 				// Using Go-style quoting here isn't perfect, since it doesn't
 				// exactly match HCL syntax, but it's fine for an edge-case.
 				buf.WriteString(fmt.Sprintf("%q", name))
+			} else if first && name == "for" {
+				// Directly after the opening brace this would be taken for
+				// the start of a "for" expression.
+				buf.WriteString("(for)")
 			} else {
 				buf.WriteString(name)
 			}
-- 
2.43.0


From 0db14820da6802e59265dd60da5d790e63d34fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:39 +0000
Subject: [PATCH 14/23] fix: keep tokens apart that would join into other
 tokens when formatted

---
 hclwrite/format.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..9a513b3 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -235,6 +235,18 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Without a space this would read as a single number
+		return true
+
+	case (subject.Type == hclsyntax.TokenDot || subject.Type == hclsyntax.TokenEllipsis) && (after.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenEllipsis):
+		// Without a space consecutive dots could read as an ellipsis
+		return true
+
+	case (subject.Type == hclsyntax.TokenTemplateInterp || subject.Type == hclsyntax.TokenTemplateControl) && after.Type == hclsyntax.TokenTemplateSeqEnd && len(after.Bytes) > 1:
+		// Without a space the strip marker would belong to the opening
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From 19fb25887ce38a2a3d99af13c9ee984b27ebd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:40 +0000
Subject: [PATCH 15/23] fix: keep every token of an attribute when a file is
 loaded for editing

---
 hclwrite/parser.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..47c0e19 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -149,6 +149,15 @@ func (it inputTokens) Slice(start, end int) inputTokens {
 	}
 }
 
+func (it inputTokens) hasType(ty hclsyntax.TokenType) bool {
+	for _, t := range it.writerTokens {
+		if t.Type == ty {
+			return true
+		}
+	}
+	return false
+}
+
 func (it inputTokens) Len() int {
 	return len(it.nativeTokens)
 }
@@ -254,10 +263,11 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// Everything else is the expression. We can't rely on the expression's own
+	// range here because it doesn't include any enclosing parentheses, and for
+	// some operators doesn't include all of the operands.
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		exprNode := parseExpression(nativeAttr.Expr, from)
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
@@ -270,9 +280,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
@@ -404,6 +411,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if from.hasType(hclsyntax.TokenDot) && !from.hasType(hclsyntax.TokenOBrack) {
+			// Legacy index syntax, like foo.0
+			inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(inBefore.Tokens())
+			step.key = children.Append(newNumber(token))
+			children.AppendUnstructuredTokens(inAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -421,6 +437,9 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			// Not a usable key, but we must still preserve its tokens.
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From 4e748610f6a2649bf9de1382d18c63845629ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:41 +0000
Subject: [PATCH 16/23] fix: update the ends of the list when its first or last
 node is replaced

---
 hclwrite/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..06f6ada 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -77,6 +77,12 @@ func (n *node) ReplaceWith(c nodeContent) *node {
 	if after != nil {
 		after.before = nn
 	}
+	if list.first == n {
+		list.first = nn
+	}
+	if list.last == n {
+		list.last = nn
+	}
 	return nn
 }
 
-- 
2.43.0


From 7eaeec56db925748b1da41298cefa7830a90e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:41 +0000
Subject: [PATCH 17/23] fix: return the attribute created by SetAttributeValue
 and SetAttributeTraversal

---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..9438a93 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -96,7 +96,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -117,7 +117,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From 2efd7c62a05c19a5b32f626c641e787c2710642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:43 +0000
Subject: [PATCH 18/23] fix: forget the items of a body when it is cleared

---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 9438a93..e7777aa 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From 0ce570d9240e65c70c29b6a9e5e66a450874d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:44 +0000
Subject: [PATCH 19/23] fix: return the blocks of a body in the order they
 appear

---
 hclwrite/ast_body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index e7777aa..ccd5ce4 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -56,10 +56,11 @@ func (b *Body) Attributes() map[string]*Attribute {
 	return ret
 }
 
-// Blocks returns a new slice of all the blocks in the body.
+// Blocks returns a new slice of all the blocks in the body, in the order they
+// appear.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From 80cc58861141ff333554ce0f43996ecf898c1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:45 +0000
Subject: [PATCH 20/23] fix: start items appended to a body on a line of their
 own

---
 hclwrite/ast_body.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 hclwrite/node.go     | 16 ++++++++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 59 insertions(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index ccd5ce4..3775606 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// afterBrace is set if the body directly follows an opening brace, so that
+	// its own tokens must include the newline that follows the brace.
+	afterBrace bool
 }
 
 func newBody() *Body {
@@ -19,7 +23,42 @@ func newBody() *Body {
 	}
 }
 
+// startLine prepares the body for appending something that must be on lines
+// of its own, by completing the line that precedes it if necessary.
+func (b *Body) startLine() {
+	newline := func() Tokens {
+		return Tokens{
+			{
+				Type:  hclsyntax.TokenNewline,
+				Bytes: []byte{'\n'},
+			},
+		}
+	}
+	toks := b.children.BuildTokens(nil)
+	if b.afterBrace && !startsWithLineEnd(toks) {
+		b.children.Prepend(newline())
+	}
+	if len(toks) > 0 && !tokenIsNewline(toks[len(toks)-1]) {
+		b.children.Append(newline())
+	}
+}
+
+// startsWithLineEnd returns true if the given tokens begin with a newline,
+// possibly after some comments.
+func startsWithLineEnd(toks Tokens) bool {
+	for _, tok := range toks {
+		if tokenIsNewline(tok) {
+			return true
+		}
+		if tok.Type != hclsyntax.TokenComment {
+			return false
+		}
+	}
+	return false
+}
+
 func (b *Body) appendItem(c nodeContent) *node {
+	b.startLine()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -146,6 +185,9 @@ func (b *Body) AppendNewBlock(typeName string, labels []string) *Block {
 // which generally serves as a separator between different sets of body
 // contents.
 func (b *Body) AppendNewline() {
+	if b.afterBrace {
+		b.startLine()
+	}
 	b.AppendUnstructuredTokens(Tokens{
 		{
 			Type:  hclsyntax.TokenNewline,
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 06f6ada..49c1eed 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -124,6 +124,22 @@ func (ns *nodes) Append(c nodeContent) *node {
 	return n
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := &node{
+		content: c,
+		list:    ns,
+		after:   ns.first,
+	}
+	if ns.first != nil {
+		ns.first.before = n
+	}
+	ns.first = n
+	if ns.last == nil {
+		ns.last = n
+	}
+	return n
+}
+
 func (ns *nodes) AppendNode(n *node) {
 	if ns.last != nil {
 		n.before = ns.last
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 47c0e19..b4e0ca3 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -335,6 +335,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	bodyTokens, cBrace, from := from.Partition(nativeBlock.CloseBraceRange)
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
+	body.content.(*Body).afterBrace = true
 	block.body = body
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
-- 
2.43.0


From 02e65e88cd976e43712a06f3279333ae3c58d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:47 +0000
Subject: [PATCH 21/23] fix: return the tokens generated for a traversal and
 its index keys

---
 hclwrite/generate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..0d30b7b 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From a902036080127dba029fc67096306bb2509fdafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:48 +0000
Subject: [PATCH 22/23] fix: quote an object key named for when generating
 tokens

---
 hclwrite/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index 0d30b7b..9bc21d2 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,9 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// "for" must be quoted because directly after the opening brace it
+			// would be taken for the start of a "for" expression.
+			if hclsyntax.ValidIdentifier(eKey.AsString()) && eKey.AsString() != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
-- 
2.43.0


From cbeb3e1805eb6db6acbd3e061a1ec9f8428498b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:15 +0000
Subject: [PATCH 23/23] fix: do not accept a byte order mark as part of an
 identifier

---
 hcl/hclsyntax/public.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/public.go b/hcl/hclsyntax/public.go
index cf0ee29..020e68b 100644
--- a/hcl/hclsyntax/public.go
+++ b/hcl/hclsyntax/public.go
@@ -167,5 +167,7 @@ func ValidIdentifier(s string) bool {
 	// is easiest to do with our existing scanner-related infrastructure here
 	// and nobody should be validating identifiers in a tight loop.
 	tokens := scanTokens([]byte(s), "", hcl.Pos{}, scanIdentOnly)
-	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF
+	// The scanner skips a leading byte order mark, which can't be part of an
+	// identifier, so the identifier token must cover the whole string.
+	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF && len(tokens[0].Bytes) == len(s)
 }
-- 
2.43.0

