#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe or [], hook_needed=None)))

p("P01","Source range operations agree with interval algebra",
"For every pair of well-formed source ranges (start not after end) in one file, covering, overlapping, partitioning, containment and emptiness tests, and slicing a buffer by a range, give exactly the result of half-open byte-interval algebra. Two ranges are reported as overlapping only if they share at least one byte, an overlap and the two remainders of a partition together tile the partitioned range, and slicing never panics and returns the bytes of the range clamped to the buffer.",
["inputs"],"all ranges (all integer offsets, lines, columns, file names) and all buffers",
"The unit tests try a dozen hand-picked ranges; the claim is about all offsets including empty, adjacent, nested and out-of-buffer ranges.",
["hcl/pos.go"],[("RangeBetween/RangeOver","hcl/pos.go"),("Overlap/Overlaps/PartitionAround","hcl/pos.go"),("CanSliceBytes/SliceBytes/ContainsPos/ContainsOffset/Empty","hcl/pos.go")],
observe=["hcl.Range methods"])

p("P02","Range scanner tiles its buffer with exact source ranges",
"Scanning any buffer with any splitting function whose tokens begin at the first byte it consumes, from any start position, yields tokens whose ranges start where the bytes consumed before end, never step backwards, start at the given position, and advance by exactly the bytes the splitter consumed. Line numbers advance by one per newline and columns count characters since the last newline, and the bytes handed out are those at the reported offsets.",
["inputs","programs"],"all buffers, all split functions obeying the bufio contract, all start positions",
"Tests scan a few short strings with one splitter from position zero; offsets that differ from the buffer index are never exercised.",
["hcl/pos_scanner.go"],[("Scan loop position accounting","hcl/pos_scanner.go")],
[("pos","position of the next unread byte","RangeScanner.pos"),("cur","range of the last token","RangeScanner.cur")],["RangeScanner.Scan/Range/Bytes/Err"])

p("P03","Diagnostic lists report errors exactly and never lose entries",
"A diagnostics list says it has errors exactly when at least one entry has error severity. Appending or extending yields a list that holds all earlier entries unchanged, in order, followed by the new ones, and the list of plain errors holds exactly the error-severity entries in order.",
["inputs","histories"],"all diagnostics lists and all sequences of append/extend",
"Every caller decides success or failure through these operations, but tests only cover one- and two-element lists.",
["hcl/diagnostic.go"],[("HasErrors/Append/Extend/Errs/Error","hcl/diagnostic.go")],observe=["hcl.Diagnostics methods"])

p("P04","Lexing is lossless and token positions are exact",
"For every input buffer and start position, the native lexer returns without panicking a token list that ends in exactly one end-of-file token, whose ranges are in order, do not overlap and cover every input byte except skipped spaces and a leading byte-order mark, with each token's bytes equal to the source at its range. Line and column numbers equal a recount of newlines and characters from the start position, token by token, and an input containing an invalid character always produces an error diagnostic.",
["inputs"],"all byte strings, all start positions, all three lexing modes",
"The scanner is a generated state machine with over a thousand states; table tests cover a few hundred inputs, mostly valid ones.",
["hcl/hclsyntax/scan_tokens.go","hcl/hclsyntax/token.go","hcl/hclsyntax/public.go"],
[("emitToken position accounting","hcl/hclsyntax/token.go"),("checkInvalidTokens","hcl/hclsyntax/token.go"),("scanTokens state machine","hcl/hclsyntax/scan_tokens.rl")],
[("Pos","position after the last token","tokenAccum.Pos")],["LexConfig","LexExpression","LexTemplate"])

p("P05","Native syntax parsers are total",
"For every input buffer the configuration, expression, template and traversal parsers return without panicking or looping forever, and always return a usable non-nil result together with diagnostics. Parsing consumes tokens monotonically and leaves the newline-sensitivity stack exactly as it found it on every path, including error recovery, and whenever the result is incomplete at least one error diagnostic is returned.",
["inputs"],"all byte strings",
"Only inputs written down in tables are parsed by the tests; error recovery has dozens of paths and a single unbalanced push or missing progress step panics or hangs on inputs nobody wrote down.",
["hcl/hclsyntax/parser.go","hcl/hclsyntax/parser_template.go","hcl/hclsyntax/parser_traversal.go","hcl/hclsyntax/peeker.go","hcl/hclsyntax/public.go"],
[("newline stack push/pop","hcl/hclsyntax/peeker.go"),("recovery routines","hcl/hclsyntax/parser.go")],
[("NextIndex","next token to read","peeker.NextIndex"),("IncludeNewlinesStack","newline sensitivity","peeker.IncludeNewlinesStack")],
["ParseConfig","ParseExpression","ParseTemplate","ParseTraversalAbs"])

p("P06","JSON syntax parser is total and accepts exactly JSON",
"For every input buffer the JSON configuration parser returns without panicking or looping forever, and returns a usable file or an error diagnostic. It reports no error only if the input is one valid JSON document whose top level is allowed, every valid JSON object whose numbers can be represented is accepted, and the parsed property names, strings, numbers, booleans and nesting are those the JSON standard assigns to the text.",
["inputs"],"all byte strings",
"Tests contain a few dozen JSON snippets; truncated, mismatched or invalid-byte inputs reach recovery loops whose termination no test establishes.",
["hcl/json/parser.go","hcl/json/scanner.go","hcl/json/peeker.go","hcl/json/public.go"],
[("token peeker bounds","hcl/json/peeker.go"),("recover closures","hcl/json/parser.go"),("scan*","hcl/json/scanner.go")],
[("pos","next token index","peeker.pos")],["json.Parse"])

p("P07","Native body content matches its schema exactly",
"Extracting content from a native-syntax body returns exactly the schema's attributes that are defined and not already consumed, and exactly the blocks of schema types with the right number of labels, in source order; every missing required attribute and every label-count mismatch gives an error. Full extraction additionally reports an error for each item the schema does not mention, and the remaining body of a partial extraction exposes exactly the items not yet consumed. Extraction never modifies the body.",
["inputs","histories"],"all bodies, all schemas, all sequences of partial extractions",
"Tests cover a table of small bodies; the partition between consumed and remaining items must hold for any chain of schemas.",
["hcl/hclsyntax/structure.go"],[("PartialContent/Content/JustAttributes","hcl/hclsyntax/structure.go")],
[("hiddenAttrs/hiddenBlocks","items consumed by earlier partial extractions","Body")],["Body.Content","Body.PartialContent","Body.JustAttributes"])

p("P08","JSON body content matches its schema exactly",
"Extracting content from a JSON body treats each object property (of the body's object, or of each object in its array) as the attribute or blocks the schema names: exactly the defined schema attributes come back once each, duplicates and missing required attributes give errors, and blocks are produced one per object at the schema's label depth with labels equal to the property path. Full extraction reports an error for every property the schema does not mention except comment properties, and the remaining body exposes exactly the unconsumed properties.",
["inputs","histories"],"all JSON documents, all schemas, all sequences of partial extractions",
"The mapping of nested objects and arrays to labelled blocks has unboundedly many shapes, and the label slices are shared between recursive calls; tests check a handful.",
["hcl/json/structure.go"],[("PartialContent/Content/JustAttributes","hcl/json/structure.go"),("unpackBlock/collectDeepAttrs","hcl/json/structure.go")],
[("hiddenAttrs","properties consumed earlier","body")],["hcl.Body methods of JSON files"])

p("P09","Merged bodies behave as the union of their parts",
"A body merged from several files yields each requested attribute defined in any part, all requested blocks of all parts in part order, and an error for every attribute defined in more than one part and every required attribute defined in none, and otherwise exactly the diagnostics of the parts. The remaining body of a partial extraction is the merge of the remaining bodies of the parts, and merging an empty list gives a body with no content.",
["inputs","histories"],"any number of parts of any body type, all schemas",
"Tests merge at most three mock bodies.",
["hcl/merged.go"],[("mergedContent","hcl/merged.go"),("JustAttributes/MissingItemRange","hcl/merged.go")],observe=["hcl.MergeBodies","hcl.MergeFiles"])

p("P10","Packed bodies match schemas exactly and evaluate independently",
"Extracting content from a packed body returns exactly the defined schema attributes and the schema-typed blocks with matching label counts, errors for missing required attributes, wrong label counts and (in full extraction) unmentioned items, and a remaining body with exactly the unmentioned items. Each returned attribute carries its own name, ranges and expression, in every extraction mode.",
["inputs","histories"],"all packed bodies, schemas and sequences of partial extractions",
"Tests use bodies with one attribute of each kind; sharing between returned attributes shows only with two or more.",
["hclpack/structure.go"],[("content/PartialContent/JustAttributes","hclpack/structure.go")],observe=["hclpack.Body methods"])

p("P11","Dynamic block expansion yields one block per element, in order",
"Expanding a body replaces each dynamic block by one block of the requested type per element of its collection, in iteration order and interleaved with literal blocks in source order, with the iterator's key and value visible in labels, nested dynamic blocks and attributes, including when only attributes are requested. Items consumed by an earlier partial extraction do not reappear and others are not lost, a null or non-iterable collection is an error, and an unknown collection yields one placeholder block with unknown attribute values. Every variable needed for expansion is reported by the variable walk.",
["inputs","histories","programs"],"all bodies, collections, schemas and nesting depths",
"Tests check fixed two-level examples with mock bodies.",
["ext/dynblock/expand_body.go","ext/dynblock/expand_spec.go","ext/dynblock/iteration.go","ext/dynblock/variables.go","ext/dynblock/expr_wrap.go","ext/dynblock/unknown_body.go"],
[("expandBlocks/decodeSpec/newBlock","ext/dynblock"),("prepareAttributes/extendSchema","ext/dynblock/expand_body.go"),("MakeChild/EvalContext","ext/dynblock/iteration.go")],
[("hiddenAttrs/hiddenBlocks","consumed items","expandBody"),("iteration","iterators in scope","expandBody")],["dynblock.Expand","dynblock.WalkVariables"])

p("P12","Expression evaluation never panics and has no side effects",
"Evaluating any expression the native or JSON parser can produce, in any evaluation context including a nil one and with null, unknown or wrongly typed values, returns a value and diagnostics without panicking. Evaluation leaves the expression, the context and its variables unchanged, so evaluating again gives the same result.",
["programs","inputs","histories"],"all expressions, all contexts and values, repeated evaluation",
"Each operation of the value library panics outside its precondition (null, unknown, wrong type); the tests cover some hundred expression/value pairs out of an unbounded product.",
["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_template.go","hcl/hclsyntax/expression_ops.go","hcl/hclsyntax/expression_vars.go","hcl/json/structure.go"],
[("null/unknown/type checks before value operations","hcl/hclsyntax/expression*.go"),("anonymous symbol set/clear","hcl/hclsyntax/expression.go")],
[("values","per-context element of a splat","AnonSymbolExpr")],["Expression.Value"])

p("P13","Index, attribute access and traversal obey null and unknown rules",
"Indexing a value, reading an attribute, applying a path and following a traversal never panic for any combination of values: a null or wrongly typed receiver, a null or unconvertible key, and a missing element give an error diagnostic and an unknown result, an unknown receiver or key of suitable type gives an unknown result without error, and otherwise the element itself is returned without diagnostics. A traversal finds its root in the innermost scope that defines the name and fails with an error if none does, and joining or splitting traversals preserves all steps.",
["inputs"],"all values, keys, paths, traversals and nested scopes",
"The product of value kinds, key kinds, null and unknown flags is far larger than the test tables.",
["hcl/ops.go","hcl/traversal.go","hcl/traversal_for_expr.go"],[("Index/GetAttr/ApplyPath","hcl/ops.go"),("TraverseAbs/TraverseRel/TraversalStep","hcl/traversal.go"),("SimpleSplit/TraversalJoin/RootName","hcl/traversal.go")],
observe=["hcl.Index","hcl.GetAttr","hcl.ApplyPath","hcl.Traversal methods"])

p("P14","Reported variables cover everything evaluation reads",
"The list of variables an expression reports contains every root variable that evaluating it can look up in the caller's scope, and no name that is bound inside the expression itself at that point. Supplying exactly the reported variables therefore evaluates the expression to the same result as supplying any larger scope. The same holds for JSON expressions and for specification-driven decoding of whole bodies.",
["programs","inputs"],"all expressions, all scopes, all decoding specifications",
"Applications build minimal scopes from this list; the tests compare fixed expressions with expected lists.",
["hcl/hclsyntax/variables.go","hcl/hclsyntax/walk.go","hcl/hclsyntax/expression_vars.go","hcl/hclsyntax/expression.go","hcl/hclsyntax/structure.go","hcl/json/structure.go","hcldec/variables.go","hcldec/spec.go"],
[("walkChildNodes visits every child","hcl/hclsyntax/expression*.go"),("ChildScope shadowing","hcl/hclsyntax/variables.go")],
[("localScopes","names bound inside the expression","variablesWalker")],["Expression.Variables","hcldec.Variables"])

p("P15","Formatting changes only horizontal whitespace",
"Formatting any source buffer, or any token sequence, keeps the sequence of tokens, their kinds and their bytes, and changes only the number of spaces before tokens, which is never negative. For a buffer that parses without errors the formatted text parses without errors to the same structure, and a trailing end-of-file token never loses its place.",
["inputs"],"all byte strings and token sequences",
"Format rewrites user files in place; tests cover a table of snippets while the line, cell and bracket logic indexes into slices for arbitrary token orders.",
["hclwrite/format.go","hclwrite/public.go","hclwrite/tokens.go"],[("linesForFormat/formatIndent/formatSpaces/formatCells","hclwrite/format.go"),("spaceAfterToken","hclwrite/format.go")],
observe=["hclwrite.Format","hclwrite.TokensForValue"])

p("P16","Reading a file for editing and writing it back loses nothing",
"For every source buffer that parses without errors, loading it for editing succeeds without panicking and the resulting syntax tree holds every token of the source exactly once and in order, so that writing the unmodified tree produces the same non-space bytes as the source. Splitting tokens by a range yields three consecutive parts that concatenate to the original.",
["inputs"],"all valid source buffers",
"Tests load a few dozen snippets; the partition logic relies on every range being aligned with tokens for every construct nested in every other.",
["hclwrite/parser.go","hclwrite/node.go","hclwrite/ast.go","hclwrite/tokens.go"],
[("partitionTokens and friends","hclwrite/parser.go"),("parseBody/parseAttribute/parseBlock/parseExpression","hclwrite/parser.go"),("node list","hclwrite/node.go")],
[("children","ordered node list","inTree")],["hclwrite.ParseConfig","File.Bytes"])

p("P17","Edits to a syntax tree change exactly what was asked",
"After any sequence of attribute sets, block appends, newline appends and clears, the written output contains exactly the items the history implies: setting an attribute replaces only its expression or appends one new item, appending adds at the end, clearing empties the body, and everything else is written unchanged and in order. Each edit returns the item it created or changed, and the lookup methods agree with the written output.",
["histories","inputs"],"all edit histories on all loaded or new files",
"Linked-list surgery must keep first, last, before and after links consistent across any history; tests perform one edit per case.",
["hclwrite/node.go","hclwrite/ast_body.go","hclwrite/ast_attribute.go","hclwrite/ast_block.go","hclwrite/ast_expression.go"],
[("Append/AppendNode/Detach/ReplaceWith/Clear","hclwrite/node.go"),("SetAttributeValue/SetAttributeTraversal/AppendBlock","hclwrite/ast_body.go")],
[("first/last/before/after","list links","nodes,node"),("items","attribute and block nodes","Body.items")],["hclwrite.Body methods","File.Bytes"])

p("P18","Literal values and references survive writing and parsing",
"Tokens generated for any known value of primitive, list, set, tuple, map or object type, when parsed as an expression and evaluated, give the value back (up to the documented loss of collection types and the number's own precision), for every string content including quotes, backslashes, control characters and template introducers. Tokens generated for a traversal with string or non-negative number keys parse back to the same steps.",
["inputs"],"all known values, all strings, all traversals",
"Escaping must be the exact inverse of the scanner's and parser's unescaping for every sequence of characters, especially sequences mixing dollar, percent and brace characters.",
["hclwrite/generate.go","hcl/hclsyntax/parser.go","hcl/hclsyntax/scan_string_lit.go"],[("escapeQuotedStringLit","hclwrite/generate.go"),("appendTokensForValue/appendTokensForTraversal","hclwrite/generate.go"),("decodeStringLit","hcl/hclsyntax/parser.go")],
observe=["hclwrite.TokensForValue","hclwrite.TokensForTraversal"])

p("P19","Packed files survive serialisation unchanged",
"Packing any native file and serialising it, then deserialising, gives a packed body equal to the original, including every source range and file name, for any positions in any number of files. Deserialising arbitrary bytes returns a body or an error and never panics.",
["inputs"],"all packed bodies, all position sets, all serialised inputs",
"Positions are delta- and variable-length-encoded in a shared table; tests round-trip two small files.",
["hclpack/positions_packed.go","hclpack/vlq.go","hclpack/json_marshal.go","hclpack/pack_native.go"],
[("packPositions/Unpack","hclpack/positions_packed.go"),("MarshalBinary/UnmarshalBinary","hclpack/positions_packed.go"),("forJSON/decode","hclpack/json_marshal.go")],
[("posOfs","one-based index into the position table","rangePacked")],["hclpack.Body MarshalJSON/UnmarshalJSON"])

p("P20","Decoding by specification conforms to the implied type",
"Decoding any body with any specification returns without panicking a value that conforms to the type the specification announces, except where an error diagnostic is returned or the specification itself allows any type. Errors are reported for missing required attributes and blocks and for item counts outside the stated limits, and defaults and transforms apply exactly when stated.",
["inputs","programs"],"all bodies, specifications and evaluation contexts",
"The value library panics on inconsistent element types, and the combinations of nested specifications are unbounded; tests check about thirty pairs.",
["hcldec/spec.go","hcldec/decode.go","hcldec/public.go","hcldec/schema.go"],[("decode methods","hcldec/spec.go"),("impliedType methods","hcldec/spec.go"),("ImpliedSchema","hcldec/schema.go")],
observe=["hcldec.Decode","hcldec.PartialDecode","hcldec.ImpliedType"])

p("P21","Type expressions round-trip and reject everything else",
"Every type built from primitives, any, lists, sets, maps, tuples and objects with identifier keys is rendered to text that parses back to the same type. Any expression that is not such a type expression gives an error diagnostic, exact type parsing rejects the wildcard keyword at any depth, and no expression makes it panic.",
["inputs","programs"],"all types, all expressions",
"Types nest arbitrarily; tests cover one or two levels.",
["ext/typeexpr/get_type.go","ext/typeexpr/public.go"],[("getType","ext/typeexpr/get_type.go"),("TypeString","ext/typeexpr/public.go")],observe=["typeexpr.Type","typeexpr.TypeConstraint","typeexpr.TypeString"])

p("P22","Position lookups return the construct at that position",
"For every native-syntax file and position, each lookup (outermost block, innermost block, all blocks, attribute, outermost expression) returns nothing or a construct whose source range contains the position, finds one whenever such a construct exists, and the list of blocks is nested from outermost to innermost with the first and last equal to the outermost and innermost lookups. Editor context lookups never panic for any offset.",
["inputs"],"all files, all positions",
"Tests probe a few dozen positions in one file.",
["hcl/hclsyntax/structure_at_pos.go","hcl/hclsyntax/navigation.go","hcl/structure_at_pos.go","hcl/json/navigation.go","hcled/navigation.go"],[("blocksAtPos/outermostBlockAtPos/attributeAtPos/outermostExprAtPos","hcl/hclsyntax/structure_at_pos.go")],observe=["hcl.File *AtPos","hcled.ContextString"])

p("P23","Static analysis of expressions agrees with their meaning",
"When static analysis presents an expression as a list, a map, a call, a keyword or a traversal, evaluating the presented parts reproduces what evaluating the expression itself gives; when the expression is none of these an error is returned. Analysis works through any depth of wrapper expressions, never panics and does not modify the expression; a JSON string is analysed as the native expression it contains, the literals true, false and null may be presented as keywords, and an object key presented as a keyword means the string of that name.",
["programs","inputs"],"all expressions of both syntaxes and all wrappers",
"Tests check one example of each form.",
["hcl/expr_list.go","hcl/expr_map.go","hcl/expr_call.go","hcl/expr_unwrap.go","hcl/traversal_for_expr.go","hcl/hclsyntax/expression.go","hcl/json/structure.go"],
[("ExprList/ExprMap/ExprCall/AsTraversal implementations","hcl/hclsyntax/expression.go"),("UnwrapExpressionUntil","hcl/expr_unwrap.go")],observe=["hcl.ExprList","hcl.ExprMap","hcl.ExprCall","hcl.AbsTraversalForExpr","hcl.ExprAsKeyword"])

p("P24","The file registry returns each file once and never forgets one",
"A parser's registry returns the same file object for every later request for a name it has already parsed, reports diagnostics only for the first request, and lists exactly the files parsed or added with their sources. A file that cannot be read gives an error and leaves the registry usable.",
["histories","fault_sequences"],"all sequences of parse, add and list calls including read failures",
"Tests call each method at most once.",
["hclparse/parser.go"],[("files map","hclparse/parser.go")],[("files","parsed files by name","Parser.files")],["hclparse.Parser methods"])

p("P25","Unknown inputs never change a known result",
"If evaluating an expression with some variables unknown gives a known value without errors, then evaluating it with any concrete values of the same types in their place gives that same value.",
["inputs","programs"],"all expressions and all refinements of unknown values",
"It relates two evaluations of the same expression for all refinements of the inputs.",
["hcl/hclsyntax/expression.go","hcl/ops.go"],[("unknown propagation","hcl/hclsyntax/expression.go")],observe=["Expression.Value"])

p("P26","Decoding into Go structs fills exactly the tagged fields",
"Decoding a body into a tagged Go struct sets exactly the fields whose tags name present items, reports errors for missing required items, and never panics for any supported struct type.",
["inputs","programs"],"all struct types and bodies",
"Struct shapes are unbounded and handled by reflection.",
["gohcl/decode.go","gohcl/schema.go","gohcl/encode.go"],[("reflection over struct tags","gohcl/schema.go")],observe=["gohcl.DecodeBody"])

p("P27","Expressions can be evaluated concurrently",
"Evaluating the same expression from several goroutines with different evaluation contexts gives each goroutine the result it would get alone.",
["schedules"],"all interleavings of concurrent evaluations",
"Schedules cannot be enumerated by tests.",
["hcl/hclsyntax/expression.go"],[("mutex in AnonSymbolExpr","hcl/hclsyntax/expression.go")],observe=["Expression.Value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
