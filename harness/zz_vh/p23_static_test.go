package zz_vh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// wrapExpr is a wrapper expression of the kind the static analysis functions
// are documented to see through.
type wrapExpr struct{ hcl.Expression }

func (w wrapExpr) UnwrapExpression() hcl.Expression { return w.Expression }

// kwExpr reads the static forms and compares them with the value. The first
// argument is analysed; eval gives the meaning.
func checkStatic(h *vh, id string, e hcl.Expression, ctx *hcl.EvalContext, isKey bool) {
	before := snap(e)
	list, ld := hcl.ExprList(e)
	pairs, md := hcl.ExprMap(e)
	call, cd := hcl.ExprCall(e)
	kw := hcl.ExprAsKeyword(e)
	trav, td := hcl.AbsTraversalForExpr(e)
	rel, rd := hcl.RelTraversalForExpr(e)
	if snap(e) != before {
		h.fail("%s: analysis changed the expression", id)
		return
	}
	if ld.HasErrors() != (list == nil) || md.HasErrors() != (pairs == nil) || cd.HasErrors() != (call == nil) || td.HasErrors() != (trav == nil) || rd.HasErrors() != (rel == nil) {
		h.fail("%s: result and diagnostics disagree", id)
		return
	}
	n := 0
	for _, b := range []bool{list != nil, pairs != nil, call != nil, trav != nil} {
		if b {
			n++
		}
	}
	if n > 1 {
		h.fail("%s: more than one static form", id)
		return
	}
	val, vd := e.Value(ctx)
	same := func(what string, got cty.Value, bad bool) {
		if bad != vd.HasErrors() {
			h.fail("%s: %s: errors %t, expression errors %t (%s)", id, what, bad, vd.HasErrors(), diagKeys(vd))
		} else if !bad && !got.RawEquals(val) {
			h.fail("%s: %s gives %#v, expression %#v", id, what, got, val)
		}
	}
	switch {
	case list != nil:
		var vs []cty.Value
		bad := false
		for _, p := range list {
			v, d := p.Value(ctx)
			bad = bad || d.HasErrors()
			vs = append(vs, v)
		}
		same("list", cty.TupleVal(vs), bad)
	case pairs != nil:
		m := map[string]cty.Value{}
		bad, unknown := false, false
		for _, p := range pairs {
			kv, kd := p.Key.Value(ctx)
			v, d := p.Value.Value(ctx)
			bad = bad || kd.HasErrors() || d.HasErrors()
			ks, err := convert.Convert(kv, cty.String)
			if err != nil || ks.IsNull() {
				bad = true
				continue
			}
			if !ks.IsKnown() {
				unknown = true
				continue
			}
			m[ks.AsString()] = v
			checkStatic(h, id+" key", p.Key, ctx, true)
		}
		if unknown {
			if val != cty.DynamicVal {
				h.fail("%s: map with unknown key gives %#v", id, val)
			}
		} else if len(m) == len(pairs) {
			same("map", cty.ObjectVal(m), bad)
		}
	case call != nil:
		if ctx == nil || vd.HasErrors() {
			return
		}
		for c := ctx; c != nil; c = c.Parent() {
			if f, ok := c.Functions[call.Name]; ok {
				var vs []cty.Value
				for i, a := range call.Arguments {
					v, d := a.Value(ctx)
					if d.HasErrors() {
						h.fail("%s: call argument has errors, the call has none", id)
						return
					}
					if ps := f.Params(); i < len(ps) {
						v, _ = convert.Convert(v, ps[i].Type)
					} else if vp := f.VarParam(); vp != nil {
						v, _ = convert.Convert(v, vp.Type)
					}
					vs = append(vs, v)
				}
				v, err := f.Call(vs)
				same("call", v, err != nil)
				return
			}
		}
	case trav != nil:
		root := trav.RootName()
		if len(trav) == 1 && (kw != root) || len(trav) > 1 && kw != "" {
			h.fail("%s: keyword %q, traversal %q of %d steps", id, kw, root, len(trav))
			return
		}
		if len(rel) != len(trav) {
			h.fail("%s: relative traversal of %d steps, absolute %d", id, len(rel), len(trav))
			return
		}
		if a, ok := rel[0].(hcl.TraverseAttr); !ok || a.Name != root {
			h.fail("%s: relative traversal starts with %#v", id, rel[0])
			return
		}
		if isKey {
			if len(trav) == 1 && (vd.HasErrors() || !val.RawEquals(cty.StringVal(root))) {
				h.fail("%s: key %q gives %#v", id, root, val)
			}
			return
		}
		if len(trav) == 1 {
			switch root {
			case "true":
				same("keyword", cty.True, false)
				return
			case "false":
				same("keyword", cty.False, false)
				return
			case "null":
				same("keyword", cty.NullVal(cty.DynamicPseudoType), false)
				return
			}
		}
		v, d := trav.TraverseAbs(ctx)
		same("traversal", v, d.HasErrors())
	default:
		if kw != "" {
			h.fail("%s: keyword %q without a traversal", id, kw)
		}
	}
}

func TestVerifP23(t *testing.T) {
	h := newVH(t, "random expressions of depth up to 3, bare and inside up to 3 wrappers, and their JSON string forms, in random contexts")
	defer h.done()
	p := hcl.Pos{Line: 1, Column: 1}
	fixed := []string{"[]", "[1, s]", "{}", "{a = 1, (s) = 2}", "{a.b = 1}", "upper(s)", "upper()", "min(l...)", "a", "s", "o.a", "l[0]", "m[\"a\"]", "true", "null", "false", "1", "\"x\"", "s + 1", "(s)", "(o).a", "o[\"name\"][0]", "[for x in l: x]", "{for x in l: x => x}", "l[*]", "l.*.a", "\"${s}\"", "{true = 1, null = 2}", "fail(1)", "null.a", "true[0]"}
	check := func(src string, ctx *hcl.EvalContext) {
		id := fmt.Sprintf("static forms of %q in %s", src, usedCtx(ctx, src))
		h.run(id, func() {
			e, diags := hclsyntax.ParseExpression([]byte(src), "t", p)
			if e == nil || diags.HasErrors() {
				if e != nil {
					hcl.ExprList(e)
					hcl.ExprMap(e)
					hcl.ExprCall(e)
					hcl.ExprAsKeyword(e)
					hcl.RelTraversalForExpr(e)
				}
				return
			}
			checkStatic(h, id, e, ctx, false)
			var w hcl.Expression = e
			for i := h.rng.Intn(3); i >= 0; i-- {
				w = wrapExpr{w}
			}
			checkStatic(h, id+" wrapped", w, ctx, false)
			checkJSONStatic(h, id, src, e, ctx)
		})
	}
	for _, s := range fixed {
		for i := 0; i < 15; i++ {
			check(s, h.randCtx())
		}
	}
	n := 8000
	if h.extended() {
		n = 400000
	}
	for i := 0; i < n && h.more(); i++ {
		src := h.randExpr(1+h.rng.Intn(3), nil)
		if h.rng.Intn(10) == 0 {
			src = h.mutate(src)
		}
		check(src, h.randCtx())
	}
}

// checkJSONStatic: a JSON string is analysed as the native expression in it,
// a JSON array or object as the native constructor.
func checkJSONStatic(h *vh, id, src string, e hcl.Expression, ctx *hcl.EvalContext) {
	if strings.ContainsAny(src, "\n") {
		return
	}
	f, diags := json.Parse([]byte(`{"x": `+jsonStr(src)+`, "l": [1, "${s}"], "m": {"a": "${s}", "b": 2}}`), "t")
	if diags.HasErrors() {
		h.fail("%s: JSON form not parsed: %s", id, diags.Error())
		return
	}
	attrs, _ := f.Body.JustAttributes()
	x := attrs["x"].Expr
	call, _ := hcl.ExprCall(x)
	wantCall, _ := hcl.ExprCall(e)
	if (call == nil) != (wantCall == nil) {
		h.fail("%s: call in JSON %t, native %t", id, call != nil, wantCall != nil)
	} else if call != nil {
		if call.Name != wantCall.Name || len(call.Arguments) != len(wantCall.Arguments) {
			h.fail("%s: JSON call %s/%d, native %s/%d", id, call.Name, len(call.Arguments), wantCall.Name, len(wantCall.Arguments))
		} else {
			for i := range call.Arguments {
				a, _ := call.Arguments[i].Value(ctx)
				b, _ := wantCall.Arguments[i].Value(ctx)
				if !a.RawEquals(b) {
					h.fail("%s: JSON call argument %d is %#v, native %#v", id, i, a, b)
				}
			}
		}
	}
	trav, _ := hcl.AbsTraversalForExpr(x)
	if trav != nil {
		want, wd := hclsyntax.ParseTraversalAbs([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
		if wd.HasErrors() || len(want) != len(trav) || want.RootName() != trav.RootName() {
			h.fail("%s: JSON traversal differs from the native one", id)
		}
	}
	if l, _ := hcl.ExprList(x); l != nil {
		h.fail("%s: a JSON string is presented as a list", id)
	}
	if m, _ := hcl.ExprMap(x); m != nil {
		h.fail("%s: a JSON string is presented as a map", id)
	}
	for _, n := range []string{"l", "m"} {
		if hcl.ExprAsKeyword(attrs[n].Expr) != "" {
			h.fail("%s: keyword in JSON %s", id, n)
		}
		checkStatic(h, id+" JSON "+n, attrs[n].Expr, ctx, false)
	}
}
