package zz_vh

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// dumpAST renders a syntax tree without source positions.
func dumpAST(x interface{}) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(x))
	return b.String()
}

func dumpVal(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Type() {
	case reflect.TypeOf(hcl.Range{}), reflect.TypeOf(hcl.Pos{}):
		return
	}
	if v.CanInterface() {
		if cv, ok := v.Interface().(cty.Value); ok {
			fmt.Fprintf(b, "%#v", cv)
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		dumpVal(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			t := v.Type().Field(i).Type
			if t == reflect.TypeOf(hcl.Range{}) || t == reflect.TypeOf([]hcl.Range{}) {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpVal(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpVal(b, v.Index(i))
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var p strings.Builder
			dumpVal(&p, k)
			p.WriteString("=>")
			dumpVal(&p, v.MapIndex(k))
			parts = append(parts, p.String())
		}
		sort.Strings(parts)
		b.WriteString("map[" + strings.Join(parts, ", ") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint8, reflect.Uint, reflect.Int8:
		fmt.Fprintf(b, "%v", v)
	default:
		fmt.Fprintf(b, "<%s>", v.Kind())
	}
}

// sprinkle puts comments between some tokens of a source that parses; the
// result is only used if it still parses.
func (h *vh) sprinkle(src string) string {
	toks, _ := hclsyntax.LexConfig([]byte(src), "t.hcl", start1)
	var buf strings.Builder
	at := 0
	for _, t := range toks {
		if h.rng.Intn(6) == 0 {
			buf.WriteString(src[at:t.Range.Start.Byte])
			at = t.Range.Start.Byte
			buf.WriteString(h.pick(" /* s */ ", "/**/", " /* s\n*/"))
		}
	}
	buf.WriteString(src[at:])
	if _, ok := dumpConfig(buf.String()); !ok {
		return src
	}
	return buf.String()
}
