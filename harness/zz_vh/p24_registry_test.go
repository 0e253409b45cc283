package zz_vh

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
)

// Histories of parse, add and list calls over a few names against a plain map.
func TestVerifP24(t *testing.T) {
	h := newVH(t, "histories of up to 8 calls over 5 names (readable, unreadable and directories), good and bad contents")
	defer h.done()
	dir, err := os.MkdirTemp("", "vh24")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	texts := []string{"a = 1\n", "a = \n", "{\"a\": 1}", "{\"a\" 1}", "", "[]", "\"x\"", "b {\n", "nu\x80ll"}
	n := 3000
	if h.extended() {
		n = 30000
	}
	for c := 0; c < n && h.more(); c++ {
		var names []string
		onDisk := map[string][]byte{}
		for i := 0; i < 5; i++ {
			fn := filepath.Join(dir, fmt.Sprintf("f%d", i))
			os.RemoveAll(fn)
			names = append(names, fn)
			switch h.rng.Intn(4) {
			case 0:
				os.Mkdir(fn, 0755)
			case 1:
			default:
				b := []byte(texts[h.rng.Intn(len(texts))])
				os.WriteFile(fn, b, 0644)
				onDisk[fn] = b
			}
		}
		type op struct{ kind, name, text int }
		var ops []op
		for i := 1 + h.rng.Intn(8); i > 0; i-- {
			ops = append(ops, op{h.rng.Intn(5), h.rng.Intn(5), h.rng.Intn(len(texts))})
		}
		desc := fmt.Sprintf("history %v, files %q", ops, onDisk)
		h.run(desc, func() {
			p := hclparse.NewParser()
			want := map[string]*hcl.File{}
			src := map[string][]byte{}
			for i, o := range ops {
				name, text := names[o.name], []byte(texts[o.text])
				var f *hcl.File
				var d hcl.Diagnostics
				fromDisk := false
				switch o.kind {
				case 0:
					f, d = p.ParseHCL(text, name)
				case 1:
					f, d = p.ParseJSON(text, name)
				case 2:
					f, d = p.ParseHCLFile(name)
					fromDisk = true
				case 3:
					f, d = p.ParseJSONFile(name)
					fromDisk = true
				case 4:
					f = &hcl.File{Bytes: text}
					p.AddFile(name, f)
					want[name], src[name] = f, text
					continue
				}
				if known := want[name]; known != nil {
					if f != known || len(d) != 0 {
						h.fail("%s: step %d: second request for a known name gave another file or diagnostics %v", desc, i, d)
					}
					continue
				}
				if fromDisk {
					b, ok := onDisk[name]
					if !ok {
						if !d.HasErrors() {
							h.fail("%s: step %d: no error for an unreadable file", desc, i)
						}
						if f != nil {
							h.fail("%s: step %d: a file for an unreadable name", desc, i)
						}
						continue
					}
					text = b
				}
				if f == nil {
					h.fail("%s: step %d: no file", desc, i)
					continue
				}
				want[name], src[name] = f, text
			}
			files, sources := p.Files(), p.Sources()
			if len(files) != len(want) || len(sources) != len(want) {
				h.fail("%s: %d files and %d sources listed, want %d", desc, len(files), len(sources), len(want))
			}
			for k, f := range want {
				if files[k] != f {
					h.fail("%s: file %s not listed", desc, k)
				}
				if !bytes.Equal(sources[k], src[k]) {
					h.fail("%s: source of %s is %q, want %q", desc, k, sources[k], src[k])
				}
			}
		})
	}
}
