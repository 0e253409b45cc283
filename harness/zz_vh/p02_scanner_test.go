package zz_vh

import (
	"bufio"
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
)

// everyN splits into fixed-size pieces and skips one byte after each.
func everyN(n, skip int) bufio.SplitFunc {
	return func(d []byte, eof bool) (int, []byte, error) {
		if len(d) == 0 {
			return 0, nil, nil
		}
		k, adv := n, n+skip
		if k > len(d) {
			k = len(d)
		}
		if adv > len(d) {
			adv = len(d)
		}
		return adv, d[:k], nil
	}
}

// recount is an independent walk: positions of every byte offset that is a
// character boundary.
func recount(b []byte, p hcl.Pos) hcl.Pos {
	for len(b) > 0 {
		n, gr, _ := textseg.ScanGraphemeClusters(b, true)
		if gr[0] == '\n' || gr[0] == '\r' {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
		p.Byte += n
		b = b[n:]
	}
	return p
}

func TestVerifP02(t *testing.T) {
	h := newVH(t, "buffers of up to 12 pieces over a 12-piece alphabet incl. CRLF, combining and multi-byte characters, one 70000-byte character; 5 split functions; 3 start positions")
	defer h.done()
	pieces := []string{"a", "b ", "\n", "\r\n", "\r", "é", "é", "日", "\U0001F469‍\U0001F469", "\xff", " ", "\t"}
	splits := map[string]bufio.SplitFunc{"lines": bufio.ScanLines, "graphemes": textseg.ScanGraphemeClusters, "bytes2": everyN(2, 0), "bytes1skip1": everyN(1, 1), "all": everyN(1<<30, 0)}
	starts := []hcl.Pos{{Line: 1, Column: 1, Byte: 0}, {Line: 3, Column: 7, Byte: 5}, {Line: 1, Column: 1, Byte: 40}}
	check := func(src, name string, cb bufio.SplitFunc, start hcl.Pos) {
		desc := fmt.Sprintf("split=%s start=%v src=%q", name, start, src)
		if len(src) > 200 {
			desc = fmt.Sprintf("split=%s start=%v src=%d bytes", name, start, len(src))
		}
		h.run(desc, func() {
			b := []byte(src)
			sc := hcl.NewRangeScannerFragment(b, "f", start, cb)
			if start.Byte == 0 {
				sc = hcl.NewRangeScanner(b, "f", cb)
			}
			pos := start
			off := 0
			for off < len(b) {
				adv, tok, err := cb(b[off:], true)
				if adv == 0 && tok == nil && err == nil {
					break
				}
				if !sc.Scan() {
					h.fail("%s: Scan stops at offset %d of %d", desc, off, len(b))
					return
				}
				r := sc.Range()
				if !bytes.Equal(sc.Bytes(), tok) {
					h.fail("%s: token %q, want %q", desc, sc.Bytes(), tok)
					return
				}
				if r.Start != pos || r.Filename != "f" {
					h.fail("%s: range starts at %v, want %v", desc, r.Start, pos)
					return
				}
				// the end covers the token, rounded up to a whole character
				n := 0
				e := b[off : off+adv]
				for n < len(tok) && n < len(e) {
					k, _, _ := textseg.ScanGraphemeClusters(e[n:], true)
					n += k
				}
				if want := recount(e[:n], pos); r.End != want {
					h.fail("%s: range ends at %v, want %v", desc, r.End, want)
					return
				}
				// characters are counted within each consumed piece
				pos = recount(e, pos)
				off += adv
			}
			if sc.Scan() && off >= len(b) {
				h.fail("%s: Scan continues after the end", desc)
			}
			if sc.Err() != nil {
				h.fail("%s: Err = %v", desc, sc.Err())
			}
		})
	}
	all := func(src string) {
		for name, cb := range splits {
			for _, st := range starts {
				check(src, name, cb, st)
			}
		}
	}
	all("")
	for _, p := range pieces {
		all(p)
		for _, q := range pieces {
			all(p + q)
		}
	}
	all("e" + strings.Repeat("́", 35000) + "x\ny")
	all(strings.Repeat("ab\n", 30000))
	n := 400
	if h.extended() {
		n = 5000
	}
	for i := 0; i < n && h.more(); i++ {
		s := ""
		for k := h.rng.Intn(12); k >= 0; k-- {
			s += pieces[h.rng.Intn(len(pieces))]
		}
		all(s)
	}
	_ = utf8.RuneError
}
