package hcl

import (
	"github.com/apparentlymart/go-textseg/textseg"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// Assumed: a split function called at end of input consumes at most the bytes
// it was given.
//
//vc:for bufio.SplitFunc
//vc:trusted
//vc:pure
func vc_SplitFunc(data []byte, atEOF bool) {
	vc.Ensures("contract", func(advance int, token []byte, err error) bool {
		return 0 <= advance && advance <= len(data) && len(token) >= 0 && len(token) <= cap(token)
	})
}

// Assumed: at end of input the segmenter returns a non-empty prefix.
//
//vc:for github.com/apparentlymart/go-textseg/textseg.ScanGraphemeClusters
//vc:trusted
//vc:pure
func vc_ScanGraphemeClusters(data []byte, atEOF bool) {
	vc.Requires("eof", atEOF)
	vc.Ensures("prefix", func(advance int, token []byte, err error) bool {
		if len(data) == 0 {
			return advance == 0 && len(token) == 0 && err == nil
		}
		return 1 <= advance && advance <= len(data) && len(token) == advance && &token[0] == &data[0] && err == nil
	})
}

//vc:for NewRangeScanner
//vc:props P02
func vc_NewRangeScanner(b []byte, filename string, cb func(data []byte, atEOF bool) (advance int, token []byte, err error)) {
	vc.Ensures("state", func(sc *RangeScanner) bool {
		return vc.Fresh(sc) && sc.filename == filename && len(sc.b) == len(b) && (len(b) == 0 || &sc.b[0] == &b[0]) &&
			sc.pos.Byte == 0 && sc.pos.Line == 1 && sc.pos.Column == 1 && sc.err == nil && vc_scInv(sc)
	})
}

//vc:for NewRangeScannerFragment
//vc:props P02
func vc_NewRangeScannerFragment(b []byte, filename string, start Pos, cb func(data []byte, atEOF bool) (advance int, token []byte, err error)) {
	vc.Ensures("state", func(sc *RangeScanner) bool {
		return vc.Fresh(sc) && sc.filename == filename && len(sc.b) == len(b) && (len(b) == 0 || &sc.b[0] == &b[0]) &&
			sc.pos == start && sc.err == nil && vc_scInv(sc)
	})
}

// vc_scInv: the next unread byte is inside the buffer.
func vc_scInv(sc *RangeScanner) bool {
	return 0 <= sc.pos.Byte-sc.base && sc.pos.Byte-sc.base <= len(sc.b)
}

// vc_posAfter is the position reached from p by walking over the characters
// of b; it is defined by vc_posAfterDef, unfolded once per vc_unfold term.
//
//vc:spec
func vc_posAfter(p Pos, b []byte) Pos { return p }

//vc:spec
func vc_unfold(p Pos, b []byte) bool { return true }

// vc_step is the position after one character g.
func vc_step(p Pos, g []byte) Pos {
	p.Byte += len(g)
	if g[0] == '\r' || g[0] == '\n' {
		p.Line++
		p.Column = 1
	} else {
		p.Column++
	}
	return p
}

//vc:axiom
func vc_posAfterDef() bool {
	return vc.AllPat(func(p Pos, b []byte) bool { return vc_unfold(p, b) }, func(p Pos, b []byte) bool {
		if !vc_unfold(p, b) {
			return false
		}
		if len(b) <= 0 {
			return vc_posAfter(p, b) == p
		}
		n, _, _ := textseg.ScanGraphemeClusters(b, true)
		return vc_posAfter(p, b) == vc_posAfter(vc_step(p, b[:n]), b[n:])
	})
}

//vc:for (*RangeScanner).Scan
//vc:props P02
func vc_Scan(sc *RangeScanner) {
	vc.Requires("non-nil", sc != nil && sc.cb != nil)
	vc.Requires("inv", vc_scInv(sc))
	vc.Modifies(sc)
	pos, rest := sc.pos, sc.pos.Byte-sc.base
	b, base, filename := sc.b, sc.base, sc.filename
	done := rest >= len(sc.b) || sc.err != nil
	advance, token, err := sc.cb(b[rest:], true)
	vc.Invariant("position", func(new Pos, adv []byte) bool {
		return vc_unfold(new, adv) && vc_posAfter(new, adv) == vc_posAfter(pos, b[rest:rest+advance])
	})
	vc.Invariant("end", func(new Pos, end Pos) bool {
		return pos.Byte <= end.Byte && end.Byte <= new.Byte
	})
	vc.Invariant("end-token", func(new Pos, end Pos) bool {
		if new.Byte-pos.Byte < len(token) {
			return end == new
		}
		return end.Byte >= pos.Byte+len(token)
	})
	vc.Invariant("end-new", func(new Pos, end Pos) bool {
		return end == new || new.Byte-pos.Byte > len(token)
	})
	vc.Ensures("done", func(more bool) bool { return vc.Implies(done, !more && sc.pos == pos) })
	vc.Ensures("inv", func(more bool) bool {
		return vc_scInv(sc) && sc.base == base && sc.filename == filename && len(sc.b) == len(b) && sc.cb != nil && (len(b) == 0 || &sc.b[0] == &b[0])
	})
	vc.Ensures("error", func(more bool) bool {
		return vc.Implies(!done && err != nil, !more && sc.err == err && sc.pos == pos && sc.cur.Start == pos && sc.cur.End == pos)
	})
	vc.Ensures("token", func(more bool) bool {
		return vc.Implies(more, !done && err == nil && len(sc.tok) == len(token) && (len(token) == 0 || &sc.tok[0] == &token[0]))
	})
	vc.Ensures("range", func(more bool) bool {
		return vc.Implies(more, sc.cur.Filename == filename && sc.cur.Start == pos && pos.Byte <= sc.cur.End.Byte && sc.cur.End.Byte <= sc.pos.Byte)
	})
	vc.Ensures("advance", func(more bool) bool { return vc.Implies(more, sc.pos.Byte == pos.Byte+advance) })
	vc.Ensures("position", func(more bool) bool {
		return vc.Implies(more, sc.pos == vc_posAfter(pos, b[rest:rest+advance]))
	})
	vc.Ensures("end-covers-token", func(more bool) bool {
		return vc.Implies(more && len(token) <= advance, sc.cur.End.Byte >= pos.Byte+len(token))
	})
	vc.Ensures("end-position", func(more bool) bool {
		return vc.Implies(more && len(token) == advance, sc.cur.End == sc.pos)
	})
}
