package json

import (
	vc "github.com/hashicorp/hcl2/zz_vc"
)

func vc_space(c byte) bool  { return c == ' ' || c == '\n' || c == '\r' || c == '\t' }
func vc_digit(c byte) bool  { return c >= '0' && c <= '9' }
func vc_number(c byte) bool { return vc_digit(c) || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' }
func vc_letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// vc_cut: tok and rest are the two parts of buf, and the position has moved by
// the length of the first.
func vc_cut(buf []byte, start pos, tok, rest []byte, end pos) bool {
	return len(tok)+len(rest) == len(buf) && vc.Same(tok, buf[:len(tok)]) && vc.Same(rest, buf[len(tok):]) &&
		end.Pos.Byte == start.Pos.Byte+len(tok) && end.Filename == start.Filename
}

//vc:for scanNumber
//vc:props P06
func vc_scanNumber(buf []byte, start pos) {
	vc.Invariant("so-far", func(i int, p pos) bool {
		return 0 <= i && i <= len(buf) && p.Pos.Byte == start.Pos.Byte+i && p.Filename == start.Filename && vc.Forall(0, i, func(k int) bool { return vc_number(buf[k]) })
	})
	vc.Ensures("cut", func(tok, rest []byte, end pos) bool { return vc_cut(buf, start, tok, rest, end) })
	vc.Ensures("longest", func(tok, rest []byte, end pos) bool {
		return vc.Forall(0, len(tok), func(k int) bool { return vc_number(tok[k]) }) && (len(rest) == 0 || !vc_number(rest[0]))
	})
}

//vc:for scanKeyword
//vc:props P06
func vc_scanKeyword(buf []byte, start pos) {
	vc.Invariant("so-far", func(i int, p pos) bool {
		return 0 <= i && i <= len(buf) && p.Pos.Byte == start.Pos.Byte+i && p.Filename == start.Filename && vc.Forall(0, i, func(k int) bool { return vc_letter(buf[k]) || buf[k] == '_' })
	})
	vc.Ensures("cut", func(tok, rest []byte, end pos) bool { return vc_cut(buf, start, tok, rest, end) })
	vc.Ensures("longest", func(tok, rest []byte, end pos) bool {
		return vc.Forall(0, len(tok), func(k int) bool { return vc_letter(tok[k]) || tok[k] == '_' }) && (len(rest) == 0 || !vc_letter(rest[0]) && rest[0] != '_')
	})
}

//vc:for scanString
//vc:props P06
func vc_scanString(buf []byte, start pos) {
	vc.Requires("quote", len(buf) > 0 && buf[0] == '"')
	vc.Invariant("so-far", func(i int, p pos) bool {
		return 1 <= i && i <= len(buf) && p.Pos.Byte == start.Pos.Byte+i && p.Filename == start.Filename
	})
	vc.Invariant("cluster", func(i, advance int) bool { return 1 <= advance && i+advance <= len(buf) })
	vc.Ensures("cut", func(tok, rest []byte, end pos) bool { return vc_cut(buf, start, tok, rest, end) && len(tok) >= 1 })
}

//vc:for skipWhitespace
//vc:props P06
func vc_skipWhitespace(buf []byte, start pos) {
	vc.Invariant("so-far", func(i int, p pos) bool {
		return 0 <= i && i <= len(buf) && p.Pos.Byte == start.Pos.Byte+i && p.Filename == start.Filename && vc.Forall(0, i, func(k int) bool { return vc_space(buf[k]) })
	})
	vc.Ensures("skipped", func(rest []byte, end pos) bool {
		n := len(buf) - len(rest)
		return n >= 0 && vc_cut(buf, start, buf[:n], rest, end) && vc.Forall(0, n, func(k int) bool { return vc_space(buf[k]) }) && (len(rest) == 0 || !vc_space(rest[0]))
	})
}

// The scanner ends its list with an end-of-file token or with the first
// invalid character, and every token lies where its range says.
//
//vc:for scan
//vc:props P06
func vc_scan(buf []byte, start pos) {
	whole := buf
	begin := start
	vc.Invariant("own", func(tokens []token) bool { return tokens == nil || vc.Fresh(tokens) })
	vc.Invariant("rest", func(buf []byte, p pos) bool {
		return len(buf) <= len(whole) && vc.Same(buf, whole[len(whole)-len(buf):])
	})
	vc.Invariant("at", func(buf []byte, p pos) bool { return p.Pos.Byte == begin.Pos.Byte+len(whole)-len(buf) })
	vc.Invariant("places", func(tokens []token) bool { return vc_places(tokens, whole, begin) })
	vc.Invariant("valid", func(tokens []token) bool {
		return vc.Forall(0, len(tokens), func(i int) bool { return tokens[i].Type != tokenEOF && tokens[i].Type != tokenInvalid })
	})
	vc.Ensures("ends", func(tokens []token) bool {
		return len(tokens) > 0 && vc.Fresh(tokens) && (tokens[len(tokens)-1].Type == tokenEOF || tokens[len(tokens)-1].Type == tokenInvalid)
	})
	vc.Ensures("places", func(tokens []token) bool { return vc_places(tokens, whole, begin) })
}

func vc_places(tokens []token, whole []byte, begin pos) bool {
	return vc.Forall(0, len(tokens), func(i int) bool {
		t := tokens[i]
		at := t.Range.Start.Byte - begin.Pos.Byte
		return 0 <= at && at <= t.Range.End.Byte-begin.Pos.Byte && t.Range.End.Byte-begin.Pos.Byte <= len(whole) && (t.Type == tokenEOF || vc.Same(t.Bytes, whole[at:t.Range.End.Byte-begin.Pos.Byte]))
	})
}
