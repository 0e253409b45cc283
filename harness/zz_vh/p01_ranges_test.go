package zz_vh

import (
	"fmt"
	"testing"

	"github.com/hashicorp/hcl2/hcl"
)

func mkRange(s, e int) hcl.Range {
	return hcl.Range{Filename: "f", Start: hcl.Pos{Line: 1, Column: s + 1, Byte: s}, End: hcl.Pos{Line: 1, Column: e + 1, Byte: e}}
}

func TestVerifP01(t *testing.T) {
	h := newVH(t, "all pairs of byte ranges with offsets 0..7 and buffers of length 0..8")
	defer h.done()
	const N = 7
	has := func(r hcl.Range, i int) bool { return r.Start.Byte <= i && i < r.End.Byte }
	var rs []hcl.Range
	for s := 0; s <= N; s++ {
		for e := s; e <= N; e++ {
			rs = append(rs, mkRange(s, e))
		}
	}
	str := func(r hcl.Range) string { return fmt.Sprintf("[%d,%d)", r.Start.Byte, r.End.Byte) }
	for _, a := range rs {
		a := a
		h.run("unary "+str(a), func() {
			if a.Empty() != (a.Start.Byte == a.End.Byte) {
				h.fail("%s.Empty() = %v", str(a), a.Empty())
			}
			if p := a.Ptr(); p == nil || *p != a {
				h.fail("%s.Ptr() differs", str(a))
			}
			for i := 0; i <= N+1; i++ {
				if a.ContainsOffset(i) != has(a, i) {
					h.fail("%s.ContainsOffset(%d) = %v", str(a), i, a.ContainsOffset(i))
				}
				if a.ContainsPos(hcl.Pos{Byte: i}) != has(a, i) {
					h.fail("%s.ContainsPos(%d) = %v", str(a), i, a.ContainsPos(hcl.Pos{Byte: i}))
				}
			}
			for n := 0; n <= N+1; n++ {
				buf := make([]byte, n)
				for i := range buf {
					buf[i] = byte('a' + i)
				}
				want := ""
				for i := range buf {
					if has(a, i) {
						want += string(buf[i])
					}
				}
				if got := string(a.SliceBytes(buf)); got != want {
					h.fail("%s.SliceBytes(%q) = %q, want %q", str(a), buf, got, want)
				}
				if can := a.CanSliceBytes(buf); can != (a.End.Byte <= n) {
					h.fail("%s.CanSliceBytes(len %d) = %v", str(a), n, can)
				}
			}
		})
		for _, b := range rs {
			b := b
			h.run("pair "+str(a)+" "+str(b), func() {
				common := false
				var inter, union [N + 2]bool
				for i := 0; i <= N; i++ {
					inter[i] = has(a, i) && has(b, i)
					union[i] = has(a, i) || has(b, i)
					common = common || inter[i]
				}
				if a.Overlaps(b) != common {
					h.fail("%s.Overlaps(%s) = %v", str(a), str(b), a.Overlaps(b))
				}
				ov := a.Overlap(b)
				for i := 0; i <= N; i++ {
					if has(ov, i) != inter[i] {
						h.fail("%s.Overlap(%s) = %s", str(a), str(b), str(ov))
						break
					}
				}
				btw := hcl.RangeBetween(a, b)
				if btw.Start != a.Start || btw.End != b.End || btw.Filename != a.Filename {
					h.fail("RangeBetween(%s,%s) = %s", str(a), str(b), str(btw))
				}
				over := hcl.RangeOver(a, b)
				for i := 0; i <= N; i++ {
					if union[i] && !has(over, i) {
						h.fail("RangeOver(%s,%s) = %s misses %d", str(a), str(b), str(over), i)
						break
					}
				}
				if a.Empty() && over != b || b.Empty() && !a.Empty() && over != a {
					h.fail("RangeOver(%s,%s) = %s", str(a), str(b), str(over))
				}
				if !a.Empty() && !b.Empty() && (!union[over.Start.Byte] || !union[over.End.Byte-1]) {
					h.fail("RangeOver(%s,%s) = %s is too large", str(a), str(b), str(over))
				}
				bef, mid, aft := a.PartitionAround(b)
				n := len(bef.SliceBytes(make([]byte, N+1))) + len(mid.SliceBytes(make([]byte, N+1))) + len(aft.SliceBytes(make([]byte, N+1)))
				if !common {
					if !bef.Empty() || !mid.Empty() || !aft.Empty() {
						h.fail("%s.PartitionAround(%s) = %s %s %s", str(a), str(b), str(bef), str(mid), str(aft))
					}
					return
				}
				for i := 0; i <= N; i++ {
					if has(a, i) != (has(bef, i) || has(mid, i) || has(aft, i)) || has(mid, i) != inter[i] ||
						has(bef, i) && i >= b.Start.Byte && common || has(aft, i) && i < b.End.Byte && common {
						h.fail("%s.PartitionAround(%s) = %s %s %s", str(a), str(b), str(bef), str(mid), str(aft))
						break
					}
				}
				if n != a.End.Byte-a.Start.Byte {
					h.fail("%s.PartitionAround(%s) = %s %s %s does not tile", str(a), str(b), str(bef), str(mid), str(aft))
				}
			})
		}
	}
}
