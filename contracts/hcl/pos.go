package hcl

import vc "github.com/hashicorp/hcl2/zz_vc"

func vc_wf(r Range) bool { return r.Start.Byte <= r.End.Byte }

func vc_in(r Range, i int) bool { return r.Start.Byte <= i && i < r.End.Byte }

//vc:for RangeBetween
//vc:props P01
func vc_RangeBetween(start, end Range) {
	vc.Ensures("bounds", func(r Range) bool {
		return r.Filename == start.Filename && r.Start == start.Start && r.End == end.End
	})
}

//vc:for RangeOver
//vc:props P01
func vc_RangeOver(a, b Range) {
	vc.Requires("wf", vc_wf(a) && vc_wf(b))
	vc.Ensures("empty-a", func(r Range) bool { return vc.Implies(a.Start.Byte == a.End.Byte, r == b) })
	vc.Ensures("empty-b", func(r Range) bool {
		return vc.Implies(b.Start.Byte == b.End.Byte && a.Start.Byte != a.End.Byte, r == a)
	})
	vc.Ensures("hull", func(r Range) bool {
		if a.Start.Byte == a.End.Byte || b.Start.Byte == b.End.Byte {
			return true
		}
		return r.Start.Byte <= a.Start.Byte && r.Start.Byte <= b.Start.Byte && r.End.Byte >= a.End.Byte && r.End.Byte >= b.End.Byte &&
			(r.Start == a.Start || r.Start == b.Start) && (r.End == a.End || r.End == b.End) && r.Filename == a.Filename
	})
	vc.Ensures("wf", func(r Range) bool { return vc_wf(r) })
}

//vc:for Range.ContainsOffset
//vc:props P01
func vc_ContainsOffset(r Range, offset int) {
	vc.Ensures("iff", func(res bool) bool { return res == vc_in(r, offset) })
}

//vc:for Range.ContainsPos
//vc:props P01
func vc_ContainsPos(r Range, pos Pos) {
	vc.Ensures("iff", func(res bool) bool { return res == vc_in(r, pos.Byte) })
}

//vc:for Range.Empty
//vc:props P01
func vc_Empty(r Range) {
	vc.Ensures("iff", func(res bool) bool { return res == (r.Start.Byte == r.End.Byte) })
}

//vc:for Range.Ptr
//vc:props P01
func vc_Ptr(r Range) {
	vc.Ensures("copy", func(p *Range) bool { return p != nil && vc.Fresh(p) && *p == r })
}

//vc:for Range.CanSliceBytes
//vc:props P01
func vc_CanSliceBytes(r Range, b []byte) {
	vc.Ensures("iff", func(res bool) bool {
		return res == (0 <= r.Start.Byte && r.Start.Byte <= r.End.Byte && r.End.Byte <= len(b))
	})
}

func vc_clamp(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

//vc:for Range.SliceBytes
//vc:props P01
func vc_SliceBytes(r Range, b []byte) {
	s, e := vc_clamp(r.Start.Byte, len(b)), vc_clamp(r.End.Byte, len(b))
	if e < s {
		e = s
	}
	vc.Ensures("len", func(res []byte) bool { return len(res) == e-s })
	vc.Ensures("content", func(res []byte) bool {
		return vc.Forall(0, len(res), func(i int) bool { return &res[i] == &b[s+i] })
	})
}

//vc:for Range.Overlaps
//vc:props P01
func vc_Overlaps(r, other Range) {
	vc.Requires("wf", vc_wf(r) && vc_wf(other))
	vc.Ensures("iff-common-byte", func(res bool) bool {
		lo, hi := r.Start.Byte, r.End.Byte
		if other.Start.Byte > lo {
			lo = other.Start.Byte
		}
		if other.End.Byte < hi {
			hi = other.End.Byte
		}
		return res == (r.Filename == other.Filename && lo < hi)
	})
}

//vc:for Range.Overlap
//vc:props P01
func vc_Overlap(r, other Range) {
	vc.Requires("wf", vc_wf(r) && vc_wf(other))
	same := r.Filename == other.Filename
	vc.Ensures("intersection", func(res Range) bool {
		return vc.All(func(i int) bool { return vc_in(res, i) == (same && vc_in(r, i) && vc_in(other, i)) })
	})
	vc.Ensures("within-receiver", func(res Range) bool {
		return vc_wf(res) && res.Filename == r.Filename && r.Start.Byte <= res.Start.Byte && res.End.Byte <= r.End.Byte
	})
	vc.Ensures("corners", func(res Range) bool {
		return (res.Start == r.Start || res.Start == other.Start) && (res.End == r.End || res.End == other.End || res.End == res.Start)
	})
}

//vc:for Range.PartitionAround
//vc:props P01
func vc_PartitionAround(r, other Range) {
	vc.Requires("wf", vc_wf(r) && vc_wf(other))
	same := r.Filename == other.Filename
	vc.Ensures("overlap", func(before, overlap, after Range) bool {
		return vc.All(func(i int) bool { return vc_in(overlap, i) == (same && vc_in(r, i) && vc_in(other, i)) })
	})
	vc.Ensures("tiles", func(before, overlap, after Range) bool {
		if overlap.Start.Byte == overlap.End.Byte {
			return before.Start.Byte == before.End.Byte && after.Start.Byte == after.End.Byte
		}
		return before.Start == r.Start && before.End == overlap.Start && overlap.End == after.Start && after.End == r.End
	})
	vc.Ensures("wf", func(before, overlap, after Range) bool {
		return vc_wf(before) && vc_wf(overlap) && vc_wf(after) &&
			before.Filename == r.Filename && overlap.Filename == r.Filename && after.Filename == r.Filename
	})
}
