package zz_vh

import (
	"fmt"
	"testing"
)

func TestVerifP07(t *testing.T) {
	h := newVH(t, "native bodies of up to 8 items over 4 names with 0-2 labels, histories of up to 4 extractions with random schemas")
	defer h.done()
	n := 6000
	if h.extended() {
		n = 60000
	}
	for i := 0; i < n && h.more(); i++ {
		b := h.randBody(8, map[string]bool{})
		src := b.native()
		h.run(fmt.Sprintf("%d %q", i, src), func() {
			if e := h.walkBody(src, parseNative(src), newMState(b), 0); e != "" {
				h.fail("body %q:%s", src, e)
			}
		})
	}
}
