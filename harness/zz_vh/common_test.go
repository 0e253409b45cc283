// Package zz_vh holds bounded tests with independent oracles. They are run by
// "govc check" next to the proofs and supply failing inputs when a proof
// fails.
package zz_vh

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vh struct {
	t        *testing.T
	rng      *rand.Rand
	cases    int
	distinct map[string]bool
	fails    int
	deadline time.Time
}

func newVH(t *testing.T, bound string) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 20 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 120 * time.Second
	}
	if os.Getenv("VERIF_EXTENDED") != "" {
		d = 90 * time.Second
	}
	fmt.Println("VH-BOUND " + bound)
	return &vh{t: t, rng: rand.New(rand.NewSource(seed*7919 + 17)), distinct: map[string]bool{}, deadline: time.Now().Add(d)}
}

func (h *vh) extended() bool {
	return os.Getenv("VERIF_EXTENDED") != "" || os.Getenv("VERIF_TIER") == "thorough"
}

// more reports whether there is time for another case.
func (h *vh) more() bool { return time.Now().Before(h.deadline) && h.fails < 10 }

func (h *vh) done() {
	fmt.Printf("\nVH-CASES %d %d\n", h.cases, len(h.distinct))
}

func (h *vh) fail(format string, args ...interface{}) {
	h.fails++
	s := fmt.Sprintf(format, args...)
	fmt.Printf("\nVH-FAIL %s\n", strings.ReplaceAll(s, "\n", "\\n"))
	h.t.Fail()
}

// run runs one case; a panic is a failure.
func (h *vh) run(desc string, f func()) {
	h.cases++
	if len(h.distinct) < 200000 {
		h.distinct[desc] = true
	}
	if h.cases == 1 || h.cases == 50 || h.cases == 1000 {
		fmt.Printf("\nVH-SAMPLE %s\n", strings.ReplaceAll(desc, "\n", "\\n"))
	}
	if h.fails >= 10 {
		return
	}
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		defer func() {
			if r := recover(); r != nil {
				h.fail("%s: panic: %v at %s", desc, r, panicSite())
			}
		}()
		f()
	}()
	select {
	case <-ch:
	case <-time.After(30 * time.Second):
		h.fail("%s: does not terminate", desc)
		panic("stuck case")
	}
}

func panicSite() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			for _, m := range ls[i+2:] {
				m = strings.TrimSpace(m)
				if j := strings.Index(m, "/repo/"); j >= 0 && !strings.Contains(m, "zz_vh") {
					return strings.Fields(m[j:])[0]
				}
			}
		}
	}
	return "?"
}
