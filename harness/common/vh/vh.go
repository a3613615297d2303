//go:build go1.22

// Package vh drives the bounded cross-checks: seeded random cases of growing
// size which are executed on the real code and compared with an oracle.
package vh

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// R is one case.
type R struct {
	*rand.Rand
	N     int // index of the case
	desc  []string
	fail  string
	id    string
	skip  bool
	hints []int64
	exp   string
}

type failNow struct{}

// Log describes a part of the input; the descriptions are printed on failure.
func (r *R) Log(f string, a ...any) { r.desc = append(r.desc, fmt.Sprintf(f, a...)) }

// Fail reports the case as failing.
func (r *R) Fail(f string, a ...any) {
	r.fail = fmt.Sprintf(f, a...)
	panic(failNow{})
}

// Known gives the kind of a failure a stable name (for the known findings).
func (r *R) Known(id string) { r.id = id }

// Check fails unless ok.
func (r *R) Check(ok bool, f string, a ...any) {
	if !ok {
		r.Fail(f, a...)
	}
}

// Skip ends the case without a result.
func (r *R) Skip() {
	r.skip = true
	panic(failNow{})
}

// Int is a number in [lo, hi], often near the borders, small or from a solver model.
func (r *R) Int(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	cl := func(v int64) int64 {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	switch k := r.Intn(12); {
	case k == 0:
		return cl([]int64{lo, hi, 0, 1, -1, lo + 1, hi - 1}[r.Intn(7)])
	case k == 1 && len(r.hints) > 0:
		return cl(r.hints[r.Intn(len(r.hints))])
	case k < 6:
		return cl(int64(r.Intn(21) - 10))
	case k < 8:
		return cl(int64(r.Intn(2001) - 1000))
	}
	if uint64(hi-lo)+1 == 0 {
		return int64(r.Uint64())
	}
	return lo + int64(r.Uint64()%uint64(hi-lo+1))
}

// Size is a length which grows with the case index.
func (r *R) Size(max int) int {
	m := r.N/20 + 2
	if m > max {
		m = max
	}
	return r.Intn(m + 1)
}

func (r *R) Bool() bool { return r.Intn(2) == 0 }

// One is true with probability 1/n.
func (r *R) One(n int) bool { return r.Intn(n) == 0 }

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// Run executes cases until the time is used up.
func Run(t *testing.T, name, rule string, f func(r *R)) { RunN(t, name, rule, 1<<30, 1, f) }

// RunN executes at most n cases in a share of the time.
func RunN(t *testing.T, name, rule string, n int, share float64, f func(r *R)) {
	t.Helper()
	seed := int64(envInt("VERIF_SEED", 1))
	budget := time.Duration(float64(envInt("VERIF_BUDGET", 5)) * share * float64(time.Second))
	var hints []int64
	for _, h := range strings.Split(os.Getenv("VERIF_HINTS"), ",") {
		if v, err := strconv.ParseInt(h, 10, 64); err == nil {
			hints = append(hints, v)
		}
	}
	end := time.Now().Add(budget)
	seen := map[uint64]bool{}
	fmt.Printf("VERIF-RULE %s: %s\n", name, strings.ReplaceAll(rule, "\n", " "))
	var mu sync.Mutex
	var cur *R
	var since time.Time
	done := make(chan bool)
	go func() { // a case which does not end is a failure
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			mu.Lock()
			c, s := cur, since
			mu.Unlock()
			if c != nil && time.Since(s) > 20*time.Second {
				report(name, c, "does not terminate within 20 s")
				os.Exit(1)
			}
		}
	}()
	defer close(done)
	cases := 0
	for i := 0; i < n && (i < 30 || time.Now().Before(end)); i++ {
		r := &R{Rand: rand.New(rand.NewSource(seed*1000003 + int64(i))), N: i, hints: hints}
		mu.Lock()
		cur, since = r, time.Now()
		mu.Unlock()
		one(r, f)
		mu.Lock()
		cur = nil
		mu.Unlock()
		if r.skip {
			continue
		}
		cases++
		d := strings.Join(r.desc, " ")
		h := fnv.New64a()
		h.Write([]byte(d))
		if len(seen) < 2000000 {
			seen[h.Sum64()] = true
		}
		if i == 3 || i == 60 {
			fmt.Printf("VERIF-SAMPLE %s: %s\n", name, clip(strings.ReplaceAll(d, "\n", " ")))
		}
		if r.fail != "" {
			report(name, r, r.fail)
			fmt.Printf("VERIF-CASES %d %d\n", cases, len(seen))
			t.FailNow()
		}
	}
	fmt.Printf("VERIF-CASES %d %d\n", cases, len(seen))
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func report(name string, r *R, why string) {
	id := r.id
	if id == "" {
		id = "-"
	}
	fmt.Printf("\nVERIF-FAIL %s %s case %d: %s\n", id, name, r.N, strings.ReplaceAll(why, "\n", "\n    "))
	for _, d := range r.desc {
		fmt.Printf("    input: %s\n", strings.ReplaceAll(d, "\n", "\n    "))
	}
}

func one(r *R, f func(r *R)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				return
			}
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			r.fail = fmt.Sprintf("panic: %v\n%s", e, buf)
		}
	}()
	f(r)
}
