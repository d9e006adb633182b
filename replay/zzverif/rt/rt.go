// Package rt supports the bounded replays (overlay only).
package rt

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// R is a replay run of one property.
type R struct {
	T       *testing.T
	Rnd     *rand.Rand
	Level   int
	n, nt   int
	seen    map[string]bool
	fails   map[string]int
	samples int
	end     time.Time
	rule    string
	last    atomic.Value // the case that was counted last
	at      int64        // and when
	over    int32
}

// New starts a replay.
func New(t *testing.T, rule string) *R {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	lvl, _ := strconv.Atoi(os.Getenv("VERIF_LEVEL"))
	if lvl == 0 {
		lvl = 1
	}
	r := &R{T: t, Rnd: rand.New(rand.NewSource(seed)), Level: lvl, seen: map[string]bool{}, fails: map[string]int{}, rule: rule}
	d := map[int]time.Duration{1: 6 * time.Second, 2: 30 * time.Second, 3: 240 * time.Second}[lvl]
	r.end = time.Now().Add(d)
	fmt.Printf("REPLAY-RULE %s\n", rule)
	r.at = time.Now().UnixNano()
	go r.watch()
	return r
}

// watch reports code that does not come back or takes memory without bound.
func (r *R) watch() {
	for atomic.LoadInt32(&r.over) == 0 {
		time.Sleep(time.Second)
		what := ""
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 5<<30 {
			what = "takes memory without bound"
		}
		if time.Now().UnixNano()-atomic.LoadInt64(&r.at) > int64(60*time.Second) {
			what = "does not terminate"
		}
		if what != "" && atomic.LoadInt32(&r.over) == 0 {
			last, _ := r.last.Load().(string)
			fmt.Printf("REPLAY-FAIL key=hang on or after the case %s: %s\n", one(last), what)
			os.Exit(1)
		}
	}
}

// Scale picks a count by level.
func (r *R) Scale(n int) int {
	switch r.Level {
	case 2:
		return n * 8
	case 3:
		return n * 40
	}
	return n
}

// Left reports whether time is left for random search.
func (r *R) Left() bool { return time.Now().Before(r.end) }

// Done prints the counts.
func (r *R) Done() {
	atomic.StoreInt32(&r.over, 1)
	fmt.Printf("REPLAY-COUNT evaluations=%d nontrivial=%d\n", r.n, r.nt)
}

// Case counts an evaluation; desc names it when distinct and non-trivial.
func (r *R) Case(desc string) {
	r.n++
	atomic.StoreInt64(&r.at, time.Now().UnixNano())
	r.last.Store(desc)
	if desc != "" && len(r.seen) < 2000000 && !r.seen[desc] {
		r.seen[desc] = true
		r.nt++
		if r.samples < 4 || r.samples < 10 && r.nt%997 == 0 {
			r.samples++
			fmt.Printf("REPLAY-SAMPLE %s\n", one(desc))
		}
	}
}

func one(s string) string {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return strings.ReplaceAll(s, "\n", "\\n")
}

// Fail reports a failing input.
func (r *R) Fail(key, format string, a ...interface{}) {
	r.fails[key]++
	if r.fails[key] > 3 {
		return
	}
	fmt.Printf("REPLAY-FAIL key=%s %s\n", key, one(fmt.Sprintf(format, a...)))
	r.T.Fail()
}

// Current records the input being tried, for crashes that cannot be caught.
func (r *R) Current(desc string) {
	if d := os.Getenv("VERIF_REPLAY_DIR"); d != "" {
		os.WriteFile(filepath.Join(d, "current"), []byte(one(desc)), 0644)
	}
}

// Try runs f, reporting panics and, when it does not come back, the hang.
func (r *R) Try(key, desc string, f func()) (panicked bool, val interface{}) {
	type res struct {
		p   bool
		v   interface{}
		stk string
	}
	ch := make(chan res, 1)
	go func() {
		done := false
		defer func() {
			if !done {
				e := recover()
				buf := make([]byte, 3000)
				buf = buf[:runtime.Stack(buf, false)]
				ch <- res{true, e, string(buf)}
			}
		}()
		f()
		done = true
		ch <- res{}
	}()
	select {
	case x := <-ch:
		return x.p, x.v
	case <-time.After(10 * time.Second):
		fmt.Printf("REPLAY-FAIL key=%s-hang %s: does not terminate\n", key, one(desc))
		os.Exit(1)
	}
	return
}
