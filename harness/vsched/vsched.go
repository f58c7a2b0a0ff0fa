// Package vsched is the schedule controller of the simulation. Instrumented code calls Yield before every
// statement; inside a synctest bubble a yield sleeps a number of fake nanoseconds chosen by the seed, so the
// seed decides which goroutine goes on next.
package vsched

import (
	"math/rand"
	rand2 "math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Plan describes one schedule.
type Plan struct {
	Seed  int64         // base randomness
	Range int           // ordinary yields sleep 0..Range-1 ns (0: no ordinary yields)
	Skip  int           // percentage of yields that do not sleep at all
	Steps map[int]bool  // yields (counted from 0) that sleep Long
	Site  int           // every yield at this site sleeps Long (<0: none)
	Inner int           // how many of 1000 statements of inner packages sleep
	Gor   int           // every yield is slowed for one call in Gor (0: off); crude "slow goroutine"
	Long  time.Duration // the long sleep
}

type sched struct {
	mu   sync.Mutex
	rng  *rand.Rand
	plan Plan
	n    int
	max  int
	seen map[int]int

	coarse bool // only now and then a yield counts
	skips  int
}

var cur atomic.Pointer[sched]

// MaxYields bounds a run; more means that the code under test spins.
const MaxYields = 3000000

// Start installs a plan.
func Start(p Plan) {
	ticks.Store(0)
	cur.Store(&sched{rng: rand.New(rand.NewSource(p.Seed)), plan: p, max: MaxYields, seen: map[int]int{}})
}

// Stop removes the plan and returns the number of yields and the sites seen.
func Stop() (int, map[int]int) {
	s := cur.Swap(nil)
	if s == nil {
		return 0, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n, s.seen
}

// Coarse makes the schedule coarser (while there is a lot to do) or fine again.
func Coarse(on bool) {
	if s := cur.Load(); s != nil {
		s.mu.Lock()
		s.coarse = on
		s.mu.Unlock()
	}
}

// Yield gives other goroutines a chance to run.
func Yield(site int) {
	s := cur.Load()
	if s == nil {
		return
	}
	if d := s.next(site); d > 0 {
		time.Sleep(d)
	}
}

// MaxTicks bounds the loop iterations in uninstrumented code between two runs.
const MaxTicks = 60000000

var ticks atomic.Int64

// Tick counts an iteration of a loop of the code under test.
func Tick() {
	if ticks.Add(1) > MaxTicks {
		panic("verif: livelock: the code under test keeps running without waiting for anything")
	}
}

// Inner is called before every statement of inner packages.
func Inner(int) {
	s := cur.Load()
	if s == nil || s.plan.Inner == 0 {
		return
	}
	s.mu.Lock()
	d := 0
	if s.rng.Intn(1000) < s.plan.Inner {
		d = 1 + s.rng.Intn(300)
	}
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Pause is a yield of the harness itself (network operations); it is not counted as a site.
func Pause() { Yield(-1) }

func (s *sched) next(site int) time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.coarse {
		if s.skips++; s.skips > 10*s.max {
			panic("verif: livelock: the code under test keeps running without waiting for anything")
		}
		if s.skips%16 != 0 {
			return 0
		}
		return time.Duration(s.rng.Intn(40))
	}
	n := s.n
	s.n++
	if site >= 0 {
		s.seen[site]++
	}
	if s.n > s.max {
		panic("verif: livelock: the code under test keeps running without waiting for anything")
	}
	p := &s.plan
	if p.Steps[n] || (site >= 0 && site == p.Site) {
		return p.Long
	}
	if p.Range <= 0 || (p.Skip > 0 && s.rng.Intn(100) < p.Skip) {
		return 0
	}
	return time.Duration(s.rng.Intn(p.Range))
}

// Intn draws from the schedule's randomness (used by locks and the network).
func Intn(n int) int {
	s := cur.Load()
	if s == nil || n <= 1 {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rng.Intn(n)
}

// Mixing makes Mix give way to other goroutines.
var Mixing atomic.Bool

// Mix is called before every statement of code that is run without a schedule of its own.
func Mix(int) {
	if Mixing.Load() && rand2.IntN(3) != 0 {
		runtime.Gosched()
	}
}
