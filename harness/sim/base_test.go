// Package sim runs the real server inside a deterministic simulation and records what its environment observes.
package sim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	log "github.com/sirupsen/logrus"

	"gevulotverif/vnet"
	"gevulotverif/vsched"
)

// Ev is one recorded event.
type Ev map[string]any

// Rec records events in the order in which they happen.
type Rec struct {
	mu  sync.Mutex
	f   *os.File
	run int
	n   int
	off bool
	cur map[string]int // open range events, for merging
}

func (r *Rec) line(m map[string]any) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	if _, err := r.f.Write(append(b, '\n')); err != nil {
		panic(err)
	}
}

// Emit appends an event.
func (r *Rec) Emit(e string, kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.emitLocked(e, kv...)
}

func (r *Rec) emitLocked(e string, kv ...any) {
	if r.off {
		return
	}
	m := map[string]any{"e": e}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.n++
	r.line(m)
}

// Stop drops all later events (teardown).
func (r *Rec) Stop() {
	r.mu.Lock()
	r.off = true
	r.mu.Unlock()
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(name + ": " + err.Error())
		}
		return n
	}
	return def
}

// Job is one line of the job file: a script and the schedules to run it under.
type Job struct {
	Kind  string          `json:"kind"`
	Id    int             `json:"id"`
	Ops   []Op            `json:"ops"`
	Opt   map[string]any  `json:"opt"`
	Seeds []int64         `json:"seeds"`
	Plan  json.RawMessage `json:"plan"`
}

// Op is one step of a script.
type Op struct {
	Op   string   `json:"op"`
	S    int      `json:"s"`
	N    int      `json:"n"`
	K    string   `json:"k"`
	Dbs  []string `json:"dbs"`
	Db   string   `json:"db"`
	Addr string   `json:"addr"`
}

// planFor derives a schedule from a seed: a mix of random walks, single long delays and slow statements.
func planFor(rng *rand.Rand, nsites int) (vsched.Plan, string) {
	p := vsched.Plan{Seed: rng.Int63(), Site: -1, Long: time.Duration(1+rng.Intn(200)) * time.Microsecond}
	kind := ""
	switch x := rng.Intn(100); {
	case x < 20:
		p.Range, p.Skip, kind = []int{3, 30, 300, 3000}[rng.Intn(4)], 0, "random"
	case x < 35:
		p.Range, p.Skip, kind = 2000, 60+rng.Intn(39), "sparse"
	case x < 55:
		p.Range, kind = 3, "delay"
		p.Steps = map[int]bool{}
		for i := 1 + rng.Intn(3); i > 0; i-- {
			p.Steps[int(rng.ExpFloat64()*400)] = true
		}
	default:
		p.Range, kind = 20, "site"
		if nsites > 0 {
			p.Site = rng.Intn(nsites)
		}
	}
	if rng.Intn(4) == 0 {
		p.Inner = []int{5, 50, 300}[rng.Intn(3)]
		kind += "+inner"
	}
	return p, kind
}

var nsites = envInt("SIM_SITES", 0)

// runners by kind of job
var runners = map[string]func(r *Rec, j *Job, rng *rand.Rand){}

func TestSim(t *testing.T) {
	in, out := os.Getenv("SIM_JOBS"), os.Getenv("SIM_OUT")
	if in == "" {
		t.Skip("no SIM_JOBS")
	}
	runtime.GOMAXPROCS(1)
	log.SetOutput(io.Discard)
	skip := envInt("SIM_SKIP", 0)
	budget := time.Duration(envInt("SIM_BUDGET_MS", 0)) * time.Millisecond
	begin := time.Now()
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	o, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	run := 0
	for sc.Scan() {
		var j Job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			t.Fatal(err)
		}
		fn := runners[j.Kind]
		if fn == nil {
			t.Fatalf("unknown kind %q", j.Kind)
		}
		for _, seed := range j.Seeds {
			run++
			if run <= skip {
				continue
			}
			if budget > 0 && time.Since(begin) > budget {
				(&Rec{f: o}).line(map[string]any{"X": "budget"})
				return
			}
			oneRun(t, o, run, &j, seed, fn)
		}
	}
	(&Rec{f: o}).line(map[string]any{"X": "done"})
}

func oneRun(t *testing.T, o *os.File, run int, j *Job, seed int64, fn func(*Rec, *Job, *rand.Rand)) {
	r := &Rec{f: o, run: run}
	rng := rand.New(rand.NewSource(seed))
	plan, kind := planFor(rng, nsites)
	patience = []time.Duration{20 * time.Second, 20 * time.Second, 11 * time.Minute, 50 * time.Hour}[uint64(seed)>>7%4]
	if rng.Intn(12) == 0 {
		log.SetLevel(log.DebugLevel)
	} else {
		log.SetLevel(log.InfoLevel)
	}
	r.line(map[string]any{"B": run, "job": j.Id, "seed": seed, "plan": kind, "site": plan.Site})
	var leak any
	stop := watch(run)
	ok := t.Run("r", func(t *testing.T) {
		defer func() { leak = recover() }()
		synctest.Test(t, func(t *testing.T) {
			vsched.Start(plan)
			fn(r, j, rng)
			r.Stop()
		})
	})
	stop()
	n, seen := vsched.Stop()
	vnet.Install(nil)
	z := map[string]any{"Z": run, "yields": n, "nseen": len(seen), "hit": plan.Site < 0 || seen[plan.Site] > 0}
	if leak != nil {
		s := fmt.Sprint(leak)
		if strings.HasPrefix(s, "deadlock: main bubble goroutine has exited") {
			z["leak"] = true
		} else {
			z["broken"] = s
		}
	} else if !ok {
		z["broken"] = "subtest failed"
	}
	r.line(z)
}

// watch ends the process when a run does not finish in real time (a busy loop in uninstrumented code).
func watch(run int) func() {
	t := time.AfterFunc(90*time.Second, func() {
		fmt.Fprintf(os.Stderr, "verif: run %d takes too long in real time\n", run)
		buf := make([]byte, 1<<16)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		os.Exit(97)
	})
	return func() { t.Stop() }
}

// patience is how long nothing has to happen before nothing can happen any more: sometimes so long that
// nobody can have set a timer for later.
var patience = 20 * time.Second

// settle lets everything that can happen happen. The server's own timers fire within it.
func settle() { time.Sleep(patience) }

func optInt(o map[string]any, k string, def int) int {
	if v, ok := o[k].(float64); ok {
		return int(v)
	}
	return def
}

func optStr(o map[string]any, k string, def string) string {
	if v, ok := o[k].(string); ok {
		return v
	}
	return def
}
