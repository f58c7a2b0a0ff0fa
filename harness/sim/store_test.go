package sim

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

func init() { runners["store"] = runStore }

// st is the environment of one configuration store.
type st struct {
	r    *Rec
	rng  *rand.Rand
	dist *server.ConfigDistributor
	src  chan *server.Config
	stop chan struct{}

	mu    sync.Mutex
	index map[*server.Config]int
	chans map[int]*stChan
	thr   map[int]*opq
	gap   int
}

type stChan struct {
	id    int
	ch    chan *server.Config
	kick  chan struct{}
	mu    sync.Mutex
	stall bool
	gap   int
	dead  bool
}

func (x *st) num(c *server.Config) int {
	if c == nil {
		return 0
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if n, ok := x.index[c]; ok {
		return n
	}
	return -1
}

func (x *st) chanOf(n int) *stChan {
	c := x.chans[n]
	if c == nil {
		c = &stChan{id: n, ch: make(chan *server.Config, []int{0, 0, 1, 1, 2, 4}[x.rng.Intn(6)]), kick: make(chan struct{}, 1),
			gap: []int{0, 0, 50, 5000}[x.rng.Intn(4)]}
		x.chans[n] = c
		go x.receive(c, rand.New(rand.NewSource(x.rng.Int63())))
	}
	return c
}

func (x *st) receive(c *stChan, rng *rand.Rand) {
	for {
		c.mu.Lock()
		ch := c.ch
		if c.stall {
			ch = nil
		}
		c.mu.Unlock()
		select {
		case v, ok := <-ch:
			if !ok {
				return
			}
			x.r.Emit("Recv", "c", c.id, "k", x.num(v))
			if c.gap > 0 {
				time.Sleep(time.Duration(rng.Intn(c.gap)))
			}
		case <-c.kick:
		case <-x.stop:
			return
		}
	}
}

func (c *stChan) set(stall bool) {
	c.mu.Lock()
	c.stall = stall
	c.mu.Unlock()
	select {
	case c.kick <- struct{}{}:
	default:
	}
}

// after lets the receivers record what has been handed to them so far.
func after() { time.Sleep(1) }

func (x *st) preds(c int, names []string) []server.ConfigChangedCheckFn {
	var fs []server.ConfigChangedCheckFn
	for _, n := range names {
		n := n
		fs = append(fs, func(o, w *server.Config) bool {
			x.r.Emit("Pred", "c", c, "old", x.num(o), "new", x.num(w))
			if w == nil {
				return false
			}
			switch n {
			case "l":
				return o == nil || o.Listen != w.Listen
			case "d":
				return o == nil || o.DatabaseURL != w.DatabaseURL
			case "first":
				return o == nil
			case "later":
				return o != nil
			}
			return false
		})
	}
	return fs
}

func errName(err error) string {
	switch err {
	case nil:
		return "ok"
	case server.ErrConfigDistributorClosed:
		return "closed"
	}
	return "other: " + err.Error()
}

func runStore(r *Rec, j *Job, rng *rand.Rand) {
	x := &st{r: r, rng: rng, src: make(chan *server.Config), stop: make(chan struct{}), index: map[*server.Config]int{},
		chans: map[int]*stChan{}, thr: map[int]*opq{}, gap: []int{0, 1, 30, 3000}[rng.Intn(4)]}
	if _, ok := j.Opt["gap"]; ok {
		x.gap = 0
	}
	x.dist = server.NewConfigDistributor(x.src)
	nch := optInt(j.Opt, "ch", 3)
	for c := 1; c <= nch; c++ {
		x.chanOf(c)
	}
	push := newOpq()
	go push.run()
	n := 0
	settled := rng.Intn(8) == 0
	rest := func() {
		settle()
		r.Emit("Quiesce")
	}
	for _, op := range j.Ops {
		op := op
		switch op.Op {
		case "q":
			rest()
		case "push":
			n++
			k := n
			cfg := &server.Config{Listen: op.K, DatabaseURL: op.Db}
			x.index[cfg] = k
			push.add(func() {
				r.Emit("Push", "l", op.K, "d", op.Db)
				select {
				case x.src <- cfg:
					r.Emit("Pushed")
				case <-x.stop:
				}
			})
		case "srcclose":
			push.add(func() {
				r.Emit("SrcClose")
				close(x.src)
			})
		case "stall", "resume":
			c := x.chanOf(op.N)
			if op.Op == "stall" {
				r.Emit("Stall", "c", op.N)
			} else {
				r.Emit("Resume", "c", op.N)
			}
			c.set(op.Op == "stall")
		default:
			q := x.thr[op.S]
			if q == nil {
				q = newOpq()
				x.thr[op.S] = q
				go q.run()
			}
			q.add(func() { x.call(op) })
		}
		if settled && op.Op != "q" {
			rest()
		} else if x.gap > 0 {
			time.Sleep(time.Duration(rng.Intn(x.gap)))
		}
	}
	rest()
	// what follows is not judged
	r.Stop()
	r.line(map[string]any{"Stop": 1})
	done := make(chan struct{})
	go func() { x.dist.Close(); close(done) }()
	for _, c := range x.chans {
		c.set(false)
	}
	settle()
	close(x.stop)
	push.end()
	for _, q := range x.thr {
		q.end()
	}
	go func() { // free whatever may still be blocked on a channel
		for _, c := range x.chans {
			if !c.dead {
				go func(c *stChan) {
					for i := 0; i < 1000; i++ {
						select {
						case <-c.ch:
						case <-time.After(time.Second):
						}
					}
				}(c)
			}
		}
	}()
	settle()
	r.line(map[string]any{"NoLeak": 1})
}

func (x *st) call(op Op) {
	r := x.r
	switch op.Op {
	case "get":
		r.Emit("GetCall", "t", op.S)
		c, err := x.dist.Get()
		after()
		k := 0
		if err == nil {
			if k = x.num(c); k == 0 {
				k = -1
			}
		} else if e := errName(err); e != "closed" {
			r.Emit("Odd", "what", "Get: "+e)
			return
		}
		r.Emit("GetRet", "t", op.S, "k", k)
	case "sub":
		c := x.chans[op.N]
		if c.dead {
			return
		}
		if op.Dbs == nil {
			op.Dbs = []string{}
		}
		r.Emit("SubCall", "t", op.S, "c", op.N, "p", op.Dbs)
		err := x.dist.Subscribe(c.ch, x.preds(op.N, op.Dbs)...)
		after()
		r.Emit("SubRet", "t", op.S, "r", errName(err))
	case "unsub", "unsubclose":
		c := x.chans[op.N]
		r.Emit("UnsubCall", "t", op.S, "c", op.N)
		x.dist.Unsubscribe(c.ch)
		if op.Op == "unsubclose" && !c.dead {
			c.dead = true
			close(c.ch)
		}
		after()
		r.Emit("UnsubRet", "t", op.S, "n", len(c.ch))
	case "close":
		r.Emit("CloseCall", "t", op.S)
		x.dist.Close()
		after()
		ns := []int{}
		for i := 1; i <= len(x.chans); i++ {
			ns = append(ns, len(x.chans[i].ch))
		}
		r.Emit("CloseRet", "t", op.S, "ns", ns)
	default:
		panic(fmt.Sprint("op ", op.Op))
	}
}
