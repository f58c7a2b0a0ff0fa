package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"
	"unsafe"
	"weak"

	"github.com/hired/gevulot/pkg/server"

	"gevulotverif/vnet"
	"gevulotverif/vsched"
)

func init() { runners["residue"] = runResidue }

// rz is the environment of the code whose leavings are counted.
type rz struct {
	r      *Rec
	rng    *rand.Rand
	w      *vnet.World
	srv    *server.Server
	dist   *server.ConfigDistributor
	src    chan *server.Config
	ln     string
	direct bool
	closed bool
	db     string // what databases do at the moment
	n      int

	mu      sync.Mutex
	conns   []weak.Pointer[vnet.VConn]
	lns     []weak.Pointer[vnet.VListener]
	servers []weak.Pointer[server.Server]
	configs []weak.Pointer[server.Config]
	tokens  []weak.Pointer[rzToken]
	chans   []weak.Pointer[byte]

	stay map[string][]*vnet.VConn
	subs map[string][]*rzSub
}

type rzToken struct{ seen [64]byte }

type rzSub struct {
	ch   chan *server.Config
	stop chan struct{}
}

var rzReply = []byte{'Z', 0, 0, 0, 5, 'I'}

func (x *rz) open() (*vnet.VConn, bool) {
	if x.direct {
		under, far := x.w.ClientPair()
		go func() { _ = x.srv.ServeConn(under) }()
		return far, true
	}
	far, err := x.w.ClientDial(x.ln)
	return far, err == nil
}

// serveDB answers every message of a client, floods it or leaves when asked to.
func (x *rz) serveDB(c *vnet.VConn, db string) {
	defer c.Close()
	switch db {
	case "rude":
		return
	case "mute":
		time.Sleep(5 * time.Second)
		c.Reset()
		return
	case "blurt": // says something and leaves, without listening
		_, _ = c.Write(cat([]byte{'E'}, be32(4+1000), make([]byte, 1000)))
		return
	}
	h, ok := readSome(c, 4)
	if !ok {
		return
	}
	if _, ok = readSome(c, int(binary.BigEndian.Uint32(h))-4); !ok {
		return
	}
	for {
		h, ok := readSome(c, 5)
		if !ok {
			return
		}
		q, ok := readSome(c, int(binary.BigEndian.Uint32(h[1:]))-4)
		if !ok || len(q) == 0 {
			return
		}
		switch q[0] {
		case 'b':
			return
		case 'r':
			c.Reset()
			return
		}
		if _, err := c.Write(rzReply); err != nil {
			return
		}
		if q[0] == 'f' {
			big := cat([]byte{'d'}, be32(4+9000), make([]byte, 9000))
			for i := 0; i < 20; i++ {
				if _, err := c.Write(big); err != nil {
					return
				}
			}
		}
	}
}

// within does something that has to come to an end.
func (x *rz) within(what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(2 * patience)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		x.r.Emit("Stuck", "in", what)
	}
}

func rzSend(c *vnet.VConn, what string) {
	_, _ = c.Write(cat([]byte{'Q'}, be32(4+len(what)+1), []byte(what), []byte{0}))
}

func rzAsk(c *vnet.VConn, what string) bool {
	rzSend(c, what)
	b, ok := readSome(c, len(rzReply))
	return ok && bytes.Equal(b, rzReply)
}

func drain(c *vnet.VConn) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
	}
}

// visit comes, does something and leaves.
func (x *rz) visit(kind string, i int, rng *rand.Rand) {
	c, ok := x.open()
	if !ok {
		return
	}
	defer c.Close()
	giveUp := time.AfterFunc(patience/2, c.Reset)
	defer giveUp.Stop()
	user := fmt.Sprintf("visitor%d", i)
	pkt := startupPacket(196608, [][2]string{{"user", user}, {"database", "d1"}}, true)
	switch kind {
	case "silent":
		time.Sleep(time.Duration(rng.Intn(2000)))
		return
	case "cut":
		_, _ = c.Write(pkt[:rng.Intn(len(pkt))])
		time.Sleep(time.Duration(rng.Intn(2000)))
		return
	case "early":
		_, _ = c.Write(pkt)
		time.Sleep(time.Duration(rng.Intn(300)))
		c.Reset()
		return
	case "refused":
		_, _ = c.Write(startupPacket(196608, [][2]string{{"user", user}, {"database", "d9"}}, true))
		drain(c)
		return
	case "garbage":
		_, _ = c.Write(cat(be32(12), be32(0x04d20000+rng.Intn(1000)), be32(rng.Intn(1<<30))))
		drain(c)
		return
	case "nodb", "rude", "blurt":
		_, _ = c.Write(pkt)
		drain(c)
		return
	case "slow", "slowno":
		_, _ = c.Write(pkt)
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(2000)))
			if rng.Intn(2) == 0 {
				c.Reset()
			}
			return
		}
		if kind == "slowno" {
			drain(c)
			return
		}
	case "mute":
		_, _ = c.Write(pkt)
		for i := rng.Intn(12); i > 0; i-- {
			if _, err := c.Write(cat([]byte{'d'}, be32(4+9000), make([]byte, 9000))); err != nil {
				break
			}
		}
		if rng.Intn(2) == 0 {
			drain(c)
		}
		return
	case "ssl":
		_, _ = c.Write(cat(be32(8), be32(80877103)))
		if b, ok := readSome(c, 1); !ok || b[0] != 'N' {
			return
		}
	}
	if kind != "slow" {
		_, _ = c.Write(pkt)
	}
	if !rzAsk(c, "hello") {
		return
	}
	switch kind {
	case "half":
		_ = c.CloseWrite()
		drain(c)
	case "reset":
		c.Reset()
	case "bye", "rst":
		rzSend(c, kind)
		drain(c)
	case "flood":
		rzSend(c, kind)
		time.Sleep(time.Duration(rng.Intn(100000)))
	case "junk":
		_, _ = c.Write(cat([]byte{'Q'}, be32(rng.Intn(4)), make([]byte, 8)))
		drain(c)
	case "terminate":
		_, _ = c.Write(cat([]byte{'X'}, be32(4)))
	}
}

func alive[T any](ps *[]weak.Pointer[T], ok func(*T) bool) int {
	n := 0
	var keep []weak.Pointer[T]
	for _, p := range *ps {
		if v := p.Value(); v != nil {
			keep = append(keep, p)
			if ok(v) {
				n++
			}
		}
	}
	*ps = keep
	return n
}

func (x *rz) measure() {
	settle()
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(1)
	}
	g := runtime.NumGoroutine()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	x.mu.Lock()
	defer x.mu.Unlock()
	c := alive(&x.conns, func(c *vnet.VConn) bool { return c.IsClient() })
	d := alive(&x.conns, func(c *vnet.VConn) bool { return !c.IsClient() })
	x.r.Emit("Measure", "c", c, "d", d, "l", alive(&x.lns, func(*vnet.VListener) bool { return true }),
		"v", alive(&x.servers, func(*server.Server) bool { return true }), "k", alive(&x.configs, func(*server.Config) bool { return true }),
		"s", max(alive(&x.tokens, func(*rzToken) bool { return true }), alive(&x.chans, func(*byte) bool { return true })), "g", g, "b", int(ms.HeapAlloc))
}

func (x *rz) push(fresh bool) {
	if fresh {
		x.n++
		x.ln = fmt.Sprintf("127.0.0.1:%d", 5000+x.n)
	}
	cfg := &server.Config{Listen: x.ln, DatabaseURL: dbURL(x.rng, "d1", "10.0.0.1:5432")}
	x.configs = append(x.configs, weak.Make(cfg))
	x.within("push", func() { x.src <- cfg })
}

func (x *rz) subscribe(kind string) {
	s := &rzSub{ch: make(chan *server.Config, x.rng.Intn(2)), stop: make(chan struct{})}
	tok := &rzToken{}
	x.tokens = append(x.tokens, weak.Make(tok))
	x.chans = append(x.chans, weak.Make((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&s.ch)))))
	every := x.rng.Intn(2) == 0
	x.subs[kind] = append(x.subs[kind], s)
	sub := func() {
		_ = x.dist.Subscribe(s.ch, func(o, n *server.Config) bool {
			tok.seen[0]++
			return every || o == nil || n == nil || o.Listen != n.Listen
		})
	}
	if kind == "stalled" {
		go sub()
		return
	}
	defer sub()
	if kind == "reads" {
		go func() {
			for {
				select {
				case <-s.ch:
				case <-s.stop:
					return
				}
			}
		}()
	}
}

func runResidue(r *Rec, j *Job, rng *rand.Rand) {
	w := &vnet.World{Clients: max(0, rng.Intn(5)-2), Cap: []int{512, 4096, 1 << 16}[rng.Intn(3)], Fragment: rng.Intn(3) == 0}
	x := &rz{r: r, rng: rng, w: w, src: make(chan *server.Config), ln: "127.0.0.1:5000", direct: rng.Intn(3) == 0,
		stay: map[string][]*vnet.VConn{}, subs: map[string][]*rzSub{}}
	w.OnDial = func(addr string) (vnet.DialMode, func(*vnet.VConn)) {
		x.mu.Lock()
		db := x.db
		x.mu.Unlock()
		switch db {
		case "nodb":
			return vnet.Refuse, nil
		case "slow", "slowno":
			time.Sleep(5 * time.Second)
			if db == "slowno" {
				return vnet.Refuse, nil
			}
		}
		return vnet.Accept, func(far *vnet.VConn) { go x.serveDB(far, db) }
	}
	w.OnHand = func(c *vnet.VConn) {
		x.mu.Lock()
		x.conns = append(x.conns, weak.Make(c))
		x.mu.Unlock()
	}
	w.OnBind = func(l *vnet.VListener) {
		x.mu.Lock()
		x.lns = append(x.lns, weak.Make(l))
		x.mu.Unlock()
	}
	if rng.Intn(2) == 0 {
		vsched.Coarse(true)
	}
	vnet.Install(w)
	x.dist = server.NewConfigDistributor(x.src)
	x.srv = server.NewServer(x.dist)
	go func() { _, _ = x.dist.Get() }()
	if !x.direct {
		srv := x.srv
		go func() { _ = srv.Start() }()
	}
	for _, op := range j.Ops {
		x.do(op)
	}
	r.Stop()
	x.within("end", func() {
		if !x.closed {
			_ = x.srv.Close()
		}
		for _, k := range []string{"reads", "stalled"} {
			x.unsubscribe(k)
		}
		x.dist.Close()
	})
	settle()
	w.Shutdown()
}

func (x *rz) unsubscribe(kind string) {
	for _, s := range x.subs[kind] {
		x.dist.Unsubscribe(s.ch)
		close(s.stop)
	}
	x.subs[kind] = nil
}

func (x *rz) do(op Op) {
	r, rng := x.r, x.rng
	switch op.Op {
	case "m":
		x.measure()
		return
	case "push":
		r.Emit("Push", "n", op.N)
		for i := 0; i < op.N; i++ {
			x.push(op.K == "new")
			if rng.Intn(4) == 0 {
				settle()
			}
		}
	case "visit":
		r.Emit("Visit", "k", op.K, "n", op.N)
		x.mu.Lock()
		x.db = op.K
		x.mu.Unlock()
		together := rng.Intn(2) == 0
		var wg sync.WaitGroup
		for i := 0; i < op.N; i++ {
			if together {
				wg.Add(1)
				vr := rand.New(rand.NewSource(rng.Int63()))
				go func() { defer wg.Done(); x.visit(op.K, i, vr) }()
				time.Sleep(time.Duration(rng.Intn(1000)))
			} else {
				x.visit(op.K, i, rng)
				time.Sleep(time.Duration(rng.Intn(100000)))
			}
		}
		wg.Wait()
		settle()
		x.mu.Lock()
		x.db = ""
		x.mu.Unlock()
	case "stay":
		r.Emit("Stay", "k", op.K, "n", op.N)
		for i := 0; i < op.N; i++ {
			c, ok := x.open()
			if !ok {
				continue
			}
			t := time.AfterFunc(patience/2, c.Reset)
			if op.K == "served" {
				_, _ = c.Write(startupPacket(196608, [][2]string{{"user", "u"}, {"database", "d1"}}, true))
				_ = rzAsk(c, "hello")
			}
			t.Stop()
			x.stay[op.K] = append(x.stay[op.K], c)
		}
	case "leave":
		r.Emit("Leave", "k", op.K, "n", op.N)
		for i := 0; i < op.N && len(x.stay[op.K]) > 0; i++ {
			c := x.stay[op.K][0]
			x.stay[op.K][0] = nil
			x.stay[op.K] = x.stay[op.K][1:]
			if rng.Intn(3) == 0 {
				c.Reset()
			} else {
				_ = c.Close()
			}
		}
	case "sub":
		r.Emit("Sub", "k", op.K, "n", op.N)
		x.within("subscribe", func() {
			for i := 0; i < op.N; i++ {
				x.subscribe(op.K)
			}
			settle()
		})
	case "unsub":
		r.Emit("Unsub", "k", op.K)
		x.within("unsubscribe", func() { x.unsubscribe(op.K) })
	case "get":
		r.Emit("Get", "n", op.N)
		for i := 0; i < op.N; i++ {
			go func() { _, _ = x.dist.Get() }()
		}
	case "servers":
		r.Emit("Servers", "n", op.N)
		for i := 0; i < op.N; i++ {
			s := server.NewServer(x.dist)
			x.servers = append(x.servers, weak.Make(s))
			go func() { _ = s.Start() }()
			if rng.Intn(2) == 0 {
				settle()
			}
			x.within("close", func() { _ = s.Close() })
		}
		settle()
	case "close":
		r.Emit("Close")
		x.closed = true
		x.within("close", func() { _ = x.srv.Close() })
		settle()
		for k := range x.stay {
			for _, c := range x.stay[k] {
				_ = c.Close()
			}
			x.stay[k] = nil
		}
	default:
		panic("op " + op.Op)
	}
	settle()
}
