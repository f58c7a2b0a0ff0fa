package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"gevulotverif/vnet"
)

func init() { runners["life"] = runLife }

// lf is the environment of one server whose life cycle is exercised.
type lf struct {
	r    *Rec
	rng  *rand.Rand
	w    *vnet.World
	srv  *server.Server
	dist *server.ConfigDistributor
	src  chan *server.Config
	stop chan struct{}
	push *opq
	gap  int

	mu   sync.Mutex
	cl   map[int]*lfClient
	sess map[int]*server.Session
	busy map[int]bool
	dbs  []*vnet.VConn
}

type lfClient struct {
	x     *lf
	id    int
	conn  *vnet.VConn
	q     *opq
	mu    sync.Mutex
	gone  bool
	pings int
	pongs int
}

type lfDB struct{ s int }

var lfAddr = map[string]string{"a": "127.0.0.1:5001", "b": "0.0.0.0:5002", "c": ":5003", "d": "127.0.0.1:5004", "e": "127.0.0.2:5004"}

func (x *lf) real(a string) string {
	if v, ok := lfAddr[a]; ok {
		return v
	}
	return "127.0.0.1:60" + fmt.Sprintf("%02s", strings.TrimPrefix(a, "s"))
}

func (x *lf) sym(a string) string {
	for k, v := range lfAddr {
		if v == a {
			return k
		}
	}
	if strings.HasPrefix(a, "127.0.0.1:60") {
		return "s" + strings.TrimLeft(strings.TrimPrefix(a, "127.0.0.1:60"), "0")
	}
	return "?" + a
}

func lfErr(err error) string {
	switch err {
	case nil:
		return "nil"
	case server.ErrServerClosed:
		return "closed"
	case server.ErrServerAlreadyStarted:
		return "already"
	case server.ErrConfigDistributorClosed:
		return "store"
	case server.ErrSessionClosed:
		return "sclosed"
	}
	return "net"
}

func (c *lfClient) greet() {
	m := []byte("\x00\x03\x00\x00user\x00u" + fmt.Sprint(c.id) + "\x00database\x00d1\x00\x00")
	c.conn.Write(append(be32(len(m)+4), m...))
}

func (c *lfClient) read() {
	var buf []byte
	tmp := make([]byte, 4096)
	for {
		n, err := c.conn.Read(tmp)
		c.mu.Lock()
		if c.gone {
			c.mu.Unlock()
			return
		}
		buf = append(buf, tmp[:n]...)
		for len(buf) >= 5 {
			n := int(binary.BigEndian.Uint32(buf[1:]))
			if len(buf) < n+1 {
				break
			}
			f := buf[:n+1]
			buf = buf[n+1:]
			if want := lfFrame('C', c.pongs+1); !bytes.Equal(f, want) {
				c.x.r.Emit("Odd", "s", c.id, "what", string(f))
			}
			c.pongs++
			c.x.r.Emit("Pong", "s", c.id)
		}
		if err != nil {
			c.gone = true
			c.x.r.Emit("CEof", "s", c.id)
			c.mu.Unlock()
			c.conn.Close()
			return
		}
		c.mu.Unlock()
	}
}

func lfFrame(t byte, i int) []byte {
	s := append([]byte(fmt.Sprintf("p%d", i)), 0)
	return cat([]byte{t}, be32(len(s)+4), s)
}

// serveDB is the database: it answers every query.
func (x *lf) serveDB(c *vnet.VConn) {
	var buf []byte
	tmp := make([]byte, 4096)
	d := &lfDB{}
	c.Tag = d
	for {
		n, err := c.Read(tmp)
		buf = append(buf, tmp[:n]...)
		for {
			if d.s == 0 {
				if len(buf) < 4 || len(buf) < int(binary.BigEndian.Uint32(buf)) {
					break
				}
				n := int(binary.BigEndian.Uint32(buf))
				if i := bytes.Index(buf[:n], []byte("user\x00u")); i >= 0 {
					v := buf[i+6 : n]
					fmt.Sscan(string(v[:bytes.IndexByte(v, 0)]), &d.s)
				}
				buf = buf[n:]
				x.r.Emit("DStart", "s", d.s)
				continue
			}
			if len(buf) < 5 || len(buf) < int(binary.BigEndian.Uint32(buf[1:]))+1 {
				break
			}
			n := int(binary.BigEndian.Uint32(buf[1:])) + 1
			f := append([]byte(nil), buf[:n]...)
			buf = buf[n:]
			f[0] = 'C'
			c.Write(f)
		}
		if err != nil {
			c.Close()
			return
		}
	}
}

func (x *lf) client(s int) *lfClient {
	c := &lfClient{x: x, id: s, q: newOpq()}
	x.mu.Lock()
	x.cl[s] = c
	x.mu.Unlock()
	return c
}

func (c *lfClient) attach(far *vnet.VConn) {
	far.Tag = c
	c.conn = far
	go c.q.run()
	c.q.add(c.greet)
	go c.read()
}

func (x *lf) open() (oc, od map[int]bool, ox int) {
	oc, od = map[int]bool{}, map[int]bool{}
	for _, c := range x.w.OpenConns() {
		switch t := c.FarTag().(type) {
		case *lfClient:
			oc[t.id] = true
		case *lfDB:
			if t.s > 0 {
				od[t.s] = true
			} else {
				ox++
			}
		default:
			ox++
		}
	}
	return
}

func keysOf(m map[int]bool) []int {
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (x *lf) quiesce() {
	settle()
	oc, od, ox := x.open()
	b := []string{}
	for _, a := range x.w.Bound() {
		b = append(b, x.sym(a))
	}
	sort.Strings(b)
	x.r.Emit("Quiesce", "b", b, "oc", keysOf(oc), "od", keysOf(od), "ox", ox)
}

func runLife(r *Rec, j *Job, rng *rand.Rand) {
	w := &vnet.World{Clients: max(0, rng.Intn(5)-2), Cap: 4096, Fragment: rng.Intn(2) == 0}
	x := &lf{r: r, rng: rng, w: w, src: make(chan *server.Config), stop: make(chan struct{}), push: newOpq(),
		cl: map[int]*lfClient{}, sess: map[int]*server.Session{}, busy: map[int]bool{}}
	if rng.Intn(3) == 0 {
		w.DialDelay = time.Duration(rng.Intn(5000))
	}
	w.OnDial = func(addr string) (vnet.DialMode, func(*vnet.VConn)) {
		return vnet.Accept, func(far *vnet.VConn) {
			x.mu.Lock()
			x.dbs = append(x.dbs, far)
			x.mu.Unlock()
			go x.serveDB(far)
		}
	}
	w.OnListen = func(addr string, err error) {
		r.Emit("Listen", "a", x.sym(addr), "ok", err == nil)
	}
	w.OnListenerClose = func(addr string) { r.Emit("Unlisten", "a", x.sym(addr)) }
	vnet.Install(w)
	x.dist = server.NewConfigDistributor(x.src)
	x.srv = server.NewServer(x.dist)
	go x.push.run()
	settled := rng.Intn(5) == 0
	opgap := []int{0, 1, 100, 3000, 100000}[rng.Intn(5)]
	closing := false
	maxt := 0
	for _, op := range j.Ops {
		op := op
		closing = closing || op.Op == "close"
		switch op.Op {
		case "start", "serve", "serveconn", "sstart", "sclose", "close":
			if op.S > maxt {
				maxt = op.S
			}
		}
		switch op.Op {
		case "q":
			x.quiesce()
		case "avail":
			// the generator sees to it that everything is at rest; here it has to be brought about
			x.quiesce()
			w.BindFail(x.real(op.Addr), op.N == 0)
			r.Emit("Avail", "a", op.Addr, "ok", op.N == 1)
		case "push":
			cfg := &server.Config{Listen: x.real(op.Addr), DatabaseURL: dbURL(rng, "d1", "10.0.0.1:5432")}
			x.push.add(func() {
				r.Emit("Push", "a", op.Addr)
				select {
				case x.src <- cfg:
				case <-x.stop:
				}
			})
		case "dist":
			go func() {
				r.Emit("DistClose")
				x.dist.Close()
			}()
		case "start":
			r.Emit("Call", "t", op.S, "op", "start", "a", "", "s", 0)
			go func() {
				err := x.srv.Start()
				after()
				r.Emit("Ret", "t", op.S, "op", "start", "r", lfErr(err), "oc", false, "od", false)
			}()
		case "serve":
			w.OnListen = nil
			ln, err := w.ListenHarness(x.real(op.Addr))
			if err != nil {
				panic(err)
			}
			w.OnListen = func(addr string, err error) { r.Emit("Listen", "a", x.sym(addr), "ok", err == nil) }
			r.Emit("Call", "t", op.S, "op", "serve", "a", op.Addr, "s", 0)
			go func() {
				err := x.srv.Serve(ln)
				after()
				r.Emit("Ret", "t", op.S, "op", "serve", "r", lfErr(err), "oc", !ln.(*vnet.VListener).Closed(), "od", false)
			}()
		case "close":
			x.close(op.S)
		case "serveconn":
			under, far := w.ClientPair()
			c := x.client(op.N)
			c.attach(far)
			r.Emit("Call", "t", op.S, "op", "serveconn", "a", "", "s", op.N)
			go func() {
				err := x.srv.ServeConn(under)
				after()
				oc, od, _ := x.open()
				r.Emit("Ret", "t", op.S, "op", "serveconn", "r", lfErr(err), "oc", oc[op.N], "od", od[op.N])
			}()
		case "sstart", "sclose":
			s := x.sess[op.N]
			if op.Op == "sstart" {
				x.mu.Lock()
				busy := x.busy[op.N]
				x.busy[op.N] = true
				x.mu.Unlock()
				if busy { // a session is not meant to be started twice at the same time
					break
				}
			}
			if s == nil {
				under, far := w.ClientPair()
				s = server.NewSession(under, x.dist)
				x.sess[op.N] = s
				c := x.client(op.N)
				r.Emit("Call", "t", op.S, "op", op.Op, "a", "", "s", op.N)
				c.attach(far)
			} else {
				r.Emit("Call", "t", op.S, "op", op.Op, "a", "", "s", op.N)
			}
			go func() {
				var err error
				if op.Op == "sstart" {
					err = s.Start()
				} else {
					err = s.Close()
				}
				after()
				oc, od, _ := x.open()
				if op.Op == "sstart" {
					x.mu.Lock()
					x.busy[op.N] = false
					x.mu.Unlock()
				}
				r.Emit("Ret", "t", op.S, "op", op.Op, "r", lfErr(err), "oc", oc[op.N], "od", od[op.N])
			}()
		case "connect":
			if x.cl[op.S] != nil {
				break
			}
			far, err := w.ClientDial(x.real(op.Addr))
			if err != nil {
				// not bound at this moment; another try at whatever is
				b := w.Bound()
				if len(b) == 0 {
					break
				}
				sort.Strings(b)
				op.Addr = x.sym(b[rng.Intn(len(b))])
				if far, err = w.ClientDial(x.real(op.Addr)); err != nil {
					panic(err)
				}
			}
			c := x.client(op.S)
			r.Emit("Connect", "s", op.S, "a", op.Addr)
			c.attach(far)
		case "ping":
			if c := x.cl[op.S]; c != nil {
				c.q.add(func() {
					c.mu.Lock()
					if c.gone {
						c.mu.Unlock()
						return
					}
					c.pings++
					n := c.pings
					r.Emit("Ping", "s", c.id)
					c.mu.Unlock()
					c.conn.Write(lfFrame('Q', n))
				})
			}
		case "cclose":
			if c := x.cl[op.S]; c != nil {
				c.leave()
			}
		}
		if settled && op.Op != "q" {
			x.quiesce()
		} else if opgap > 0 {
			time.Sleep(time.Duration(rng.Intn(opgap)))
		}
	}
	x.quiesce()
	if !closing {
		x.close(maxt + 1)
		x.quiesce()
	}
	r.Stop()
	r.line(map[string]any{"Stop": 1})
	dc := make(chan struct{})
	go func() { x.dist.Close(); close(dc) }()
	for _, s := range x.sess {
		s := s
		go func() { s.Close() }()
	}
	settle()
	select {
	case <-dc:
	default:
		r.line(map[string]any{"NoLeak": 1})
	}
	close(x.stop)
	x.push.end()
	w.Shutdown()
	for _, c := range x.cl {
		c.leave()
		c.q.end()
	}
	for _, d := range x.dbs {
		d.Close()
	}
}

func (c *lfClient) leave() {
	c.mu.Lock()
	if c.gone {
		c.mu.Unlock()
		return
	}
	c.gone = true
	c.x.r.Emit("CClose", "s", c.id)
	c.mu.Unlock()
	c.conn.Close()
}

func (x *lf) close(t int) {
	x.r.Emit("Call", "t", t, "op", "close", "a", "", "s", 0)
	go func() {
		_ = x.srv.Close()
		after()
		x.r.Emit("Ret", "t", t, "op", "close", "r", "", "oc", false, "od", false)
	}()
}
