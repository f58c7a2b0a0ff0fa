package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"gevulotverif/vnet"
	"gevulotverif/vsched"
)

func init() { runners["proxy"] = runProxy }

type owner struct {
	s   int
	dir byte
	i   int
}

// px is the environment of one proxy: clients, databases and the configuration source.
type px struct {
	wild bool // junk is anything at all
	r    *Rec
	rng  *rand.Rand
	w    *vnet.World
	seed int64
	prof string
	mode string
	frag bool
	gap  int
	cut  bool // some peers hang up in the middle of a message

	mu    sync.Mutex
	own   map[string]owner // bytes of a frame -> who sent it
	sess  map[int]*pxSess
	modes map[string]vnet.DialMode
	dials int
	ends  []*pxEnd

	crowding atomic.Bool // databases that are dialled belong to the crowd
	crowd    []*vnet.VConn

	srv  *server.Server
	dist *server.ConfigDistributor
	src  chan *server.Config
	stop chan struct{}
	push *opq
	ln   string

	closed atomic.Bool
}

type pxSess struct {
	id    int
	cl    *pxEnd
	db    *pxEnd
	start []byte // the packet that is expected at the database
}

// opq is an unbounded queue of actions executed one after the other.
type opq struct {
	mu   sync.Mutex
	cond *sync.Cond
	fs   []func()
	done bool
}

func newOpq() *opq {
	q := &opq{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *opq) add(f func()) {
	q.mu.Lock()
	q.fs = append(q.fs, f)
	q.cond.Broadcast()
	q.mu.Unlock()
}

func (q *opq) end() {
	q.mu.Lock()
	q.done = true
	q.cond.Broadcast()
	q.mu.Unlock()
}

func (q *opq) run() {
	for {
		q.mu.Lock()
		for len(q.fs) == 0 && !q.done {
			q.cond.Wait()
		}
		if q.done {
			q.mu.Unlock()
			return
		}
		f := q.fs[0]
		q.fs = q.fs[1:]
		q.mu.Unlock()
		f()
	}
}

// pxEnd is one peer of the proxy: the client or the database of a session.
type pxEnd struct {
	p    *px
	side string // "C" or "D"
	s    int    // session (0: not known yet)
	n    int    // number of the dial (databases)
	conn *vnet.VConn
	q    *opq

	mu      sync.Mutex
	cond    *sync.Cond
	stalled bool
	gone    bool // closed or reset by the harness, or finished
	eof     bool
	ssl     int
	nGot    int
	sent    int
	got     int
	part    int  // bytes of the next frame already written
	junk    bool // wrote something that is not a frame, or will write no more
	bad     bool
	buf     []byte
	hello   bool // startup read (databases)
	greeted bool // startup sent (clients)
	broken  bool // a write failed
}

func (p *px) newEnd(side string, s int) *pxEnd {
	e := &pxEnd{p: p, side: side, s: s, q: newOpq()}
	e.cond = sync.NewCond(&e.mu)
	p.mu.Lock()
	p.ends = append(p.ends, e)
	p.mu.Unlock()
	return e
}

func (e *pxEnd) dir() byte {
	if e.side == "C" {
		return 'c'
	}
	return 'd'
}

func (e *pxEnd) other() byte {
	if e.side == "C" {
		return 'd'
	}
	return 'c'
}

// attach starts the reader and the writer of an endpoint.
func (e *pxEnd) attach(c *vnet.VConn) {
	e.conn = c
	c.Tag = e
	go e.read()
	if e.side == "C" {
		go e.q.run()
	}
}

func (e *pxEnd) read() {
	tmp := make([]byte, 32768)
	for {
		e.mu.Lock()
		for e.stalled && !e.gone {
			e.cond.Wait()
		}
		gone := e.gone
		e.mu.Unlock()
		if gone {
			return
		}
		n, err := e.conn.Read(tmp)
		e.mu.Lock()
		if e.gone {
			e.mu.Unlock()
			return
		}
		e.buf = append(e.buf, tmp[:n]...)
		e.parse()
		if err != nil {
			if len(e.buf) > 0 && !e.bad {
				e.p.r.Emit(e.side+"Torn", "s", e.s, "n", e.n)
			}
			e.eof = true
			e.p.r.Emit(e.side+"Eof", "s", e.s, "n", e.n)
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
	}
}

func (e *pxEnd) fail(why string) {
	e.bad = true
	e.p.r.Emit(e.side+"Bad", "s", e.s, "n", e.n, "why", why)
}

// parse decodes what has arrived (e.mu is held).
func (e *pxEnd) parse() {
	for len(e.buf) > 0 && !e.bad {
		if e.side == "C" && e.nGot < e.ssl {
			if e.buf[0] != 'N' {
				e.fail("not N")
				return
			}
			e.nGot++
			e.buf = e.buf[1:]
			e.p.r.Emit("NRecv", "s", e.s)
			continue
		}
		if e.side == "D" && !e.hello {
			if len(e.buf) < 4 {
				return
			}
			n := int(int32(binary.BigEndian.Uint32(e.buf)))
			if n < 4 || n > 1<<20 {
				e.fail("startup length")
				return
			}
			if len(e.buf) < n {
				return
			}
			pkt := e.buf[:n]
			e.buf = e.buf[n:]
			e.hello = true
			s, exact := e.p.whose(pkt)
			if s == 0 {
				e.fail("startup of nobody")
				return
			}
			e.s = s
			ss := e.p.get(s)
			e.p.r.Emit("DStart", "s", s, "n", e.n, "exact", exact)
			e.p.mu.Lock()
			first := ss.db.conn == nil
			e.p.mu.Unlock()
			if first {
				// take over the actions planned for this session's database
				d := ss.db
				e.q = d.q
				e.p.mu.Lock()
				d.conn = e.conn
				e.p.mu.Unlock()
				d.mu.Lock()
				st := d.stalled
				d.mu.Unlock()
				ss.db = e
				if st {
					e.stalled = true
					e.p.r.Emit("DStall", "s", s)
				}
				go e.q.run()
			}
			continue
		}
		if len(e.buf) < 5 {
			return
		}
		n := int(int32(binary.BigEndian.Uint32(e.buf[1:])))
		if n < 4 || n > 1<<26 {
			e.fail("frame length")
			return
		}
		if len(e.buf) < n+1 {
			return
		}
		f := e.buf[:n+1]
		e.buf = e.buf[n+1:]
		next := owner{e.s, e.other(), e.got + 1}
		if bytes.Equal(f, e.p.frame(next)) {
			e.got++
			e.p.r.Emit(e.side+"Recv", "s", e.s, "src", e.s, "i", e.got)
			continue
		}
		e.p.mu.Lock()
		o, ok := e.p.own[string(f)]
		e.p.mu.Unlock()
		if !ok {
			e.p.r.Emit(e.side+"Alien", "s", e.s, "t", int(f[0]), "len", len(f))
			continue
		}
		if o.dir != e.other() {
			// something this very side sends came back to it
			e.p.r.Emit(e.side+"Alien", "s", e.s, "t", int(f[0]), "len", len(f), "echo", o.s)
			continue
		}
		if o.s == e.s {
			e.got = o.i
		}
		e.p.r.Emit(e.side+"Recv", "s", e.s, "src", o.s, "i", o.i)
	}
}

func (p *px) frame(o owner) []byte { return genFrame(p.seed, o.s, o.dir, o.i, p.prof) }

// whose finds the session a startup packet belongs to.
func (p *px) whose(pkt []byte) (int, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	ids := []int{}
	for id := range p.sess {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s := p.sess[id]; s.start != nil && bytes.Equal(s.start, pkt) {
			return id, true
		}
	}
	for _, id := range ids {
		if s := p.sess[id]; s.start != nil && bytes.Contains(pkt, userOf(s.start)) {
			return id, false
		}
	}
	return 0, false
}

// userOf cuts the unique user value out of a startup packet.
func userOf(pkt []byte) []byte {
	i := bytes.Index(pkt, []byte("user\x00u"))
	if i < 0 {
		return []byte("\x00no user\x00")
	}
	v := pkt[i+5:]
	if j := bytes.IndexByte(v, 0); j >= 0 {
		v = v[:j+1]
	}
	return v
}

// write sends bytes, possibly in pieces.
func (e *pxEnd) write(b []byte) bool {
	if e.broken || e.conn == nil {
		return false
	}
	cuts := 0
	if e.p.frag {
		cuts = vsched.Intn(4)
	}
	for cuts > 0 && len(b) > 1 {
		k := 1 + vsched.Intn(len(b)-1)
		if k > 6 && vsched.Intn(2) == 0 {
			k = 1 + vsched.Intn(6)
		}
		if _, err := e.conn.Write(b[:k]); err != nil {
			e.broken = true
			return false
		}
		b = b[k:]
		cuts--
		e.p.sleep()
	}
	if _, err := e.conn.Write(b); err != nil {
		e.broken = true
		return false
	}
	return true
}

func (p *px) sleep() {
	if p.gap > 0 {
		time.Sleep(time.Duration(vsched.Intn(p.gap)))
	}
}

func (e *pxEnd) isGone() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.gone
}

// send sends the next n messages.
func (e *pxEnd) send(n int) {
	coalesce := vsched.Intn(3) == 0
	var acc []byte
	for k := 0; k < n; k++ {
		if e.isGone() || e.junk || e.broken {
			return
		}
		o := owner{e.s, e.dir(), e.sent + 1}
		f := e.p.frame(o)
		e.p.mu.Lock()
		if _, dup := e.p.own[string(f)]; !dup {
			e.p.own[string(f)] = o
		}
		e.p.mu.Unlock()
		e.mu.Lock()
		if e.gone {
			e.mu.Unlock()
			return
		}
		e.sent++
		e.p.r.Emit(e.side+"Send", "s", e.s, "i", e.sent)
		e.mu.Unlock()
		f = f[e.part:]
		e.part = 0
		if coalesce {
			acc = append(acc, f...)
			continue
		}
		e.write(f)
		if vsched.Intn(3) == 0 {
			e.p.sleep()
		}
	}
	if len(acc) > 0 {
		e.write(acc)
	}
}

// partial sends the beginning of the next message.
func (e *pxEnd) partial() {
	if e.isGone() || e.junk || e.part > 0 {
		return
	}
	f := e.p.frame(owner{e.s, e.dir(), e.sent + 1})
	k := 1 + vsched.Intn(len(f)-1)
	if vsched.Intn(2) == 0 && len(f) > 6 {
		k = len(f) - 1 - vsched.Intn(2)
	}
	e.part = k
	e.write(f[:k])
}

// junkFrame sends a header whose length field is impossible.
func (e *pxEnd) junkFrame() {
	if e.isGone() || e.junk || e.part > 0 {
		return
	}
	e.mu.Lock()
	if e.gone {
		e.mu.Unlock()
		return
	}
	e.junk = true
	e.p.r.Emit(e.side+"Junk", "s", e.s)
	e.mu.Unlock()
	if e.p.wild {
		e.write(wildBytes(rand.New(rand.NewSource(int64(vsched.Intn(1 << 30))))))
		return
	}
	l := []int{0, 1, 2, 3, -1, -4, -5, -1 << 31}[vsched.Intn(8)]
	t := knownTypes[vsched.Intn(len(knownTypes))]
	e.write(cat([]byte{t}, be32(l), randBytes(rand.New(rand.NewSource(int64(vsched.Intn(1<<30)))), vsched.Intn(20))))
}

func (e *pxEnd) setStall(on bool) {
	e.mu.Lock()
	if e.stalled != on && !e.gone {
		e.stalled = on
		if e.conn != nil && (e.side == "C" || e.s != 0) {
			if on {
				e.p.r.Emit(e.side+"Stall", "s", e.s)
			} else {
				e.p.r.Emit(e.side+"Resume", "s", e.s)
			}
		}
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// leave ends the connection, gracefully or not.
func (e *pxEnd) leave(reset bool) {
	e.mu.Lock()
	if e.gone || e.conn == nil {
		e.mu.Unlock()
		return
	}
	e.gone = true
	if !e.eof {
		if reset {
			e.p.r.Emit(e.side+"Reset", "s", e.s, "n", e.n)
		} else {
			e.p.r.Emit(e.side+"Close", "s", e.s, "n", e.n)
		}
	}
	e.cond.Broadcast()
	e.mu.Unlock()
	if reset {
		e.conn.Reset()
	} else {
		_ = e.conn.Close()
	}
}

// half ends the outgoing stream only; the endpoint keeps on reading.
func (e *pxEnd) half() {
	e.mu.Lock()
	if e.gone || e.junk || e.conn == nil {
		e.mu.Unlock()
		return
	}
	e.junk = true
	if !e.eof {
		e.p.r.Emit(e.side+"Half", "s", e.s, "n", e.n)
	}
	e.mu.Unlock()
	_ = e.conn.CloseWrite()
}

// last is what an endpoint may still write before it hangs up: a part of a message.
func (e *pxEnd) last() {
	if e.p.cut && (e.side == "D" || e.greeted) && vsched.Intn(2) == 0 {
		e.partial()
	}
}

// snapshot lists what the code under test still holds.
func (p *px) snapshot() []any {
	oc, od, ox := map[int]bool{}, map[int]bool{}, 0
	for _, c := range p.w.OpenConns() {
		if _, ok := c.FarTag().(crowdTag); ok && !p.closed.Load() {
			continue
		}
		e, _ := c.FarTag().(*pxEnd)
		switch {
		case e == nil || e.s == 0:
			ox++
		case c.IsClient():
			oc[e.s] = true
		default:
			od[e.s] = true
		}
	}
	keys := func(m map[int]bool) []int {
		r := []int{}
		for k := range m {
			r = append(r, k)
		}
		sort.Ints(r)
		return r
	}
	b := p.w.Bound()
	sort.Strings(b)
	return []any{"oc", keys(oc), "od", keys(od), "ox", ox, "bound", len(b)}
}

// holds tells which connections of a session the code under test has open.
func (p *px) holds(s int) (oc, od bool) {
	for _, c := range p.w.OpenConns() {
		if e, _ := c.FarTag().(*pxEnd); e != nil && e.s == s {
			oc = oc || c.IsClient()
			od = od || !c.IsClient()
		}
	}
	return
}

func (p *px) get(s int) *pxSess {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.sess[s]
}

func (p *px) quiesce() {
	settle()
	pc, pd := []int{}, []int{}
	p.mu.Lock()
	ends := append([]*pxEnd(nil), p.ends...)
	p.mu.Unlock()
	for _, e := range ends {
		e.mu.Lock()
		if len(e.buf) > 0 && !e.bad && !e.gone && !e.stalled && !e.eof {
			if e.side == "C" {
				pc = append(pc, e.s)
			} else {
				pd = append(pd, e.s)
			}
		}
		e.mu.Unlock()
	}
	p.r.Emit("Quiesce", append(p.snapshot(), "pc", pc, "pd", pd)...)
}

func dbURL(rng *rand.Rand, db, addr string) string {
	sch := []string{"postgres", "postgresql"}[rng.Intn(2)]
	return fmt.Sprintf("%s://svc:secret@%s/%s%s", sch, addr, url.PathEscape(db), []string{"", "?sslmode=disable"}[rng.Intn(2)])
}

func runProxy(r *Rec, j *Job, rng *rand.Rand) {
	w := &vnet.World{Clients: max(0, rng.Intn(5)-2), Cap: []int{512, 4096, 65536, 65536}[rng.Intn(4)], Fragment: rng.Intn(2) == 0}
	p := &px{
		r: r, rng: rng, w: w, seed: rng.Int63(), prof: optStr(j.Opt, "prof", "mixed"), mode: optStr(j.Opt, "mode", ""),
		frag: rng.Intn(2) == 0, gap: []int{0, 20, 500, 20000}[rng.Intn(4)],
		own: map[string]owner{}, sess: map[int]*pxSess{}, modes: map[string]vnet.DialMode{},
		src: make(chan *server.Config), stop: make(chan struct{}), push: newOpq(), ln: "127.0.0.1:4242",
	}
	if p.prof == "huge" || p.prof == "haul" {
		w.Cap, w.Fragment, p.frag = 65536, false, false
		vsched.Coarse(true)
	}
	if p.mode == "" {
		p.mode = []string{"listen", "serve", "direct"}[rng.Intn(3)]
	}
	if rng.Intn(3) == 0 {
		w.DialDelay = time.Duration(rng.Intn(5000))
	}
	w.OnDial = func(addr string) (vnet.DialMode, func(*vnet.VConn)) {
		if p.crowding.Load() {
			return vnet.Accept, p.crowdDB
		}
		p.mu.Lock()
		p.dials++
		n := p.dials
		m := p.modes[addr]
		p.mu.Unlock()
		r.Emit("Dial", "s", 0, "n", n, "addr", addr, "mode", []string{"accept", "refuse", "hang"}[m])
		return m, func(far *vnet.VConn) {
			e := p.newEnd("D", 0)
			e.n = n
			e.attach(far)
		}
	}
	vnet.Install(w)
	if p.cut = rng.Intn(2) == 0; j.Opt["cut"] == true {
		p.cut = true
	}
	p.dist = server.NewConfigDistributor(p.src)
	p.srv = server.NewServer(p.dist)
	r.Emit("Init", "mode", p.mode)
	go p.push.run()
	switch p.mode {
	case "listen":
		go func() { _ = p.srv.Start(); r.Emit("RunRet") }()
	case "serve":
		ln, err := w.ListenHarness(p.ln)
		if err != nil {
			panic(err)
		}
		go func() { _ = p.srv.Serve(ln); r.Emit("RunRet") }()
	}
	settled := rng.Intn(4) == 0
	if v, ok := j.Opt["settled"].(bool); ok {
		settled = v
	}
	opgap := []int{0, 1, 100, 3000, 100000}[rng.Intn(5)]
	connected := false
	ended := false
	crowd := optInt(j.Opt, "crowd", 0)
	if crowd > 0 && rng.Intn(3) != 0 {
		crowd = 1 + rng.Intn(crowd)
	}
	for _, op := range j.Ops {
		if (op.Op == "conn" && p.mode != "direct" || op.Op == "srvclose" && p.mode == "serve") && !connected {
			// let the listener come up (its start-up is the subject of another specification): a listener the caller
			// made is open until Serve has been told of it
			settle()
			connected = true
		}
		ended = p.do(op) || ended
		if op.Op == "push" && op.K != "bad" && crowd > 0 {
			p.quiesce()
			p.gather(crowd, op.Db)
			crowd = 0
		}
		if settled && op.Op != "q" && op.Op != "conn" {
			p.quiesce()
		} else if opgap > 0 {
			time.Sleep(time.Duration(rng.Intn(opgap)))
		}
	}
	p.quiesce()
	p.wild, _ = j.Opt["wild"].(bool)
	if v, _ := j.Opt["srv"].(bool); !v {
		// closing the server is the subject of another check
		r.Stop()
		r.line(map[string]any{"Stop": 1})
	}
	if !ended {
		p.do(Op{Op: "srvclose"})
	}
	p.quiesce()
	if !p.closed.Load() {
		r.line(map[string]any{"NoLeak": 1})
	}
	// the configuration store is the subject of another specification
	closed := make(chan struct{})
	go func() {
		p.dist.Close()
		close(closed)
	}()
	settle()
	select {
	case <-closed:
	default:
		r.line(map[string]any{"NoLeak": 1})
	}
	r.Stop()
	close(p.stop)
	p.push.end()
	w.Shutdown()
	p.mu.Lock()
	ends := append([]*pxEnd(nil), p.ends...)
	p.mu.Unlock()
	for _, e := range ends {
		e.leave(true)
		e.q.end()
	}
	for _, c := range p.crowd {
		c.Reset()
	}
}

// crowdTag marks connections of sessions that are not followed in detail.
type crowdTag struct{}

var crowdReply = []byte{'Z', 0, 0, 0, 5, 'I'}

// keep remembers a connection of the crowd.
func (p *px) keep(c *vnet.VConn) {
	c.Tag = crowdTag{}
	p.mu.Lock()
	p.crowd = append(p.crowd, c)
	p.mu.Unlock()
}

// readSome reads n bytes (or fails).
func readSome(c *vnet.VConn, n int) ([]byte, bool) {
	b := make([]byte, n)
	for k := 0; k < n; {
		m, err := c.Read(b[k:])
		k += m
		if err != nil {
			return nil, false
		}
	}
	return b, true
}

// crowdDB is the database of a member of the crowd: it answers every message, and floods a client who asks for it.
func (p *px) crowdDB(c *vnet.VConn) {
	p.keep(c)
	go func() {
		defer c.Close()
		h, ok := readSome(c, 4)
		if !ok {
			return
		}
		if _, ok = readSome(c, int(binary.BigEndian.Uint32(h))-4); !ok {
			return
		}
		for {
			h, ok := readSome(c, 5)
			if !ok {
				return
			}
			q, ok := readSome(c, int(binary.BigEndian.Uint32(h[1:]))-4)
			if !ok {
				return
			}
			if _, err := c.Write(crowdReply); err != nil {
				return
			}
			if q[0] == 'f' {
				big := cat([]byte{'d'}, be32(4+9000), make([]byte, 9000))
				for i := 0; i < 60; i++ {
					if _, err := c.Write(big); err != nil {
						return
					}
				}
			}
		}
	}()
}

// gather makes n more clients use the proxy: a few of them stay without saying anything, are refused, stay
// connected, stop reading or leave again; all that were accepted must have been served.
func (p *px) gather(n int, db string) {
	p.crowding.Store(true)
	vsched.Coarse(true)
	var asked, served atomic.Int32
	kinds := []string{"stay", "stay", "leave", "silent", "refused", "stall", "reset", "cut"}
	if k := p.rng.Intn(12); k < len(kinds) {
		kinds = kinds[k : k+1]
	}
	gap := []time.Duration{0, 1000, time.Millisecond, time.Second}[p.rng.Intn(4)]
	for i := 0; i < n; i++ {
		var c *vnet.VConn
		if p.mode == "direct" {
			under, far := p.w.ClientPair()
			c = far
			p.keep(c)
			go func() { _ = p.srv.ServeConn(under) }()
		} else {
			far, err := p.w.ClientDial(p.ln)
			if err != nil {
				p.r.Emit("Crowd", "ok", false)
				break
			}
			c = far
			p.keep(c)
		}
		kind := kinds[p.rng.Intn(len(kinds))]
		who := fmt.Sprintf("crowd%d", i)
		pkt := startupPacket(196608, [][2]string{{"user", who}, {"database", db}}, true)
		go func() {
			ask := func(what string) bool {
				if _, err := c.Write(cat([]byte{'Q'}, be32(4+len(what)+1), []byte(what), []byte{0})); err != nil {
					return false
				}
				b, ok := readSome(c, len(crowdReply))
				return ok && bytes.Equal(b, crowdReply)
			}
			switch kind {
			case "silent":
				return
			case "cut":
				_, _ = c.Write(pkt[:len(pkt)/2])
				return
			}
			asked.Add(1)
			switch kind {
			case "refused":
				_, _ = c.Write(startupPacket(196608, [][2]string{{"user", who}, {"database", db + "x"}}, true))
				b := make([]byte, 1)
				if k, err := c.Read(b); k == 0 && err != nil {
					served.Add(1)
				}
				_ = c.Close()
				return
			case "reset":
				_, _ = c.Write(pkt)
				served.Add(1)
				c.Reset()
				return
			}
			_, _ = c.Write(pkt)
			if !ask("hello") {
				return
			}
			switch kind {
			case "stay":
				if !ask("again") {
					return
				}
			case "stall":
				if !ask("flood") {
					return
				}
			}
			served.Add(1)
			if kind == "leave" {
				_ = c.Close()
			}
		}()
		time.Sleep(gap)
	}
	p.quiesce()
	p.crowding.Store(false)
	vsched.Coarse(false)
	p.r.Emit("Crowd", "ok", asked.Load() == served.Load())
}

func (p *px) do(op Op) bool {
	s := p.get(op.S)
	r := p.r
	switch op.Op {
	case "q":
		p.quiesce()
		return false
	case "push":
		cfg := &server.Config{Listen: p.ln}
		if op.K == "bad" {
			cfg.DatabaseURL = []string{"", "mysql://h1:5432/d1", "postgres://h1:%zz/d1", "://", "postgres://h1:5432/d1%2"}[p.rng.Intn(5)]
			op.Db, op.Addr = "!", "!"
		} else {
			cfg.DatabaseURL = dbURL(p.rng, op.Db, op.Addr)
		}
		p.push.add(func() {
			r.Emit("Push", "db", op.Db, "addr", op.Addr)
			select {
			case p.src <- cfg:
				r.Emit("Pushed")
			case <-p.stop:
			}
		})
		return false
	case "dialmode":
		p.mu.Lock()
		p.modes[op.Addr] = map[string]vnet.DialMode{"accept": vnet.Accept, "refuse": vnet.Refuse, "hang": vnet.Hang}[op.K]
		p.mu.Unlock()
		return false
	case "tempacc":
		p.w.TempAccept(op.N)
		return false
	case "srvclose":
		r.Emit("SrvClose")
		go func() {
			_ = p.srv.Close()
			p.closed.Store(true)
			r.Emit("SrvClosed", p.snapshot()...)
		}()
		return true
	case "conn":
		if s != nil {
			return false
		}
		s = &pxSess{id: op.S}
		s.cl, s.db = p.newEnd("C", op.S), p.newEnd("D", op.S)
		p.mu.Lock()
		p.sess[op.S] = s
		p.mu.Unlock()
		r.Emit("Connect", "s", op.S)
		if p.mode == "direct" {
			under, far := p.w.ClientPair()
			far.Tag = s.cl
			go func() {
				_ = p.srv.ServeConn(under)
				oc, od := p.holds(op.S)
				r.Emit("Ret", "s", op.S, "oc", oc, "od", od)
			}()
			s.cl.attach(far)
			return false
		}
		far, err := p.w.ClientDial(p.ln)
		if err != nil {
			r.Emit("CRefused", "s", op.S)
			s.cl.gone = true
			return false
		}
		s.cl.attach(far)
		return false
	}
	if s == nil || s.cl.conn == nil {
		return false
	}
	switch op.Op {
	case "start":
		pkt := genStartup(p.rng, s.id, op.K, op.Dbs)
		dbs := op.Dbs
		if dbs == nil {
			dbs = []string{}
		}
		s.cl.q.add(func() {
			e := s.cl
			e.mu.Lock()
			if e.gone {
				e.mu.Unlock()
				return
			}
			p.mu.Lock()
			if op.K == "v3" {
				s.start = pkt
			}
			p.mu.Unlock()
			if op.K == "ssl" {
				e.ssl++
			} else {
				e.greeted = true
			}
			r.Emit("CStart", "s", s.id, "k", op.K, "dbs", dbs)
			e.mu.Unlock()
			e.write(pkt)
		})
	case "cut": // the beginning of a startup packet, never completed
		pkt := genStartup(p.rng, s.id, "v3", op.Dbs)
		k := p.rng.Intn(len(pkt))
		out := pkt[:k]
		if p.wild {
			out = wildStartup(p.rng, pkt)
		}
		s.cl.q.add(func() {
			s.cl.junk = true
			s.cl.write(out)
		})
	case "csend":
		s.cl.q.add(func() { s.cl.send(op.N) })
	case "dsend":
		s.db.q.add(func() { s.db.send(op.N) })
	case "cpart":
		s.cl.q.add(func() { s.cl.partial() })
	case "dpart":
		s.db.q.add(func() { s.db.partial() })
	case "cjunk":
		s.cl.q.add(func() { s.cl.junkFrame() })
	case "djunk":
		s.db.q.add(func() { s.db.junkFrame() })
	case "cclose":
		s.cl.q.add(func() { s.cl.last(); s.cl.leave(false) })
	case "chalf":
		s.cl.q.add(func() { s.cl.last(); s.cl.half() })
	case "dhalf":
		s.db.q.add(func() { s.db.last(); s.db.half() })
	case "dclose":
		s.db.q.add(func() { s.db.last(); s.db.leave(false) })
	case "creset":
		s.cl.leave(true)
	case "dreset":
		s.db.leave(true)
	case "cstall":
		s.cl.setStall(true)
	case "cresume":
		s.cl.setStall(false)
	case "dstall":
		s.db.setStall(true)
	case "dresume":
		s.db.setStall(false)
	default:
		panic("op " + op.Op)
	}
	return false
}
