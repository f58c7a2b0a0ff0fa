// Package vnet replaces package net in the code under test: an in-memory network that lives inside a synctest
// bubble. Everything that is not overridden here is an alias of package net.
package vnet

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gevulotverif/vsched"
)

// DialMode is the behaviour of an endpoint the code under test dials.
type DialMode int

const (
	Accept DialMode = iota
	Refuse
	Hang
)

// World is one network.
type World struct {
	mu        sync.Mutex
	cond      *sync.Cond
	listeners map[string]*VListener
	conns     []*VConn // ends held by the code under test
	nextPort  int
	bindFail  map[string]bool
	tempAcc   int

	Cap       int  // bytes a stream buffers
	Fragment  bool // reads return random small pieces
	DialDelay time.Duration
	Clients   int // how their addresses are chosen

	// OnDial is asked what to do with a dial; on Accept it is given the far end of the new connection.
	OnDial func(addr string) (DialMode, func(far *VConn))
	// OnListen and OnListenerClose report changes of the set of bound addresses (called with the lock held).
	OnListen        func(addr string, err error)
	OnListenerClose func(addr string)
	// OnHand is told of connections handed to the code under test, which are not remembered then; OnBind of listeners.
	OnHand func(c *VConn)
	OnBind func(l *VListener)
}

var cur atomic.Pointer[World]

// Install makes w the network; nil removes it.
func Install(w *World) {
	if w != nil {
		w.cond = sync.NewCond(&w.mu)
		w.listeners = map[string]*VListener{}
		w.bindFail = map[string]bool{}
		w.nextPort = 40000
		if w.Cap == 0 {
			w.Cap = 1 << 16
		}
	}
	cur.Store(w)
}

// ---- streams

type stream struct {
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	cap     int
	wclosed bool // writer is gone: EOF after the buffer
	rclosed bool // reader is gone: writes fail
	reset   bool // connection reset: both fail at once
}

func newStream(c int) *stream {
	s := &stream{cap: c}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *stream) set(f func()) {
	s.mu.Lock()
	f()
	s.cond.Broadcast()
	s.mu.Unlock()
}

type deadline struct {
	t     *time.Timer
	fired bool
	gen   int
}

// VConn is one end of a connection.
type VConn struct {
	w        *World
	rd, wr   *stream
	la, ra   net.Addr
	mu       sync.Mutex
	closed   bool
	abort    bool // Close aborts the connection
	under    bool // held by the code under test
	client   bool // an accepted connection
	rdl, wdl deadline
	peer     *VConn
	Tag      any // set by the harness on the far end
}

// FarTag is the tag of the other end.
func (c *VConn) FarTag() any { return c.peer.Tag }

// IsClient tells the accepted connections from the dialled ones.
func (c *VConn) IsClient() bool { return c.client }

func (w *World) pair(la, ra net.Addr) (under, far *VConn) {
	a, b := newStream(w.Cap), newStream(w.Cap)
	under = &VConn{w: w, rd: a, wr: b, la: la, ra: ra, under: true}
	far = &VConn{w: w, rd: b, wr: a, la: ra, ra: la}
	under.peer, far.peer = far, under
	return
}

func (c *VConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (c *VConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Closed reports whether this end has been closed.
func (c *VConn) Closed() bool { return c.isClosed() }

func (c *VConn) Read(p []byte) (int, error) {
	if c.under {
		vsched.Pause()
	}
	s := c.rd
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if c.isClosed() {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl.fired {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if s.reset {
			return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(s.buf) > 0 {
			n := len(s.buf)
			if n > len(p) {
				n = len(p)
			}
			if c.under && c.w.Fragment && n > 1 {
				n = 1 + vsched.Intn(n)
			}
			copy(p, s.buf[:n])
			s.buf = s.buf[n:]
			s.cond.Broadcast()
			return n, nil
		}
		if s.wclosed {
			return 0, io.EOF
		}
		s.cond.Wait()
	}
}

func (c *VConn) Write(p []byte) (int, error) {
	if c.under {
		vsched.Pause()
	}
	s := c.wr
	s.mu.Lock()
	defer s.mu.Unlock()
	done := 0
	for {
		if c.isClosed() {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.wdl.fired {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if s.reset {
			return done, c.opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if s.rclosed || s.wclosed {
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if room := s.cap - len(s.buf); room > 0 {
			n := len(p) - done
			if n > room {
				n = room
			}
			s.buf = append(s.buf, p[done:done+n]...)
			done += n
			s.cond.Broadcast()
		}
		if done == len(p) {
			return done, nil
		}
		s.cond.Wait()
	}
}

func (c *VConn) Close() error {
	if c.under {
		vsched.Pause()
	}
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	abort := c.abort
	c.mu.Unlock()
	if abort {
		c.Reset()
		return nil
	}
	c.wr.set(func() { c.wr.wclosed = true })
	c.rd.set(func() { c.rd.rclosed = true; c.rd.buf = nil })
	return nil
}

// CloseWrite ends the outgoing stream only.
func (c *VConn) CloseWrite() error {
	c.wr.set(func() { c.wr.wclosed = true })
	return nil
}

// CloseRead discards the incoming stream.
func (c *VConn) CloseRead() error {
	c.rd.set(func() { c.rd.wclosed = true; c.rd.buf = nil })
	return nil
}

// Reset aborts the connection: the other end fails at once, data in flight is lost.
func (c *VConn) Reset() {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	for _, s := range []*stream{c.wr, c.rd} {
		s := s
		s.set(func() { s.reset = true; s.buf = nil })
	}
}

func (c *VConn) LocalAddr() net.Addr  { return c.la }
func (c *VConn) RemoteAddr() net.Addr { return c.ra }

func (c *VConn) setDeadline(d *deadline, s *stream, t time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if d.t != nil {
		d.t.Stop()
		d.t = nil
	}
	d.fired = false
	d.gen++
	if t.IsZero() {
		return
	}
	gen := d.gen
	d.t = time.AfterFunc(time.Until(t), func() {
		s.set(func() {
			if d.gen == gen {
				d.fired = true
			}
		})
	})
}

func (c *VConn) SetReadDeadline(t time.Time) error {
	c.setDeadline(&c.rdl, c.rd, t)
	return nil
}

func (c *VConn) SetWriteDeadline(t time.Time) error {
	c.setDeadline(&c.wdl, c.wr, t)
	return nil
}

func (c *VConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *VConn) SetKeepAlive(bool) error                  { return nil }
func (c *VConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *VConn) SetNoDelay(bool) error                    { return nil }
func (c *VConn) SetReadBuffer(int) error                  { return nil }
func (c *VConn) SetWriteBuffer(int) error                 { return nil }

func (c *VConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }

// SetLinger(0) makes Close abort the connection.
func (c *VConn) SetLinger(sec int) error {
	c.mu.Lock()
	c.abort = sec == 0
	c.mu.Unlock()
	return nil
}

// The concrete types of package net are those of the in-memory network.
type (
	TCPConn     = VConn
	TCPListener = VListener
)

// ListenTCP mirrors net.ListenTCP.
func ListenTCP(network string, laddr *net.TCPAddr) (*VListener, error) {
	addr := ":0"
	if laddr != nil {
		addr = laddr.String()
	}
	ln, err := Listen(network, addr)
	if err != nil {
		return nil, err
	}
	return ln.(*VListener), nil
}

// DialTCP mirrors net.DialTCP.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*VConn, error) {
	c, err := dial(context.Background(), network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*VConn), nil
}

// ---- listeners

// VListener is a bound address.
type VListener struct {
	w      *World
	addr   string
	tcp    *net.TCPAddr
	queue  []*VConn // accepted ends
	far    []*VConn
	closed bool

	limit   *time.Timer // deadline of Accept
	expired bool
}

type tempError struct{}

func (tempError) Error() string   { return "accept4: too many open files (injected)" }
func (tempError) Timeout() bool   { return false }
func (tempError) Temporary() bool { return true }

func split(addr string) (host, port string) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return addr, ""
	}
	return h, p
}

func wild(h string) bool { return h == "" || h == "0.0.0.0" || h == "::" }

// Listen binds an address of the in-memory network.
func Listen(network, address string) (net.Listener, error) {
	w := cur.Load()
	if w == nil {
		return nil, fmt.Errorf("vnet: no network")
	}
	if !strings.HasPrefix(network, "tcp") {
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	vsched.Pause()
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.listenLocked(address)
}

func (w *World) listenLocked(address string) (net.Listener, error) {
	fail := func(err error) (net.Listener, error) {
		e := &net.OpError{Op: "listen", Net: "tcp", Err: err}
		if w.OnListen != nil {
			w.OnListen(address, e)
		}
		return nil, e
	}
	if address == "" {
		address = ":0"
	}
	h, p := split(address)
	if p == "" {
		return fail(&net.AddrError{Err: "missing port in address", Addr: address})
	}
	key := address
	if p == "0" {
		w.nextPort++
		p = fmt.Sprint(w.nextPort)
		key = net.JoinHostPort(h, p)
	}
	if w.bindFail[address] {
		return fail(os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	for k := range w.listeners {
		kh, kp := split(k)
		if kp == p && (kh == h || wild(kh) || wild(h)) {
			return fail(os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	port := 0
	fmt.Sscan(p, &port)
	ip := net.ParseIP(h)
	if h == "" {
		ip = net.IPv6unspecified
	}
	l := &VListener{w: w, addr: key, tcp: &net.TCPAddr{IP: ip, Port: port}}
	w.listeners[key] = l
	if w.OnBind != nil {
		w.OnBind(l)
	}
	if w.OnListen != nil {
		w.OnListen(key, nil)
	}
	return l, nil
}

// remember keeps a connection that is handed to the code under test, or tells the harness.
func (w *World) remember(c *VConn) {
	if w.OnHand != nil {
		w.OnHand(c)
		return
	}
	w.conns = append(w.conns, c)
}

// ListenHarness binds an address on behalf of the harness (no yields).
func (w *World) ListenHarness(address string) (net.Listener, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.listenLocked(address)
}

func (l *VListener) Accept() (net.Conn, error) {
	vsched.Pause()
	w := l.w
	w.mu.Lock()
	defer w.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.tcp, Err: net.ErrClosed}
		}
		if l.expired {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.tcp, Err: os.ErrDeadlineExceeded}
		}
		if w.tempAcc > 0 {
			w.tempAcc--
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.tcp, Err: tempError{}}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue[0], l.far[0] = nil, nil
			l.queue, l.far = l.queue[1:], l.far[1:]
			w.remember(c)
			return c, nil
		}
		w.cond.Wait()
	}
}

// AcceptTCP mirrors the method of net.TCPListener.
func (l *VListener) AcceptTCP() (*VConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*VConn), nil
}

// SetDeadline mirrors the method of net.TCPListener.
func (l *VListener) SetDeadline(t time.Time) error {
	w := l.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if l.limit != nil {
		l.limit.Stop()
	}
	l.limit, l.expired = nil, false
	if t.IsZero() {
		return nil
	}
	var tm *time.Timer
	tm = time.AfterFunc(time.Until(t), func() {
		w.mu.Lock()
		if l.limit == tm {
			l.expired = true
			w.cond.Broadcast()
		}
		w.mu.Unlock()
	})
	l.limit = tm
	return nil
}

func (l *VListener) Close() error {
	vsched.Pause()
	w := l.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.tcp, Err: net.ErrClosed}
	}
	l.closed = true
	delete(w.listeners, l.addr)
	for _, c := range l.queue {
		c.Reset()
	}
	l.queue, l.far = nil, nil
	if w.OnListenerClose != nil {
		w.OnListenerClose(l.addr)
	}
	w.cond.Broadcast()
	return nil
}

func (l *VListener) Addr() net.Addr { return l.tcp }

// Closed reports whether the listener has been closed.
func (l *VListener) Closed() bool {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	return l.closed
}

// ---- harness side

var clientPort atomic.Int64

// clientAddr is the address of a new client. Clients of different hosts may use the same port; connections that are
// handed over may even have the same addresses (of other networks, of a proxy in front).
func (w *World) clientAddr(direct bool) net.Addr {
	n := int(clientPort.Add(1)%20000) + 10000
	ip := net.IPv4(127, 0, 0, 1)
	switch w.Clients {
	case 1:
		ip, n = net.IPv4(10, 1, byte(n>>8), byte(n)), 40123
	case 2:
		if direct {
			n = 40123
		}
	}
	return &net.TCPAddr{IP: ip, Port: n}
}

// ClientPair makes a connection whose near end is handed to the code under test directly.
func (w *World) ClientPair() (under, far *VConn) {
	under, far = w.pair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4242}, w.clientAddr(true))
	under.client = true
	w.mu.Lock()
	w.remember(under)
	w.mu.Unlock()
	return
}

// ClientDial connects a client to a bound address.
func (w *World) ClientDial(addr string) (*VConn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.listeners[addr]
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	under, far := w.pair(l.tcp, w.clientAddr(false))
	under.client = true
	l.queue = append(l.queue, under)
	l.far = append(l.far, far)
	w.cond.Broadcast()
	return far, nil
}

// Bound lists the bound addresses.
func (w *World) Bound() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := []string{}
	for k := range w.listeners {
		r = append(r, k)
	}
	return r
}

// BindFail makes binding an address fail (or work again).
func (w *World) BindFail(addr string, fail bool) {
	w.mu.Lock()
	w.bindFail[addr] = fail
	w.mu.Unlock()
}

// TempAccept makes the next n accepts fail with a temporary error.
func (w *World) TempAccept(n int) {
	w.mu.Lock()
	w.tempAcc += n
	w.cond.Broadcast()
	w.mu.Unlock()
}

// OpenConns lists the connection ends the code under test holds open.
func (w *World) OpenConns() []*VConn {
	w.mu.Lock()
	cs := append([]*VConn(nil), w.conns...)
	w.mu.Unlock()
	r := []*VConn{}
	for _, c := range cs {
		if !c.isClosed() {
			r = append(r, c)
		}
	}
	return r
}

// Shutdown closes everything, so that goroutines of the code under test end.
func (w *World) Shutdown() {
	w.mu.Lock()
	ls := []*VListener{}
	for _, l := range w.listeners {
		ls = append(ls, l)
	}
	cs := append([]*VConn(nil), w.conns...)
	w.mu.Unlock()
	for _, l := range ls {
		w.mu.Lock()
		l.closed = true
		for _, c := range l.queue {
			c.Reset()
		}
		w.cond.Broadcast()
		w.mu.Unlock()
	}
	for _, c := range cs {
		c.Reset()
	}
}

// ---- dialling

func dial(ctx context.Context, network, address string) (net.Conn, error) {
	w := cur.Load()
	if w == nil {
		return nil, fmt.Errorf("vnet: no network")
	}
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	vsched.Pause()
	if err := ctx.Err(); err != nil {
		return fail(err)
	}
	mode, accepted := Refuse, (func(*VConn))(nil)
	if w.OnDial != nil {
		mode, accepted = w.OnDial(address)
	}
	wait := w.DialDelay
	if mode == Hang {
		wait = 127 * time.Second
	}
	if wait > 0 {
		t := time.NewTimer(wait)
		defer t.Stop()
		select {
		case <-ctx.Done():
			err := ctx.Err()
			if err == context.DeadlineExceeded {
				err = os.ErrDeadlineExceeded
			}
			return fail(err)
		case <-t.C:
		}
	}
	switch mode {
	case Refuse:
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case Hang:
		return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	h, p := split(address)
	port := 0
	fmt.Sscan(p, &port)
	under, far := w.pair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000}, &net.TCPAddr{IP: net.ParseIP(h), Port: port})
	w.mu.Lock()
	w.remember(under)
	w.mu.Unlock()
	accepted(far)
	vsched.Pause()
	return under, nil
}

// Dial connects to an endpoint of the in-memory network.
func Dial(network, address string) (net.Conn, error) {
	return dial(context.Background(), network, address)
}

// DialTimeout is Dial with a timeout.
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	d := Dialer{Timeout: timeout}
	return d.Dial(network, address)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if d.Timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	if d.Cancel != nil {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			select {
			case <-d.Cancel:
				cancel()
			case <-stop:
			}
		}()
	}
	return dial(ctx, network, address)
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
