package wire

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/hired/gevulot/pkg/pg"

	"gevulotverif/vsched"
)

// Group is one line of the input: cases that are run together, one after the other or concurrently.
type Group struct {
	Id      int      `json:"id"`
	Kind    string   `json:"kind"`
	Conc    bool     `json:"conc"`
	Res     bool     `json:"res"` // measure what is allocated
	Seed    int64    `json:"seed"`
	Cases   []Case   `json:"cases"`
	Scripts []Script `json:"scripts"`
	Urls    []Bytes  `json:"urls"`
}

// Case of the codec.
type Case struct {
	C    string `json:"c"`
	Kind string `json:"kind"`
	T    int    `json:"t"`
	B    Bytes  `json:"b"`
	V    *V     `json:"v"`
	Ps   []Pair `json:"ps"`
	N    Bytes  `json:"n"`
	Num  int    `json:"num"`
}

// Script of the frame readers (stream, calls) or of the buffers (ops).
type Script struct {
	Stream Bytes    `json:"stream"`
	Calls  []string `json:"calls"`
	Style  string   `json:"style"`
	Eof    string   `json:"eof"`
	Ops    []BufOp  `json:"ops"`
}

type BufOp struct {
	W  int             `json:"w"`
	Op string          `json:"op"`
	V  json.RawMessage `json:"v"`
	K  int             `json:"k"`
	KK string          `json:"kk"` // a size that does not fit the specification's integers
}

// guarded runs f and reports a panic.
func guarded(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	f()
	return true
}

var memMu sync.Mutex

// measured runs f and returns how many bytes it allocated beyond the allowance, in KB.
func measured(on bool, allowance int, f func()) int {
	if !on {
		f()
		return 0
	}
	memMu.Lock()
	defer memMu.Unlock()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return over(int64(b.TotalAlloc-a.TotalAlloc), allowance)
}

func over(n int64, allowance int) int {
	x := n - int64(allowance)
	if x <= 0 {
		return 0
	}
	if x = x/1024 + 1; x > 1<<30 {
		x = 1 << 30
	}
	return int(x)
}

// bufConn is a connection that receives from r and drops what is sent.
type bufConn struct {
	net.Conn
	r io.Reader
}

func (c *bufConn) Read(p []byte) (int, error)  { return c.r.Read(p) }
func (c *bufConn) Write(p []byte) (int, error) { return len(p), nil }
func (c *bufConn) Close() error                { return nil }

func frame(kind string, t int, body []byte) pg.Frame {
	if kind == "Startup" {
		return pg.NewStartupFrame(body)
	}
	return pg.NewStandardFrame(byte(t), body)
}

// codec runs one case; the returned function looks at the outcome (after all the cases of the group have run).
func codec(c Case, res bool) func() m {
	body := append([]byte{}, c.B...)
	switch c.C {
	case "dec":
		var msg pg.Message
		var err error
		var enc []byte
		t := c.T
		if c.Kind == "Startup" {
			t = 0
		}
		f := frame(c.Kind, t, body)
		alloc := 0
		ok := guarded(func() {
			alloc = measured(res, 65536+128*len(body), func() { msg, err = parse(c.Kind, f) })
			if err == nil {
				enc = msg.Frame().Bytes()
			}
		})
		return func() m {
			e := m{"e": "dec", "kind": c.Kind, "t": t, "b": c.B, "r": "ok", "v": none, "enc": Bytes(enc), "alloc": alloc, "after": Bytes(f.MessageBody())}
			if !ok {
				e["r"] = "panic"
			} else if err != nil {
				e["r"] = "err"
			} else {
				_, e["v"] = fields(msg)
			}
			return e
		}
	case "enc":
		var enc []byte
		var back pg.Message
		var err error
		ok := guarded(func() {
			f := build(c.Kind, c.V).Frame()
			enc = f.Bytes()
			back, err = parse(c.Kind, f)
		})
		return func() m {
			_, v := fields(build(c.Kind, c.V))
			e := m{"e": "enc", "kind": c.Kind, "v": v, "r": "ok", "enc": Bytes(enc), "back": none}
			if !ok {
				e["r"] = "panic"
			} else if err != nil {
				e["r"] = "err"
			} else {
				_, e["back"] = fields(back)
			}
			return e
		}
	case "msg":
		f := append([]byte{byte(c.T), 0, 0, 0, 0}, body...)
		n := len(body) + 4
		f[1], f[2], f[3], f[4] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		var msg pg.Message
		var err error
		var g []byte
		alloc := 0
		ok := guarded(func() {
			alloc = measured(res, 65536+256*len(body), func() { msg, err = pg.NewConn(&bufConn{r: bytes.NewReader(f)}).RecvMessage() })
			if err == nil {
				g = msg.Frame().Bytes()
			}
		})
		return func() m {
			e := m{"e": "msg", "f": Bytes(f), "g": Bytes(g), "k": "", "v": none, "r": "ok", "alloc": alloc}
			if !ok {
				e["r"] = "panic"
			} else if err != nil {
				e["r"] = "err"
			} else {
				e["k"], e["v"] = fields(msg)
			}
			return e
		}
	case "param":
		v := startup(196608, c.Ps).GetParameter(string(c.N))
		return func() m {
			ps := []m{}
			for _, p := range c.Ps {
				ps = append(ps, m{"n": p.N, "v": p.V})
			}
			return m{"e": "param", "ps": ps, "n": c.N, "v": Bytes(v)}
		}
	case "ssl", "relay", "idle":
		return flood(c)
	}
	panic("harness: case " + c.C)
}

// scripted hands out a stream in pieces.
type scripted struct {
	data       []byte
	pos        int
	style, eof string
	rng        *rand.Rand
	zeros      int
	log        func(m)
}

var errBroken = errors.New("connection reset by peer")

func (s *scripted) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	runtime.Gosched()
	left := len(s.data) - s.pos
	last := error(io.EOF)
	if s.eof == "broken" {
		last = errBroken
	}
	if left == 0 {
		s.log(m{"e": "Read", "n": 0, "end": true})
		return 0, last
	}
	n := len(p)
	style := s.style
	if style == "mix" {
		style = []string{"all", "one", "few", "half", "zero"}[s.rng.Intn(5)]
	}
	switch style {
	case "one":
		n = 1
	case "few":
		n = 1 + s.rng.Intn(4)
	case "half":
		n = (n + 1) / 2
	case "zero":
		if s.zeros < 2 && s.rng.Intn(2) == 0 {
			s.zeros++
			s.log(m{"e": "Read", "n": 0, "end": false})
			return 0, nil
		}
		n = 1 + s.rng.Intn(n)
	}
	s.zeros = 0
	if n > left {
		n = left
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if n == left && s.eof == "with" {
		s.log(m{"e": "Read", "n": n, "end": true})
		return n, last
	}
	s.log(m{"e": "Read", "n": n, "end": false})
	return n, nil
}

func framing(sc Script, seed int64, res bool) func() []m {
	var evs []m
	s := &scripted{data: sc.Stream, style: sc.Style, eof: sc.Eof, rng: rand.New(rand.NewSource(seed)), log: func(e m) { evs = append(evs, e) }}
	conn := pg.NewConn(&bufConn{r: s})
	late := map[int]func() []byte{}
	for _, what := range sc.Calls {
		evs = append(evs, m{"e": "Call", "what": what})
		var f pg.Frame
		var err error
		from := s.pos
		var a, b runtime.MemStats
		ok := guarded(func() {
			if res {
				memMu.Lock()
				defer memMu.Unlock()
				runtime.ReadMemStats(&a)
			}
			switch what {
			case "std":
				var x pg.StandardFrame
				x, err = pg.ReadStandardFrame(s)
				f = x
			case "start":
				var x pg.StartupFrame
				x, err = pg.ReadStartupFrame(s)
				f = x
			case "cmsg":
				var x pg.Message
				if x, err = conn.RecvMessage(); err == nil {
					f = x.Frame()
				}
			case "cstart":
				var x *pg.StartupMessage
				if x, err = conn.RecvStartupMessage(); err == nil {
					f = x.Frame()
				}
			}
			if res {
				runtime.ReadMemStats(&b)
			}
		})
		if !ok {
			evs = append(evs, m{"e": "Panic"})
			break
		}
		if res {
			evs = append(evs, m{"e": "Alloc", "kb": over(int64(b.TotalAlloc-a.TotalAlloc), 8<<20+1024*(s.pos-from))})
		}
		if err != nil {
			evs = append(evs, m{"e": "Err"})
			break
		}
		late[len(evs)] = f.Bytes
		evs = append(evs, m{"e": "Ok"})
	}
	return func() []m {
		for i, p := range late {
			evs[i]["p"] = Bytes(p())
		}
		return evs
	}
}

func clip(k int) int {
	if k > 1<<31-1 {
		return 1<<31 - 1
	}
	if k < -1<<31 {
		return -1 << 31
	}
	return k
}

func buffer(sc Script) func() []m {
	var w pg.WriteBuffer
	var r pg.ReadBuffer
	var late []func() m
	writing := true
	evs := func(e func() m) { late = append(late, e) }
	ok := guarded(func() {
		for _, o := range sc.Ops {
			if (o.W == 1) != writing {
				if writing {
					r = pg.ReadBuffer(w)
				} else {
					w = pg.WriteBuffer(append([]byte(nil), r...))
				}
				writing = !writing
			}
			if writing {
				var v any
				switch o.Op {
				case "bytes":
					x := Bytes{}
					un(o.V, &x)
					w.WriteBytes(x)
					v = x
				case "byte":
					var x byte
					un(o.V, &x)
					w.WriteByte(x)
					v = int(x)
				case "int32":
					var x int32
					un(o.V, &x)
					w.WriteInt32(x)
					v = x
				case "int16":
					var x int16
					un(o.V, &x)
					w.WriteInt16(x)
					v = x
				case "string":
					x := Bytes{}
					un(o.V, &x)
					w.WriteString(string(x))
					v = x
				case "int32s":
					x := []int32{}
					un(o.V, &x)
					w.WriteInt32Array(x)
					v = x
				case "int16s":
					x := []int16{}
					un(o.V, &x)
					w.WriteInt16Array(x)
					v = x
				}
				op, all, n := o.Op, append(Bytes{}, w...), w.Len()
				evs(func() m { return m{"e": "Write", "op": op, "v": v} })
				evs(func() m { return m{"e": "Look", "b": all, "n": n} })
				continue
			}
			k := o.K
			if o.KK != "" {
				k, _ = strconv.Atoi(o.KK)
			}
			var v func() any
			var err error
			switch o.Op {
			case "bytes":
				var x []byte
				x, err = r.ReadBytes(k)
				v = func() any { return append(Bytes{}, x...) }
			case "byte":
				var x byte
				x, err = r.ReadByte()
				v = func() any { return int(x) }
			case "int32":
				var x int32
				x, err = r.ReadInt32()
				v = func() any { return x }
			case "int16":
				var x int16
				x, err = r.ReadInt16()
				v = func() any { return x }
			case "string":
				var x string
				x, err = r.ReadString()
				v = func() any { return Bytes(x) }
			case "int32s":
				var x []int32
				x, err = r.ReadInt32Array(k)
				v = func() any { return append([]int32{}, x...) }
			case "int16s":
				var x []int16
				x, err = r.ReadInt16Array(k)
				v = func() any { return append([]int16{}, x...) }
			}
			op, ok, all, n := o.Op, err == nil, append(Bytes{}, r...), r.Len()
			if !ok {
				v = func() any { return 0 }
			}
			evs(func() m { return m{"e": "Read", "op": op, "k": clip(k), "ok": ok, "v": v()} })
			evs(func() m { return m{"e": "Look", "b": all, "n": n} })
		}
	})
	return func() []m {
		out := []m{}
		for _, f := range late {
			out = append(out, f())
		}
		if !ok {
			out = append(out, m{"e": "Panic"})
		}
		return out
	}
}

func un(d json.RawMessage, x any) {
	if err := json.Unmarshal(d, x); err != nil {
		panic(err)
	}
}

func each(n int, conc bool, f func(i int)) {
	if !conc {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	vsched.Mixing.Store(true)
	defer vsched.Mixing.Store(false)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); f(i) }()
	}
	wg.Wait()
}

func TestWire(t *testing.T) {
	log.SetOutput(io.Discard)
	in, err := os.Open(os.Getenv("WIRE_IN"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("WIRE_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
	if err != nil {
		t.Fatal(err)
	}
	skip, _ := strconv.Atoi(os.Getenv("WIRE_SKIP"))
	write := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			t.Fatal(err)
		}
	}
	progress := make(chan int, 1)
	go func() { // nothing takes this long
		for {
			select {
			case <-progress:
			case <-time.After(40 * time.Second):
				panic("no progress")
			}
		}
	}()
	sc := bufio.NewReader(in)
	for n := 1; ; n++ {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			break
		}
		if n <= skip {
			continue
		}
		var g Group
		un(line, &g)
		write(m{"B": n, "id": g.Id})
		var traces []m
		switch g.Kind {
		case "codec":
			looks := make([]func() m, len(g.Cases))
			each(len(g.Cases), g.Conc, func(i int) { looks[i] = codec(g.Cases[i], g.Res) })
			evs := []m{}
			for _, l := range looks {
				evs = append(evs, l())
			}
			traces = append(traces, m{"ev": evs})
		case "framing":
			looks := make([]func() []m, len(g.Scripts))
			each(len(g.Scripts), g.Conc, func(i int) { looks[i] = framing(g.Scripts[i], g.Seed+int64(i), g.Res) })
			for i, l := range looks {
				traces = append(traces, m{"stream": g.Scripts[i].Stream, "ev": l()})
			}
		case "buffer":
			looks := make([]func() []m, len(g.Scripts))
			each(len(g.Scripts), g.Conc, func(i int) { looks[i] = buffer(g.Scripts[i]) })
			for _, l := range looks {
				traces = append(traces, m{"ev": l()})
			}
		case "dsn":
			looks := make([]func() []m, len(g.Urls))
			each(len(g.Urls), g.Conc, func(i int) { looks[i] = dsn(g.Urls[i]) })
			for _, l := range looks {
				traces = append(traces, m{"ev": l()})
			}
		}
		write(m{"id": g.Id, "traces": traces})
		select {
		case progress <- n:
		default:
		}
	}
	write(m{"X": 1})
}
