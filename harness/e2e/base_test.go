// Package e2e runs the built program with its configuration files, clients and databases on loopback addresses.
package e2e

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

type m = map[string]any

// Line is a line of a configuration file (Reload.tla).
type Line struct {
	K string `json:"k"`
	V int    `json:"v"`
}

const (
	nports = 3
	busy   = 4
	ndbs   = 3
)

// slow is how long to wait for what must happen.
var slow = 20 * time.Second

// failed counts the runs in which it did not.
var failed atomic.Int32

// world has addresses of its own: 127.x.y.z.
type world struct {
	dir  string
	ip   string
	rng  *rand.Rand
	mu   sync.Mutex
	ev   []m
	dbs  []net.Listener
	hold int // the occupied address
	n    int // sessions opened by the harness itself
}

func (w *world) rec(e m) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

func (w *world) addr(p int) string { return fmt.Sprintf("%s:%d", w.ip, 6000+p) }

func newWorld(dir string, n int, seed int64) *world {
	must(os.MkdirAll(dir, 0o755))
	w := &world{dir: dir, rng: rand.New(rand.NewSource(seed)), hold: -1}
	for try := 0; ; try++ {
		// 127.1.0.1 .. 127.254.x.y, unless somebody else is there
		k := n
		if try > 0 {
			k = rand.Intn(15000000)
		}
		w.ip = fmt.Sprintf("127.%d.%d.%d", 1+k/62500%250, 1+k/250%250, 1+k%250)
		err := w.bind()
		if err == nil {
			return w
		}
		w.unbind()
		if try == 20 {
			must(err)
		}
	}
}

// bind makes the databases listen and occupies an address.
func (w *world) bind() error {
	for d := 1; d <= ndbs; d++ {
		ln, err := net.Listen("tcp", fmt.Sprintf("%s:%d", w.ip, 7000+d))
		if err != nil {
			return err
		}
		w.dbs = append(w.dbs, ln)
		go serveDB(ln, d)
	}
	// bound, not listening, not shared
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return err
	}
	w.hold = fd
	sa := &syscall.SockaddrInet4{Port: 6000 + busy}
	copy(sa.Addr[:], net.ParseIP(w.ip).To4())
	return syscall.Bind(fd, sa)
}

func (w *world) unbind() {
	for _, l := range w.dbs {
		l.Close()
	}
	w.dbs = nil
	if w.hold >= 0 {
		syscall.Close(w.hold)
	}
	w.hold = -1
}

func (w *world) close() {
	w.unbind()
	os.RemoveAll(w.dir)
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// serveDB is database number d: it says so in a parameter status, and answers queries with their text and its number.
func serveDB(ln net.Listener, d int) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			r := bufio.NewReader(c)
			var h [4]byte
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return
			}
			b := make([]byte, min(1<<16, max(0, int(binary.BigEndian.Uint32(h[:]))-4)))
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			var o []byte
			o = append(o, msg('R', []byte{0, 0, 0, 0})...)
			o = append(o, msg('S', []byte("db\x00"+strconv.Itoa(d)+"\x00"))...)
			o = append(o, msg('Z', []byte{'I'})...)
			if _, err := c.Write(o); err != nil {
				return
			}
			for {
				t, b, err := readMsg(r)
				if err != nil || t == 'X' {
					return
				}
				if _, err := c.Write(append(msg('C', []byte(strconv.Itoa(d)+":"+string(b))), msg('Z', []byte{'I'})...)); err != nil {
					return
				}
			}
		}()
	}
}

func msg(t byte, b []byte) []byte {
	o := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(o[1:], uint32(len(b)+4))
	return append(o, b...)
}

func readMsg(r io.Reader) (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	if n < 0 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad length")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return h[0], b, err
}

type session struct {
	c net.Conn
	d int
}

// open connects as a client; returns the database reached, 0 if none, -1 if nothing happens at all.
func (w *world) open(p int) (*session, int) {
	c, err := net.DialTimeout("tcp", w.addr(p), slow)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return nil, -1
		}
		return nil, 0
	}
	b := []byte("\x00\x03\x00\x00user\x00u\x00database\x00db\x00\x00")
	o := make([]byte, 4)
	binary.BigEndian.PutUint32(o, uint32(len(b)+4))
	c.SetDeadline(time.Now().Add(slow))
	if _, err := c.Write(append(o, b...)); err != nil {
		c.Close()
		return nil, 0
	}
	for {
		t, b, err := readMsg(c)
		if err != nil {
			c.Close()
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return nil, -1
			}
			return nil, 0
		}
		if t == 'S' && bytes.HasPrefix(b, []byte("db\x00")) {
			d, _ := strconv.Atoi(strings.TrimRight(string(b[3:]), "\x00"))
			return &session{c, d}, d
		}
	}
}

// echo returns the database that answers a query.
func (s *session) echo(text string) int {
	s.c.SetDeadline(time.Now().Add(slow))
	if _, err := s.c.Write(msg('Q', []byte(text+"\x00"))); err != nil {
		return 0
	}
	for {
		t, b, err := readMsg(s.c)
		if err != nil {
			return 0
		}
		if t == 'C' {
			i := bytes.IndexByte(b, ':')
			if i < 0 || string(b[i+1:]) != text+"\x00" {
				return 0
			}
			d, _ := strconv.Atoi(string(b[:i]))
			return d
		}
	}
}

func (s *session) bye() {
	s.c.SetDeadline(time.Now().Add(time.Second))
	s.c.Write(msg('X', nil))
	s.c.Close()
}

// ---------------------------------------------------------------- configuration files

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// quote writes s as a TOML string.
func quote(r *rand.Rand, s string) string {
	switch r.Intn(5) {
	case 0:
		return "'" + s + "'"
	case 1:
		i := r.Intn(len(s))
		return fmt.Sprintf("\"%s\\u%04X%s\"", s[:i], s[i], s[i+1:])
	case 2:
		return "\"\"\"" + s + "\"\"\""
	}
	return "\"" + s + "\""
}

func (w *world) url(d int) string {
	return pick(w.rng, "postgres", "postgresql") + "://" + pick(w.rng, "", "", "u@", "u:p@") + fmt.Sprintf("%s:%d", w.ip, 7000+d) + "/db" +
		pick(w.rng, "", "?sslmode=disable", "?application_name=x&sslmode=disable")
}

func (w *world) line(l Line) string {
	r := w.rng
	eq := pick(r, " = ", " = ", "=", "\t= ", " =\t")
	key := func(k string) string { return pick(r, "", "", "", "  ", "\t") + pick(r, k, k, k, "\""+k+"\"") }
	end := pick(r, "", "", "", " # note", "\t#", "  ")
	bad := func(s string) string {
		return []string{"5", "true", "[\"" + s + "\"]", "{ a = \"" + s + "\" }"}[l.V%4]
	}
	switch l.K {
	case "listen":
		return key("listen") + eq + quote(r, w.addr(l.V)) + end
	case "listen0":
		return key("listen") + eq + pick(r, `""`, `''`) + end
	case "listenX":
		return key("listen") + eq + bad(w.addr(1+r.Intn(nports))) + end
	case "db":
		return key("database-url") + eq + quote(r, w.url(l.V)) + end
	case "dbX":
		return key("database-url") + eq + bad(w.url(1+r.Intn(ndbs))) + end
	case "other":
		return fmt.Sprintf("other%d = ", l.V) + pick(r, "1", `"x"`, "[1, 2]", "true", "1979-05-27T07:32:00Z", `{ listen = "127.0.0.1:6001" }`, "-0.5", "[\n  1,\n  2,\n]")
	case "table":
		return fmt.Sprintf("[t%d]", l.V)
	case "note":
		switch l.V {
		case 0:
			return "# a note"
		case 1:
			return ""
		case 2:
			return "   "
		case 3:
			return "\t# x = \"unterminated"
		case 4:
			return "# listen = \"" + w.addr(3) + "\""
		}
		n := map[int]int{5: 700, 6: 5000, 9: 70000}[l.V]
		return strings.Repeat("# "+strings.Repeat("x", 60)+"\n", n/63) + "#"
	case "junk":
		return []string{"listen", "= 5", "[unclosed", "x = ", "a = \"unterminated", "\x00\x01\x02", "{ \"json\": 1 }", "x: y", "a = 1 2", "<<<<<<< HEAD"}[l.V%10]
	}
	panic("harness: unknown line " + l.K)
}

func (w *world) text(c []Line) []string {
	nl := pick(w.rng, "\n", "\n", "\n", "\r\n")
	var o []string
	for i, l := range c {
		s := w.line(l)
		if i < len(c)-1 || w.rng.Intn(4) > 0 || l.K == "note" {
			s += nl
		}
		o = append(o, s)
	}
	return o
}

// ---------------------------------------------------------------- running

func TestE2E(t *testing.T) {
	if os.Getenv("E2E_IN") == "" {
		t.Skip()
	}
	if os.Getenv("E2E_SLOW") != "" {
		n, err := strconv.Atoi(os.Getenv("E2E_SLOW"))
		must(err)
		slow = time.Duration(n) * time.Second
	}
	f, err := os.Open(os.Getenv("E2E_IN"))
	must(err)
	o, err := os.Create(os.Getenv("E2E_OUT"))
	must(err)
	var mu sync.Mutex
	out := func(v any) {
		b, err := json.Marshal(v)
		must(err)
		mu.Lock()
		o.Write(append(b, '\n'))
		mu.Unlock()
	}
	base := os.Getenv("E2E_DIR")
	par, _ := strconv.Atoi(os.Getenv("E2E_PAR"))
	budget, _ := strconv.Atoi(os.Getenv("E2E_BUDGET"))
	end := time.Now().Add(time.Duration(budget) * time.Second)
	jobs := make(chan json.RawMessage)
	var wg sync.WaitGroup
	for i := 0; i < max(1, par); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				var h struct {
					Kind string `json:"kind"`
				}
				must(json.Unmarshal(j, &h))
				switch h.Kind {
				case "reload":
					out(runReload(j, base))
				case "cli":
					out(runCli(j, base))
				default:
					panic("harness: kind " + h.Kind)
				}
			}
		}()
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		if time.Now().After(end) || failed.Load() >= 10 {
			break
		}
		jobs <- append([]byte(nil), sc.Bytes()...)
	}
	close(jobs)
	wg.Wait()
	out(m{"X": 1})
}
