package meta

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/pgmeta"
)

type m = map[string]any

type Script struct {
	Id      int        `json:"id"`
	Db      string     `json:"db"`
	Rels    []Rel      `json:"rels"`
	Conns   []string   `json:"conns"`
	Queries []QPlan    `json:"queries"`
	Calls   [][]string `json:"calls"`
	Down    int        `json:"down"`
	Race    bool       `json:"race"`
	Seed    int64      `json:"seed"`
}

type Rel struct {
	Oid    json.Number `json:"oid"`
	Name   string      `json:"name"`
	Schema string      `json:"schema"`
	Kind   string      `json:"kind"`
	Sys    bool        `json:"sys"`
}

type QPlan struct {
	F    string `json:"f"`
	At   int    `json:"at"`
	Frag bool   `json:"frag"`
}

// world is one database with the inspectors that use it.
type world struct {
	s  *Script
	mu sync.Mutex
	ev []m

	addr  string
	ln    net.Listener
	nconn int
	conns []string
	qs    []QPlan
	open  map[int]net.Conn

	class, ns []rel
	nsID      map[string]string
	wg        sync.WaitGroup
}

func (w *world) emit(e m) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

func (w *world) listen() {
	ln, err := net.Listen("tcp", w.addr)
	for i := 0; err != nil && i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
		ln, err = net.Listen("tcp", w.addr)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	w.ln, w.addr = ln, ln.Addr().String()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			w.wg.Add(1)
			go func() { defer w.wg.Done(); w.serve(c) }()
		}
	}()
}

type pconn struct {
	w    *world
	c    net.Conn
	id   int
	r    *bufio.Reader
	rng  *rand.Rand
	out  bytes.Buffer
	frag bool
}

func msg(t byte, body ...[]byte) []byte {
	var b []byte
	for _, x := range body {
		b = append(b, x...)
	}
	h := make([]byte, 5, 5+len(b))
	h[0] = t
	binary.BigEndian.PutUint32(h[1:], uint32(len(b)+4))
	return append(h, b...)
}
func i16(n int) []byte  { b := make([]byte, 2); binary.BigEndian.PutUint16(b, uint16(n)); return b }
func i32(n int) []byte  { b := make([]byte, 4); binary.BigEndian.PutUint32(b, uint32(n)); return b }
func z(s string) []byte { return append([]byte(s), 0) }
func rfq() []byte       { return msg('Z', []byte("I")) }
func pgerr(c string) []byte {
	return msg('E', []byte("S"), z("ERROR"), []byte("C"), z(c), []byte("M"), z("made to fail"), []byte{0})
}
func fatal() []byte {
	return msg('E', []byte("S"), z("FATAL"), []byte("C"), z("57P01"), []byte("M"), z("made to fail"), []byte{0})
}

func (p *pconn) write(b []byte) { p.out.Write(b) }

func (p *pconn) flush() {
	b := p.out.Bytes()
	for len(b) > 0 {
		n := len(b)
		if p.frag {
			n = 1 + p.rng.Intn(n)
			if n > 40 {
				n = 40 + p.rng.Intn(n)/2
				if n > len(b) {
					n = len(b)
				}
			}
		}
		if _, err := p.c.Write(b[:n]); err != nil {
			break
		}
		b = b[n:]
		if p.frag && len(b) > 0 && p.rng.Intn(4) == 0 {
			time.Sleep(time.Duration(p.rng.Intn(300)) * time.Microsecond)
		}
	}
	p.out.Reset()
}

// lose ends the connection.
func (p *pconn) lose(reset bool) {
	p.w.emit(m{"e": "Fault", "c": p.id, "ends": true})
	p.flush()
	if reset {
		p.c.(*net.TCPConn).SetLinger(0)
	}
	p.w.forget(p.id)
	p.c.Close()
}

func (w *world) forget(id int) {
	w.mu.Lock()
	delete(w.open, id)
	w.mu.Unlock()
}

func (w *world) pop() (q QPlan) {
	w.mu.Lock()
	defer w.mu.Unlock()
	q = QPlan{F: "ok"}
	if len(w.qs) > 0 {
		q, w.qs = w.qs[0], w.qs[1:]
	}
	return
}

func (p *pconn) gone() {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	if _, ok := p.w.open[p.id]; ok {
		delete(p.w.open, p.id)
		p.w.ev = append(p.w.ev, m{"e": "Gone", "c": p.id})
	}
	p.c.Close()
}

func (w *world) serve(c net.Conn) {
	w.mu.Lock()
	w.nconn++
	p := &pconn{w: w, c: c, id: w.nconn, r: bufio.NewReader(c), rng: rand.New(rand.NewSource(w.s.Seed*1000 + int64(w.nconn)))}
	plan := "ok"
	if len(w.conns) > 0 {
		plan, w.conns = w.conns[0], w.conns[1:]
	}
	w.open[p.id] = c
	w.ev = append(w.ev, m{"e": "Conn", "c": p.id})
	w.mu.Unlock()
	if plan == "close" {
		p.lose(p.rng.Intn(2) == 0)
		return
	}
	hd := make([]byte, 4)
	if _, err := io.ReadFull(p.r, hd); err != nil {
		p.gone()
		return
	}
	n := int(binary.BigEndian.Uint32(hd))
	if n < 8 || n > 10000 {
		panic("harness: startup")
	}
	if _, err := io.CopyN(io.Discard, p.r, int64(n-4)); err != nil {
		p.gone()
		return
	}
	switch plan {
	case "error":
		p.write(msg('E', []byte("S"), z("FATAL"), []byte("C"), z("3D000"), []byte("M"), z("no such database"), []byte{0}))
		p.lose(false)
		return
	case "auth":
		p.write(msg('R', i32(99)))
		p.lose(false)
		return
	case "cut":
		p.write(msg('R', i32(0)))
		p.write([]byte{'S', 0, 0})
		p.lose(false)
		return
	}
	w.emit(m{"e": "Ready", "c": p.id})
	p.write(msg('R', i32(0)))
	p.write(msg('S', z("server_version"), z("11.5")))
	p.write(msg('S', z("standard_conforming_strings"), z("on")))
	p.write(msg('K', i32(1), i32(2)))
	p.write(rfq())
	p.flush()
	p.loop()
}

func (p *pconn) recv() (byte, []byte, bool) {
	h := make([]byte, 5)
	if _, err := io.ReadFull(p.r, h); err != nil {
		return 0, nil, false
	}
	b := make([]byte, int(binary.BigEndian.Uint32(h[1:]))-4)
	if _, err := io.ReadFull(p.r, b); err != nil {
		return 0, nil, false
	}
	return h[0], b, true
}

// result is what a query gives.
type result struct {
	kind  string
	cols  []string
	types []int
	rows  [][]string
	recs  []m // rows as tables
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	return string(b[:i]), b[i+1:]
}

func (p *pconn) loop() {
	var sql string
	var args []string
	failed := false
	for {
		t, b, ok := p.recv()
		if !ok {
			p.gone()
			return
		}
		switch t {
		case 'X':
			p.gone()
			return
		case 'Q':
			q, _ := cstr(b)
			if !p.answer(q, nil, true) {
				return
			}
			p.flush()
		case 'P':
			_, r := cstr(b)
			sql, _ = cstr(r)
			p.write(msg('1'))
		case 'D':
			if b[0] == 'S' {
				n := strings.Count(sql, "$") // good enough: nothing repeats a parameter
				ps := i16(n)
				for i := 0; i < n; i++ {
					ps = append(ps, i32(25)...)
				}
				p.write(msg('t', ps))
			}
			r, _ := p.w.run(sql, make([]string, strings.Count(sql, "$")))
			p.write(r.desc())
		case 'B':
			args = nil
			_, r := cstr(b)
			_, r = cstr(r)
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			na := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			for i := 0; i < na; i++ {
				l := int(int32(binary.BigEndian.Uint32(r)))
				r = r[4:]
				v := ""
				if l >= 0 {
					v, r = string(r[:l]), r[l:]
				}
				args = append(args, v)
			}
			p.write(msg('2'))
		case 'E':
			if !p.answer(sql, args, false) {
				return
			}
		case 'C':
			p.write(msg('3'))
		case 'S':
			failed = false
			p.write(rfq())
			p.flush()
		case 'H':
			p.flush()
		default:
			p.write(pgerr("0A000"))
		}
		_ = failed
	}
}

func (r result) desc() []byte {
	if len(r.cols) == 0 {
		return msg('n')
	}
	b := i16(len(r.cols))
	for i, c := range r.cols {
		b = append(b, z(c)...)
		b = append(b, i32(0)...)
		b = append(b, i16(0)...)
		b = append(b, i32(r.types[i])...)
		b = append(b, i16(-1)...)
		b = append(b, i32(-1)...)
		b = append(b, i16(0)...)
	}
	return msg('T', b)
}

// run does what a query asks for, as far as it is understood.
func (w *world) run(sql string, args []string) (result, bool) {
	low := strings.ToLower(sql)
	q, err := parse(sql, args)
	var rows [][]string
	if err == nil {
		rows, err = q.eval(w.s.Db, w.class, w.ns)
	}
	switch {
	case strings.Contains(low, "pg_class") || strings.Contains(low, "pg_tables") || strings.Contains(low, "information_schema"):
		r := result{kind: "tab", cols: []string{"a", "b", "c"}}
		if err == nil && len(q.cols) == 3 {
			// which column is which is seen from the values the catalogs give
			at := w.columns(q)
			if at != nil {
				for i := range at {
					r.types = append(r.types, map[int]int{0: 26, 1: 19, 2: 19}[at[i]])
				}
				r.rows = rows
				for _, x := range rows {
					e := m{}
					for i := range at {
						e[[]string{"oid", "name", "schema"}[at[i]]] = x[i]
					}
					r.recs = append(r.recs, e)
				}
				return r, true
			}
		}
		r.types = []int{26, 19, 19}
		for _, x := range w.s.Rels {
			if !x.Sys && strings.Contains("rmv", x.Kind) {
				r.rows = append(r.rows, []string{x.Oid.String(), x.Name, x.Schema})
				r.recs = append(r.recs, m{"oid": x.Oid.String(), "name": x.Name, "schema": x.Schema})
			}
		}
		return r, false
	case strings.Contains(low, "current_database") || strings.Contains(low, "current_catalog"):
		return result{kind: "db", cols: []string{"current_database"}, types: []int{19}, rows: [][]string{{w.s.Db}}, recs: []m{{}}}, true
	}
	return result{kind: "other", cols: []string{"x"}, types: []int{25}, rows: [][]string{{"x"}}, recs: []m{{}}}, false
}

// columns finds out whether the columns of q are an object identifier (0), a table (1) and a schema (2).
func (w *world) columns(q query) []int {
	probe := q
	probe.where, probe.order, probe.limit, probe.off = nil, nil, 1, 0
	rows, err := probe.eval("d", []rel{{"oid": "7", "relname": "#name", "relnamespace": "9", "relkind": "r"}}, []rel{{"oid": "9", "nspname": "#schema"}})
	if err != nil || len(rows) != 1 {
		return nil
	}
	var at []int
	for _, v := range rows[0] {
		switch v {
		case "7":
			at = append(at, 0)
		case "#name":
			at = append(at, 1)
		case "#schema":
			at = append(at, 2)
		default:
			at = append(at, 3)
		}
	}
	for _, a := range at {
		if a == 3 {
			return nil
		}
	}
	return at
}

// answer answers one query; false: the connection is over.
func (p *pconn) answer(sql string, args []string, simple bool) bool {
	w := p.w
	if strings.Trim(sql, " ;\n\t") == "" {
		w.emit(m{"e": "Query", "c": p.id, "k": "other"})
		w.emit(m{"e": "Done", "c": p.id})
		p.write(msg('I'))
		if simple {
			p.write(rfq())
		}
		return true
	}
	r, _ := w.run(sql, args)
	pl := w.pop()
	p.frag = pl.Frag
	w.emit(m{"e": "Query", "c": p.id, "k": r.kind})
	end := func() {
		if simple {
			p.write(rfq())
		}
	}
	if simple {
		p.write(r.desc())
	}
	at := pl.At
	if at > len(r.rows) {
		at = len(r.rows)
	}
	cells := func(row []string) []byte {
		b := i16(len(row))
		for _, v := range row {
			b = append(b, i32(len(v))...)
			b = append(b, v...)
		}
		return msg('D', b)
	}
	bad := false
	for i := 0; i <= len(r.rows); i++ {
		if i == at {
			switch pl.F {
			case "close", "reset":
				p.lose(pl.F == "reset")
				return false
			case "error":
				w.emit(m{"e": "Fault", "c": p.id, "ends": false})
				p.write(pgerr("57014"))
				end()
				return p.skip(simple)
			case "fatal":
				p.write(fatal())
				p.lose(false)
				return false
			case "torn":
				if i < len(r.rows) {
					b := cells(r.rows[i])
					p.write(b[:1+p.rng.Intn(len(b)-1)])
				} else {
					p.write([]byte("C\x00\x00"))
				}
				p.lose(false)
				return false
			}
		}
		if i == len(r.rows) {
			break
		}
		row := append([]string(nil), r.rows[i]...)
		if i == at && (pl.F == "null" || pl.F == "bad" || pl.F == "short") && r.kind != "other" {
			k := p.rng.Intn(len(row))
			switch {
			case pl.F == "null":
				bad = true
				b := i16(len(row))
				for j, v := range row {
					if j == k {
						b = append(b, i32(-1)...)
					} else {
						b = append(append(b, i32(len(v))...), v...)
					}
				}
				p.write(msg('D', b))
				continue
			case pl.F == "bad" && r.kind == "tab":
				bad = true
				for j, ty := range r.types {
					if ty == 26 {
						row[j] = []string{"x", "-1", "4294967296", "", "12.5"}[p.rng.Intn(5)]
					}
				}
				p.write(cells(row))
				continue
			}
		}
		if r.kind == "tab" {
			w.emit(m{"e": "Row", "c": p.id, "r": r.recs[i]})
		}
		p.write(cells(row))
		if p.frag && p.rng.Intn(3) == 0 {
			p.flush()
		}
	}
	if bad {
		w.emit(m{"e": "Fault", "c": p.id, "ends": false})
		p.write(msg('C', z(fmt.Sprintf("SELECT %d", len(r.rows)))))
		end()
		return true
	}
	if pl.F == "errlate" { // instead of completing
		w.emit(m{"e": "Fault", "c": p.id, "ends": false})
		p.write(pgerr("40001"))
		end()
		return p.skip(simple)
	}
	w.emit(m{"e": "Done", "c": p.id})
	p.write(msg('C', z(fmt.Sprintf("SELECT %d", len(r.rows)))))
	if pl.F == "lost" { // before it says that it is ready
		p.lose(false)
		return false
	}
	end()
	if pl.F == "idle" { // lost between two queries
		p.lose(p.rng.Intn(2) == 0)
		return false
	}
	return true
}

// skip reads up to the end of an extended query that has failed.
func (p *pconn) skip(simple bool) bool {
	if simple {
		return true
	}
	for {
		t, _, ok := p.recv()
		if !ok {
			p.gone()
			return false
		}
		if t == 'S' {
			p.write(rfq())
			p.flush()
			return true
		}
	}
}

// ---------------------------------------------------------------- callers

func (w *world) call(t int, op string, i **pgmeta.Inspector) {
	w.emit(m{"e": "Call", "t": t, "op": op})
	e := m{"e": "Ret", "t": t, "op": op, "r": "ok", "rows": []m{}, "n": 0, "v": ""}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				e = m{"e": "Panic", "what": fmt.Sprint(x)}
			}
		}()
		var err error
		switch op {
		case "inspect":
			var x *pgmeta.Inspector
			host, port, _ := net.SplitHostPort(w.addr)
			x, err = pgmeta.Inspect(fmt.Sprintf("postgres://u:p@%s:%s/d?sslmode=disable", host, port))
			if err == nil {
				*i = x
			}
		case "tab":
			mp, er := (*i).OIDTableMapping()
			err = er
			rows := []m{}
			for k, v := range mp {
				rows = append(rows, m{"oid": strconv.FormatUint(uint64(k), 10), "schema": v.Schema, "name": v.Name})
			}
			sort.Slice(rows, func(a, b int) bool { return rows[a]["oid"].(string) < rows[b]["oid"].(string) })
			e["rows"], e["n"] = rows, len(rows)
		case "db":
			s, er := (*i).DatabaseName()
			err = er
			e["v"] = s
		case "close":
			err = (*i).Close()
			_ = err
			err = nil
		}
		if err != nil {
			e["r"] = "err"
		}
	}()
	select {
	case <-done:
		w.emit(e)
	case <-time.After(60 * time.Second):
		w.emit(m{"e": "Stuck", "op": op})
	}
}

func (w *world) run_() {
	w.listen()
	var insp *pgmeta.Inspector
	down := 0
	setDown := func(on bool) {
		w.emit(m{"e": "Down", "on": on})
		if on {
			w.ln.Close()
		} else {
			w.listen()
		}
	}
	if w.s.Down == 1 {
		setDown(true)
		down = 1
	}
	for k := 0; insp == nil && k < 4; k++ {
		w.call(1, "inspect", &insp)
		if insp == nil {
			w.rest(false)
		}
		if down == 1 {
			setDown(false)
			down = 0
		}
	}
	if insp != nil {
		closed := false
		for k, b := range w.s.Calls {
			last := k == len(w.s.Calls)-1
			if w.s.Down == k+2 {
				setDown(true)
				down = 1
			}
			var wg sync.WaitGroup
			for j, op := range b {
				wg.Add(1)
				go func() { defer wg.Done(); w.call(j+1, op, &insp) }()
			}
			if last && w.s.Race {
				wg.Add(1)
				closed = true
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(w.s.Seed%1000) * time.Microsecond)
					w.call(len(b)+1, "close", &insp)
				}()
			}
			wg.Wait()
			if down == 1 {
				setDown(false)
				down = 0
			}
		}
		if !closed {
			w.call(1, "close", &insp)
		}
		w.call(1, "tab", &insp)
		w.call(1, "db", &insp)
		w.rest(true)
	}
	w.ln.Close()
	w.mu.Lock()
	for _, c := range w.open {
		c.Close()
	}
	w.open = map[int]net.Conn{}
	w.mu.Unlock()
	w.wg.Wait()
}

// rest waits until the inspector has let go of every connection, for a while.
func (w *world) rest(bool) {
	o := []int{}
	for i := 0; i < 1000; i++ {
		o = []int{}
		w.mu.Lock()
		for id := range w.open {
			o = append(o, id)
		}
		w.mu.Unlock()
		if len(o) == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	sort.Ints(o)
	w.emit(m{"e": "Rest", "open": o})
}

func runScript(s *Script) []m {
	w := &world{s: s, addr: "127.0.0.1:0", conns: s.Conns, qs: s.Queries, open: map[int]net.Conn{}, nsID: map[string]string{}}
	for _, sc := range []string{"public", "pg_catalog", "information_schema", "pg_toast"} {
		w.schema(sc)
	}
	for _, r := range s.Rels {
		w.class = append(w.class, rel{"oid": r.Oid.String(), "relname": r.Name, "relnamespace": w.schema(r.Schema), "relkind": r.Kind})
	}
	w.run_()
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ev
}

func (w *world) schema(s string) string {
	id, ok := w.nsID[s]
	if !ok {
		id = strconv.Itoa(11 + len(w.nsID))
		w.nsID[s] = id
		w.ns = append(w.ns, rel{"oid": id, "nspname": s})
	}
	return id
}

func TestMeta(t *testing.T) {
	os.Clearenv() // the driver listens to PG* variables
	in, err := os.Open(inFile)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(outFile)
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	ch := make(chan *Script)
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				ev := runScript(s)
				b, err := json.Marshal(m{"id": s.Id, "ev": ev})
				if err != nil {
					panic(err)
				}
				mu.Lock()
				out.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	sc := bufio.NewReader(in)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			break
		}
		s := &Script{}
		if err := json.Unmarshal(line, s); err != nil {
			t.Fatal(err)
		}
		ch <- s
	}
	close(ch)
	wg.Wait()
	out.Write([]byte("{\"X\": 1}\n"))
}

var inFile, outFile = os.Getenv("META_IN"), os.Getenv("META_OUT")
