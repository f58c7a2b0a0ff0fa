package wire

import (
	"bufio"
	"io"
	"net"
	"runtime"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// held is the memory in use after a garbage collection.
func held() int64 {
	var a runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&a)
	return int64(a.HeapInuse + a.StackInuse)
}

// flood sends num requests of one sort through a session and looks at what the proxy holds on to.
func flood(c Case) func() m {
	memMu.Lock()
	defer memMu.Unlock()
	e := m{"e": "flood", "what": c.C, "num": c.Num, "got": 0, "alloc": 0, "r": "ok"}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	cfgs := make(chan *server.Config, 1)
	cfgs <- &server.Config{Listen: "127.0.0.1:0", DatabaseURL: "postgres://u@" + ln.Addr().String() + "/d1?sslmode=disable"}
	srv := server.NewServer(server.NewConfigDistributor(cfgs))
	defer srv.Close()
	mine, its := net.Pipe()
	defer mine.Close()
	go func() { _ = srv.ServeConn(its) }()
	_ = mine.SetDeadline(time.Now().Add(30 * time.Second))
	before := held()
	got := 0
	switch c.C {
	case "ssl":
		p := []byte{0, 0, 0, 8, 4, 210, 22, 47}
		var b [1]byte
		for got < c.Num {
			if _, err := mine.Write(p); err != nil {
				break
			}
			if n, err := mine.Read(b[:]); n != 1 || err != nil || b[0] != 'N' {
				break
			}
			got++
		}
	case "relay":
		body := "\x00\x03\x00\x00user\x00u\x00database\x00d1\x00\x00"
		if _, err := mine.Write(append([]byte{0, 0, 0, byte(len(body) + 4)}, body...)); err != nil {
			break
		}
		db, err := ln.Accept()
		if err != nil {
			break
		}
		defer db.Close()
		_ = db.SetDeadline(time.Now().Add(30 * time.Second))
		r := bufio.NewReader(db)
		if _, err := io.CopyN(io.Discard, r, int64(len(body)+4)); err != nil {
			break
		}
		go func() {
			one := []byte{'S', 0, 0, 0, 4}
			for i := 0; i < c.Num; i++ {
				if _, err := mine.Write(one); err != nil {
					return
				}
			}
		}()
		var b [5]byte
		for got < c.Num {
			if _, err := io.ReadFull(r, b[:]); err != nil || b != [5]byte{'S', 0, 0, 0, 4} {
				break
			}
			got++
		}
	}
	e["got"] = got
	e["alloc"] = over(held()-before, 8<<20)
	return func() m { return e }
}
