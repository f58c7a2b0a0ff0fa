package e2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type RScript struct {
	Id   int    `json:"id"`
	N    int    `json:"n"`
	Seed int64  `json:"seed"`
	C0   []Line `json:"c0"`
	Path string `json:"path"`
	Link string `json:"link"`
	Ops  []ROp  `json:"ops"`
}

type ROp struct {
	Op   string `json:"op"`
	Way  string `json:"way"`
	C    []Line `json:"c"`
	Gap  int    `json:"gap"`
	Cut  int    `json:"cut"`
	N    int    `json:"n"`
	S    int    `json:"s"`
	P    int    `json:"p"`
	K    int    `json:"k"`
	Big  bool   `json:"big"`
	Want struct {
		Ok bool `json:"ok"`
		P  int  `json:"p"`
		D  int  `json:"d"`
	} `json:"want"`
}

// proc is the running program.
type proc struct {
	cmd    *exec.Cmd
	mu     sync.Mutex
	out    bytes.Buffer
	err    bytes.Buffer
	done   chan struct{}
	killed bool
}

type lockedBuf struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (l lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func start(bin, argv0 string, args []string, cwd string) *proc {
	return startEnv(bin, argv0, args, cwd)
}

func startEnv(bin, argv0 string, args []string, cwd string, env ...string) *proc {
	p := &proc{done: make(chan struct{})}
	p.cmd = &exec.Cmd{Path: bin, Args: append([]string{argv0}, args...), Dir: cwd, Env: []string{"PATH=/usr/bin:/bin", "HOME=" + cwd, "GOTRACEBACK=all"},
		SysProcAttr: &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}}
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Stdout, p.cmd.Stderr = lockedBuf{&p.mu, &p.out}, lockedBuf{&p.mu, &p.err}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Signal(syscall.SIGCONT)
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) text() (string, string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String(), p.err.String()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runReload(j json.RawMessage, base string) m {
	var s RScript
	must(json.Unmarshal(j, &s))
	w := newWorld(filepath.Join(base, fmt.Sprintf("r%d", s.N)), s.N, s.Seed)
	defer w.close()
	etc, aside := filepath.Join(w.dir, "etc"), filepath.Join(w.dir, "aside")
	must(os.Mkdir(etc, 0o755))
	must(os.Mkdir(aside, 0o755))
	path := filepath.Join(etc, "gevulot.toml")
	switch s.Link {
	case "file":
		must(os.Symlink(filepath.Join(aside, "real.toml"), path))
	case "chain":
		must(os.Mkdir(filepath.Join(etc, "..0"), 0o755))
		must(os.Symlink("..0", filepath.Join(etc, "..data")))
		must(os.Symlink(filepath.Join("..data", "gevulot.toml"), path))
	}
	must(os.WriteFile(path, []byte(strings.Join(w.text(s.C0), "")), 0o644))

	var args []string
	cwd, argv0 := w.dir, "gevulot"
	switch s.Path {
	case "abs":
		args = []string{"--config=" + path}
	case "rel":
		args, cwd = []string{"-c", "gevulot.toml"}, etc
	case "dot":
		args = []string{"--config", "./aside/..//etc/./gevulot.toml"}
	case "default":
		cwd = etc
		if w.rng.Intn(2) == 0 {
			argv0 = "./gevulot"
		}
	}
	p := start(os.Getenv("E2E_BIN"), argv0, args, cwd)
	ses := map[int]*session{}
	dead, late := false, false
	check := func() {
		if !dead && p.exited() {
			dead = true
			_, e := p.text()
			w.rec(m{"e": "Exit", "code": p.cmd.ProcessState.ExitCode(), "text": tail(e, 600)})
		}
	}
	open := func(id, port int) (*session, int) {
		w.rec(m{"e": "OpenCall", "s": id, "p": port})
		x, d := w.open(port)
		if d < 0 {
			w.rec(m{"e": "Hang", "p": port})
		} else {
			w.rec(m{"e": "OpenRet", "s": id, "d": d})
		}
		return x, d
	}
	look := func() {
		for port := 1; port <= nports; port++ {
			w.n++
			x, _ := open(100+w.n, port)
			if x != nil {
				if w.rng.Intn(3) == 0 {
					w.rec(m{"e": "Echo", "s": 100 + w.n, "d": x.echo("look")})
				}
				x.bye()
				w.rec(m{"e": "Bye", "s": 100 + w.n})
			}
		}
	}
	// settled waits until the program does what is wanted.
	settled := func(port, d int, others bool) {
		end, fine := time.Now().Add(slow), false
		for k := 0; time.Now().Before(end) && !p.exited(); k++ {
			good, any := true, false
			for q := 1; q <= nports; q++ {
				x, g := w.open(q)
				if x != nil {
					x.bye()
				}
				if g == d {
					any = true
				}
				if port != busy && (g == d) != (q == port) || g != 0 && g != d {
					good = false
				}
			}
			if fine = good && any; fine {
				break
			}
			time.Sleep(time.Duration(min(50, 1+k*2)) * time.Millisecond)
		}
		// it may have been so all the time, with other contents still on their way
		if others || port == busy {
			time.Sleep(60 * time.Millisecond)
		}
		w.rec(m{"e": "Deadline"})
		if !fine {
			late = true
			failed.Add(1)
		}
	}
	c := s.C0
	cfg := func() (int, int) {
		a, b := 0, 0
		for _, l := range c {
			if l.K == "table" {
				break
			}
			if l.K == "listen" {
				a = l.V
			}
			if l.K == "db" {
				b = l.V
			}
		}
		return a, b
	}
	a, b := cfg()
	settled(a, b, false)
	look()

	pause := func(n int) {
		if n > 0 {
			time.Sleep(time.Duration(n) * time.Millisecond)
		}
	}
	saves := 0
	for i, o := range s.Ops {
		if check(); dead || late {
			break
		}
		switch o.Op {
		case "Save":
			saves++
			w.save(path, aside, o, pause)
		case "Remove":
			w.rec(m{"e": "Remove"})
			os.Remove(path)
		case "Settle":
			if o.Want.Ok {
				settled(o.Want.P, o.Want.D, saves > 1)
				saves = 0
			} else {
				pause(40 + w.rng.Intn(80))
			}
			look()
		case "Open":
			x, d := open(o.S, o.P)
			if x != nil && d > 0 {
				ses[o.S] = x
			}
		case "Echo":
			for id, x := range ses {
				w.rec(m{"e": "Echo", "s": id, "d": x.echo(fmt.Sprintf("e%d", i))})
			}
		case "Bye":
			if x := ses[o.S]; x != nil {
				x.bye()
				delete(ses, o.S)
				w.rec(m{"e": "Bye", "s": o.S})
			}
		case "Pause":
			pause(o.N)
		case "Noise":
			w.noise(etc, path, i, o)
		case "Stop":
			must(p.cmd.Process.Signal(syscall.SIGSTOP))
			pause(2)
		case "Cont":
			must(p.cmd.Process.Signal(syscall.SIGCONT))
		default:
			panic("harness: op " + o.Op)
		}
	}
	check()
	for id, x := range ses {
		if !dead && !late {
			w.rec(m{"e": "Echo", "s": id, "d": x.echo("last")})
		}
		x.c.Close()
	}
	check()
	p.kill()
	so, se := p.text()
	oom(se + so)
	return m{"id": s.Id, "ev": w.ev, "log": tail(so, 3000)}
}

// save writes the content to the file in the given way; what the file contains for a while on the way is recorded too.
func (w *world) save(path, aside string, o ROp, pause func(int)) {
	t := w.text(o.C)
	all := strings.Join(t, "")
	lines := o.C
	if lines == nil {
		lines = []Line{}
	}
	saved := m{"e": "Save", "c": lines}
	write := func(flag int, parts ...string) {
		f, err := os.OpenFile(path, flag, 0o644)
		must(err)
		pause(o.Gap)
		for _, x := range parts {
			_, err = f.WriteString(x)
			must(err)
		}
		must(f.Close())
	}
	temp := func(dir string) string {
		n := filepath.Join(dir, fmt.Sprintf(".tmp%d", w.rng.Int31()))
		must(os.WriteFile(n, []byte(all), 0o644))
		return n
	}
	switch o.Way {
	case "write":
		w.rec(saved)
		must(os.WriteFile(path, []byte(all), 0o644))
	case "trunc":
		w.rec(saved)
		write(os.O_WRONLY|os.O_CREATE|os.O_TRUNC, all)
	case "pieces":
		k := min(o.Cut, len(t))
		first, last := t[:k], t[k:]
		w.rec(m{"e": "Save", "c": lines[:k]})
		must(os.WriteFile(path, []byte(strings.Join(first, "")), 0o644))
		pause(o.Gap)
		w.rec(saved)
		write(os.O_WRONLY|os.O_APPEND, strings.Join(last, ""))
	case "inplace":
		f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
		must(err)
		st, err := f.Stat()
		must(err)
		if int(st.Size()) > len(all) {
			if all != "" && !strings.HasSuffix(all, "\n") {
				all += "\n"
			}
			all += "#" + strings.Repeat(" ", max(0, int(st.Size())-len(all)))
		}
		w.rec(saved)
		_, err = f.WriteAt([]byte(all), 0)
		must(err)
		must(f.Close())
	case "rename", "renamex":
		n := temp(map[string]string{"rename": filepath.Dir(path), "renamex": aside}[o.Way])
		pause(o.Gap)
		w.rec(saved)
		must(os.Rename(n, path))
	case "swap":
		n := temp(filepath.Dir(path))
		w.rec(m{"e": "Remove"})
		err := os.Rename(path, path+"~")
		if err != nil && !os.IsNotExist(err) {
			must(err)
		}
		pause(o.Gap)
		w.rec(saved)
		must(os.Rename(n, path))
	case "recreate":
		w.rec(m{"e": "Remove"})
		os.Remove(path)
		pause(o.Gap)
		w.rec(saved)
		write(os.O_WRONLY|os.O_CREATE|os.O_EXCL, all)
	case "relink", "relinkx":
		n := temp(aside)
		if o.Way == "relink" {
			l := filepath.Join(filepath.Dir(path), fmt.Sprintf(".ln%d", w.rng.Int31()))
			must(os.Symlink(n, l))
			pause(o.Gap)
			w.rec(saved)
			must(os.Rename(l, path))
			break
		}
		w.rec(m{"e": "Remove"})
		must(os.Remove(path))
		pause(o.Gap)
		w.rec(saved)
		must(os.Symlink(n, path))
	case "target":
		real, err := filepath.EvalSymlinks(path)
		must(err)
		n := temp(aside)
		pause(o.Gap)
		w.rec(saved)
		must(os.Rename(n, real))
	case "kube":
		// as Kubernetes updates the files of a volume
		data := filepath.Join(filepath.Dir(path), "..data")
		old, err := os.Readlink(data)
		must(err)
		dir := fmt.Sprintf("..%d", w.rng.Int31())
		must(os.Mkdir(filepath.Join(filepath.Dir(path), dir), 0o755))
		must(os.WriteFile(filepath.Join(filepath.Dir(path), dir, "gevulot.toml"), []byte(all), 0o644))
		must(os.Symlink(dir, data+"_tmp"))
		w.rec(saved)
		must(os.Rename(data+"_tmp", data))
		pause(o.Gap)
		must(os.RemoveAll(filepath.Join(filepath.Dir(path), old)))
	default:
		panic("harness: way " + o.Way)
	}
}

// noise: what happens to other files beside it means nothing.
func (w *world) noise(etc, path string, i int, o ROp) {
	if o.Big {
		// more events than fit into the queue of the stopped program
		a, err := os.OpenFile(filepath.Join(etc, "a.log"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		must(err)
		b, err := os.OpenFile(filepath.Join(etc, "b.log"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		must(err)
		for k := 0; k < 9000; k++ {
			a.WriteString("x")
			b.WriteString("x")
		}
		a.Close()
		b.Close()
		return
	}
	text := fmt.Sprintf("listen = \"%s\"\ndatabase-url = \"%s\"\n", w.addr(1+w.rng.Intn(nports)), w.url(1+w.rng.Intn(ndbs)))
	put := func(n string) { must(os.WriteFile(filepath.Join(etc, n), []byte(text), 0o644)) }
	switch o.K {
	case 0:
		put("gevulot.toml.bak")
	case 1:
		put("xgevulot.toml")
	case 2:
		os.Mkdir(filepath.Join(etc, "sub"), 0o755)
		put("sub/gevulot.toml")
	case 3:
		os.Chmod(path, 0o600)
	case 4:
		os.Chtimes(path, time.Now(), time.Now())
	case 5:
		put("other.toml")
		os.Rename(filepath.Join(etc, "other.toml"), filepath.Join(etc, "gevulot.tml"))
		os.Remove(filepath.Join(etc, "gevulot.tml"))
	case 6:
		put("GEVULOT.TOML")
	}
}
