package e2e

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type CScript struct {
	Id      int    `json:"id"`
	N       int    `json:"n"`
	Seed    int64  `json:"seed"`
	Stub    bool   `json:"stub"`
	Args    []Line `json:"args"`
	Outcome string `json:"outcome"`
	Files   []struct {
		S string `json:"s"`
		C []Line `json:"c"`
	} `json:"files"`
}

const versionLine = "gevulot version 1.2.3-vv (c0ffee42) built on 2001-02-03T04:05:06"

func runCli(j json.RawMessage, base string) m {
	var s CScript
	must(json.Unmarshal(j, &s))
	w := newWorld(filepath.Join(base, fmt.Sprintf("c%d", s.N)), s.N, s.Seed)
	defer w.close()
	r := w.rng
	cwd := filepath.Join(w.dir, "cwd")
	must(os.MkdirAll(filepath.Join(cwd, "dir with space"), 0o755))
	must(os.WriteFile(filepath.Join(cwd, "plain"), nil, 0o644))
	paths := []string{"gevulot.toml", "conf1.toml", "dir with space/\u00fc=1.toml"}
	for i, f := range s.Files {
		p := filepath.Join(cwd, paths[i])
		switch f.S {
		case "file":
			must(os.WriteFile(p, []byte(strings.Join(w.text(f.C), "")), 0o644))
		case "absent":
		case "dir":
			must(os.Mkdir(p, 0o755))
		case "loop":
			must(os.Symlink(p, p))
		case "dangling":
			must(os.Symlink(filepath.Join(w.dir, "nowhere"), p))
		case "notdir":
			if i > 0 {
				paths[i] = "plain/x.toml"
			}
		case "long":
			if i > 0 {
				paths[i] = strings.Repeat("x", 300)
			}
		}
	}
	var args, last []string
	for _, a := range s.Args {
		switch a.K {
		case "cfg":
			p := paths[a.V]
			if r.Intn(2) == 0 {
				p = filepath.Join(cwd, p)
			}
			switch r.Intn(4) {
			case 0:
				args = append(args, "--config="+p)
			case 1:
				args = append(args, "--config", p)
			case 2:
				args = append(args, "-c", p)
			case 3:
				args = append(args, "-c"+p)
			}
		case "verbose":
			args = append(args, []string{"--verbose", "-v"}[a.V])
		case "help":
			args = append(args, "--help")
		case "version":
			args = append(args, "--version")
		case "bad":
			b := []string{"--bogus", "-x", "start", "--config", "--Verbose", "--configs=x", "-z", "gevulot.toml", "--no-config", "--c", "--config-file=gevulot.toml", "-vx"}[a.V]
			if b == "--config" {
				last = append(last, b)
			} else {
				args = append(args, b)
			}
		}
	}
	args = append(args, last...)
	argv0 := pick(r, "gevulot", "./gevulot")
	note := m{"id": s.Id, "argv": args}
	cause := ""
	seen := func(so, se string) m {
		return m{"help": strings.Contains(so+se, "usage: gevulot") && strings.Contains(so+se, "--config") && strings.Contains(so+se, "--verbose"),
			"version": strings.Contains(so+se, versionLine), "err": strings.TrimSpace(se) != "", "cause": cause != "" && strings.Contains(se, cause)}
	}
	if s.Stub {
		out := filepath.Join(w.dir, "out.json")
		b, err := json.Marshal(m{"Argv0": argv0, "Args": args, "Outcome": s.Outcome, "Out": out})
		must(err)
		p := startEnv(os.Getenv("E2E_STUB"), "stub", []string{"-test.run", "^TestVerifCli$"}, cwd, "CLI_CASE="+string(b))
		select {
		case <-p.done:
		case <-time.After(slow * 2):
			w.rec(m{"e": "Hang"})
		}
		p.kill()
		var res struct {
			Ev             []m
			Stdout, Stderr string
		}
		if b, err = os.ReadFile(out); err != nil {
			so, se := p.text()
			if strings.Contains(se+so, "harness:") {
				panic(se + so)
			}
			w.rec(m{"e": "Died", "text": tail(so+se, 1000)})
		} else {
			must(json.Unmarshal(b, &res))
		}
		oom(res.Stderr)
		for _, e := range res.Ev {
			switch e["e"] {
			case "Run":
				a, d := 0, 0
				for i := 1; i <= busy; i++ {
					if e["listen"] == w.addr(i) {
						a = i
					}
					if u, ok := e["url"].(string); ok && strings.Contains(u, fmt.Sprintf("%s:%d/db", w.ip, 7000+i)) {
						d = i
					}
				}
				e = m{"e": "Run", "p": a, "d": d, "cfg": fmt.Sprint(e["listen"], " ", e["url"])}
			case "Ends":
				cause, _ = e["err"].(string)
			case "Exit":
				e["out"] = seen(res.Stdout, res.Stderr)
			}
			w.rec(e)
		}
		note["stderr"] = tail(res.Stderr, 1500)
	} else {
		p := start(os.Getenv("E2E_BIN"), argv0, args, cwd)
		end := time.Now().Add(slow)
		serves := 0
		for k := 0; serves == 0 && !p.exited(); k++ {
			for q := 1; q <= nports && serves == 0; q++ {
				if x, d := w.open(q); x != nil {
					x.bye()
					serves = q
					w.rec(m{"e": "Run", "p": q, "d": d})
				}
			}
			if time.Now().After(end) {
				w.rec(m{"e": "Hang"})
				failed.Add(1)
				break
			}
			if serves == 0 {
				time.Sleep(time.Duration(min(50, k)) * time.Millisecond)
			}
		}
		for q := 1; q <= nports && serves > 0; q++ {
			if x, d := w.open(q); x != nil {
				x.bye()
				if q != serves {
					w.rec(m{"e": "Run", "p": q, "d": d})
				}
			}
		}
		dead := p.exited()
		p.kill()
		so, se := p.text()
		oom(se)
		if dead {
			w.rec(m{"e": "Exit", "code": p.cmd.ProcessState.ExitCode(), "out": seen(so, se)})
		} else {
			w.rec(m{"e": "Kill"})
		}
		note["stderr"] = tail(se, 1500)
	}
	note["ev"] = w.ev
	return note
}

func oom(se string) {
	if strings.Contains(se, "too many open files") || strings.Contains(se, "no space left on device") || strings.Contains(se, "user limit on") {
		panic("harness: out of watches or files")
	}
}
