package cli

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// TestVerifCli runs one command line with a server that only notes what it is given.
func TestVerifCli(t *testing.T) {
	in := os.Getenv("CLI_CASE")
	if in == "" {
		t.Skip()
	}
	var c struct {
		Argv0   string
		Args    []string
		Outcome string
		Out     string
	}
	if err := json.Unmarshal([]byte(in), &c); err != nil {
		panic("harness: " + err.Error())
	}
	os.Args[0] = c.Argv0
	var ev []map[string]interface{}
	var so, se bytes.Buffer
	func() {
		defer func() {
			if e := recover(); e != nil {
				ev = append(ev, map[string]interface{}{"e": "Panic", "text": fmt.Sprint(e)})
			}
		}()
		x := &cli{stdout: &so, stderr: &se, runServer: func(ch <-chan *server.Config) error {
			r := map[string]interface{}{"e": "Run"}
			select {
			case cfg := <-ch:
				if cfg != nil {
					r["listen"], r["url"] = cfg.Listen, cfg.DatabaseURL
				}
			case <-time.After(20 * time.Second):
			}
			ev = append(ev, r)
			// there is nothing more to come
			select {
			case cfg := <-ch:
				ev = append(ev, map[string]interface{}{"e": "More", "text": fmt.Sprint(cfg)})
			default:
			}
			var err error
			switch c.Outcome {
			case "":
			case "server closed":
				err = server.ErrServerClosed
			case "server started":
				err = server.ErrServerAlreadyStarted
			case "store closed":
				err = server.ErrConfigDistributorClosed
			case "session closed":
				err = server.ErrSessionClosed
			case "wrapped":
				err = fmt.Errorf("cannot go on: %w", server.ErrServerClosed)
			case "end":
				err = io.EOF
			default:
				err = errors.New(c.Outcome)
			}
			r = map[string]interface{}{"e": "Ends", "err": ""}
			if err != nil {
				r["err"] = err.Error()
			}
			ev = append(ev, r)
			return err
		}}
		code := x.Run(c.Args)
		ev = append(ev, map[string]interface{}{"e": "Exit", "code": code})
	}()
	b, err := json.Marshal(map[string]interface{}{"ev": ev, "stdout": so.String(), "stderr": se.String()})
	if err == nil {
		err = os.WriteFile(c.Out, b, 0o644)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}
