package sim

import (
	"math/rand"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

func init() { runners["event"] = runEvent }

func runEvent(r *Rec, j *Job, rng *rand.Rand) {
	e := server.NewEvent()
	stop := make(chan struct{})
	thr := map[int]*opq{}
	gap := []int{0, 0, 1, 30}[rng.Intn(4)]
	for _, op := range j.Ops {
		op := op
		if op.Op == "q" {
			settle()
			r.Emit("Quiesce")
			continue
		}
		q := thr[op.S]
		if q == nil {
			q = newOpq()
			thr[op.S] = q
			go q.run()
		}
		q.add(func() {
			r.Emit("Call", "t", op.S, "op", op.Op)
			v := false
			switch op.Op {
			case "fire":
				v = e.Fire()
			case "has":
				v = e.HasFired()
			case "done":
				select {
				case <-e.Done():
					v = true
				default:
				}
			case "wait":
				select {
				case <-e.Done():
					v = true
				case <-stop:
					return
				}
			}
			r.Emit("Ret", "t", op.S, "op", op.Op, "r", v)
		})
		if gap > 0 {
			time.Sleep(time.Duration(rng.Intn(gap)))
		}
	}
	settle()
	r.Emit("Quiesce")
	r.Stop()
	close(stop)
	for _, q := range thr {
		q.end()
	}
}
