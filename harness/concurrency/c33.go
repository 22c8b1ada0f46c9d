package concurrency

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c33task struct {
	id   int
	runs int
	err  error
	set  bool
	out  uint32
	in   uint32
	done chan *c33task
}

func (t *c33task) Process() error {
	t.runs++
	t.out = t.in*7 + 3
	if t.in&1 == 1 {
		return c12err{t.id}
	}
	return nil
}
func (t *c33task) SetError(e error) { t.err, t.set = e, true }
func (t *c33task) GetError() error  { return t.err }
func (t *c33task) Done()            { t.done <- t }

// VH_C33_Pool: up to 3 tasks with arbitrary inputs in a pool of 1 or 2 (3) workers, under schedules with up to 3 (4) deviations
// from round-robin: each is run once, its error is its own, and it is done last.
func VH_C33_Pool() {
	vf.Schedules(vf.Tier(3, 4))
	pool := NewWorkerPool(vf.Pick("workers", 1, vf.Tier(2, 3)))
	n := vf.Pick("n", 0, 3)
	done := make(chan *c33task)
	var in []uint32
	for i := 0; i < n; i++ {
		in = append(in, vf.U32("in"))
	}
	go func() {
		for i := 0; i < n; i++ {
			pool.InChan <- &c33task{id: i, in: in[i], done: done}
		}
		close(pool.InChan)
	}()
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		t := <-done
		vf.Assert(!seen[t.id], "a task is done once")
		seen[t.id] = true
		vf.Assert(t.runs == 1 && t.set, "a task is processed once and its error recorded before it is done")
		vf.Assert(t.out == in[t.id]*7+3, "a task keeps its result")
		vf.Assert((t.GetError() != nil) == (in[t.id]&1 == 1), "a task reports its error")
		vf.Assert(t.err == nil || t.err == c12err{t.id}, "a task reports its own error")
	}
}
