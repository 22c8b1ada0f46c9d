package concurrency

import (
	"runtime"
	"sync"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c12item struct {
	seq int64
	id  int
}

func (i *c12item) SequenceNumber() int64 { return i.seq }

// c12items makes n items whose sequence numbers are the n numbers from first on in some order, which is not fixed.
func c12items(n int, first int64) []*c12item {
	var r []*c12item
	for i := 0; i < n; i++ {
		d := int64(vf.IntIn("place", 0, n-1))
		for _, x := range r {
			vf.Assume(x.seq != first+d)
		}
		r = append(r, &c12item{first + d, i})
	}
	return r
}

func c12drain(out chan *c12item, items []*c12item, first int64) {
	seen := map[*c12item]bool{}
	for i := range items {
		x, ok := <-out
		vf.Assert(ok, "nothing is lost")
		vf.Assert(x.seq == first+int64(i), "items come out in the order of their sequence numbers")
		vf.Assert(!seen[x], "no item comes out twice")
		seen[x] = true
	}
	_, ok := <-out
	vf.Assert(!ok, "the output ends after the last item")
}

// VH_C12_Order: up to 5 (6) items with consecutive sequence numbers from an arbitrary first one, arriving in every
// order, with every bound on waiting items up to 6.
//
//vf:enum=3000
func VH_C12_Order() {
	n := vf.Pick("n", 0, vf.Tier(5, 6))
	first := vf.I64("first")
	vf.Assume(vf.And(first > -1<<60, first < 1<<60))
	items := c12items(n, first)
	out := make(chan *c12item, vf.Pick("buf", 0, 1))
	sc := NewSequencerContainer[*c12item](first, vf.Pick("bloat", 0, 6), out)
	go func() {
		for _, x := range items {
			sc.InChan <- x
		}
		close(sc.InChan)
	}()
	c12drain(out, items, first)
	sc.WaitForNotBloated()
}

// VH_C12_Gate: with as many items waiting as the bound (1 to 3, for every first sequence number) the gate is shut, and
// it opens again when the missing item comes, under schedules with up to 3 deviations from round-robin.
func VH_C12_Gate() {
	vf.Schedules(3)
	b := vf.Pick("bloat", 1, 3)
	first := vf.I64("first")
	vf.Assume(vf.And(first > -1<<60, first < 1<<60))
	out := make(chan *c12item)
	sc := NewSequencerContainer[*c12item](first, b, out)
	sc.WaitForNotBloated() // open at first
	var items []*c12item
	for i := 0; i <= b+1; i++ {
		items = append(items, &c12item{first + int64(i), i})
	}
	for i := b + 1; i > 0; i-- { // the last send is taken only when the one before has been dealt with
		sc.InChan <- items[i]
	}
	var mu sync.Mutex
	passed := false
	done := make(chan bool)
	go func() {
		sc.WaitForNotBloated()
		mu.Lock()
		passed = true
		mu.Unlock()
		done <- true
	}()
	if vf.Symbolic() {
		runtime.Gosched()
	} else {
		for i := 0; i < 3000; i++ {
			runtime.Gosched()
		}
	}
	mu.Lock()
	p := passed
	mu.Unlock()
	vf.Assert(!p, "no more are admitted while as many items wait as the bound")
	go func() {
		sc.InChan <- items[0]
		close(sc.InChan)
	}()
	c12drain(out, items, first)
	<-done
}

// VH_C12_Below: below the bound the gate is open.
func VH_C12_Below() {
	b := vf.Pick("bloat", 2, 5)
	first := vf.I64("first")
	vf.Assume(vf.And(first > -1<<60, first < 1<<60))
	out := make(chan *c12item)
	sc := NewSequencerContainer[*c12item](first, b, out)
	var items []*c12item
	for i := 0; i < b; i++ {
		items = append(items, &c12item{first + int64(i), i})
	}
	for i := b - 1; i > 0; i-- {
		sc.WaitForNotBloated()
		sc.InChan <- items[i]
	}
	sc.WaitForNotBloated()
	go func() {
		sc.InChan <- items[0]
		close(sc.InChan)
	}()
	c12drain(out, items, first)
}

type c12task struct {
	c12item
	sc    *SequencerContainer[*c12task]
	wg    *sync.WaitGroup
	runs  int
	err   error
	isSet bool
}

type c12err struct{ n int }

func (c12err) Error() string { return "e" }

func (t *c12task) Process() error {
	t.runs++
	return c12err{t.id}
}
func (t *c12task) SetError(e error) { t.err, t.isSet = e, true }
func (t *c12task) GetError() error  { return t.err }
func (t *c12task) Done() {
	vf.Assert(t.isSet && t.runs == 1, "a task is done after it was processed once and its error recorded")
	t.sc.InChan <- t
	t.wg.Done()
}

// VH_C12_Pipeline: the gate, a pool of 2 (3) workers, and the sequencer in a row, as the jobs use them: 4 (5) tasks
// and a bound of 1 or 2 under schedules with up to 3 (4) deviations from round-robin.
func VH_C12_Pipeline() {
	vf.Schedules(vf.Tier(3, 4))
	out := make(chan *c12task)
	sc := NewSequencerContainer[*c12task](7, vf.Pick("bloat", 1, 2), out)
	pool := NewWorkerPool(vf.Tier(2, 3))
	n := vf.Tier(4, 5)
	wg := &sync.WaitGroup{}
	wg.Add(n)
	go func() {
		for i := 0; i < n; i++ {
			sc.WaitForNotBloated()
			pool.InChan <- &c12task{c12item: c12item{7 + int64(i), i}, sc: sc, wg: wg}
		}
		wg.Wait()
		close(pool.InChan)
		close(sc.InChan)
	}()
	for i := 0; i < n; i++ {
		x, ok := <-out
		vf.Assert(ok && x.id == i, "tasks come out of the pipeline in the order in which they were submitted")
		vf.Assert(x.GetError() == c12err{i}, "a task carries its own error")
	}
	_, ok := <-out
	vf.Assert(!ok, "the output ends after the last task")
}
