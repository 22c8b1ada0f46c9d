package memblocker

import (
	"runtime"
	"sync"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// The heap has any size between 64 KiB and 1 TiB here, so a limit below 64 KiB is always exceeded and one above 1 TiB
// never; freeing memory is played by raising the limit inside the section that frees memory.

func c33low() uint64 {
	m := vf.U64("low")
	vf.Assume(m <= 1<<16)
	return m
}

func c33high() uint64 {
	m := vf.U64("high")
	vf.Assume(m >= 1<<40)
	return m
}

// VH_C33_Open: with memory to spare nobody is held up, and the answer says so; without it does not.
func VH_C33_Open() {
	mb := NewMemBlocker(c33high())
	vf.Assert(mb.IsThereFreeMemory(), "there is free memory below the limit")
	mb.WaitForSpareMemory()
	mb.StartFreeingMem()
	mb.MemoryWasFreed()
	mb.WaitForSpareMemory()
	vf.Assert(!NewMemBlocker(c33low()).IsThereFreeMemory(), "there is no free memory above the limit")
}

// VH_C33_Gate: 1 or 2 (3) callers wait while memory is short and all get through once it has been freed, under
// schedules with up to 3 (4) deviations from round-robin.
func VH_C33_Gate() {
	vf.Schedules(vf.Tier(3, 4))
	mb := NewMemBlocker(c33low())
	n := vf.Pick("callers", 1, vf.Tier(2, 3))
	var mu sync.Mutex
	freed := false
	done := make(chan bool)
	for i := 0; i < n; i++ {
		go func() {
			mb.WaitForSpareMemory()
			mu.Lock()
			ok := freed
			mu.Unlock()
			done <- ok
		}()
	}
	if vf.Symbolic() {
		runtime.Gosched()
	} else {
		for i := 0; i < 3000; i++ {
			runtime.Gosched()
		}
	}
	// A first round frees too little
	mb.StartFreeingMem()
	mb.MemoryWasFreed()
	if !vf.Symbolic() {
		for i := 0; i < 3000; i++ {
			runtime.Gosched()
		}
	}
	mb.StartFreeingMem()
	mu.Lock()
	freed = true
	mu.Unlock()
	mb.maxBytes = c33high()
	mb.MemoryWasFreed()
	for i := 0; i < n; i++ {
		vf.Assert(<-done, "a caller gets through only when memory is to spare")
	}
}
