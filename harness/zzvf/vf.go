// Package vf is the harness interface. The symbolic executor replaces these functions; compiled natively they
// read the inputs of a counterexample or witness so that the same harness replays it against the real code.
package vf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"sync/atomic"
	"syscall"
	"time"
)

type assumeFailed struct{}
type AssertFailed struct{ Msg string }

var values map[string]uint64
var counts map[string]int
var Obs []string
var Failed []string
var tmp string
var tmpN int

// Load prepares a replay (native only).
func Load(js []byte, tmpDir string) error {
	values = map[string]uint64{}
	counts = map[string]int{}
	Obs, Failed = nil, nil
	tmp = tmpDir
	fmt.Sscanf(os.Getenv("VF_YIELD"), "%d,%d", &yieldSeed, &yieldOneIn)
	return json.Unmarshal(js, &values)
}

// Run runs one harness natively: "ok", "assume", or a failure.
func Run(f func()) (res string) {
	defer func() {
		if limited {
			FileLimit(-1)
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case assumeFailed:
				res = "assume"
			case AssertFailed:
				res = "assert: " + e.Msg
			default:
				res = fmt.Sprintf("panic: %v", r)
			}
		}
	}()
	f()
	if len(Failed) > 0 {
		return "assert: " + Failed[0]
	}
	return "ok"
}

func val(name string) uint64 {
	k := counts[name]
	counts[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return values[name]
}

func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func I64(name string) int64  { return int64(val(name)) }
func Int(name string) int    { return int(val(name)) }
func Bool(name string) bool  { return val(name)&1 == 1 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(name))
	}
	return b
}
func Hash(name string) [32]byte {
	var h [32]byte
	for i := range h {
		h[i] = byte(val(name))
	}
	return h
}

// Pick forks over every value of [lo,hi]; the result is concrete.
func Pick(name string, lo, hi int) int { v := int(val(name)); check(v >= lo && v <= hi); return v }

// IntIn is a symbolic value of [lo,hi].
func IntIn(name string, lo, hi int) int { v := int(val(name)); check(v >= lo && v <= hi); return v }

// Conc enumerates the feasible values of v.
func Conc(v uint64) uint64 { return v }

func check(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}
func Assume(b bool) { check(b) }
func Assert(b bool, msg string) {
	if !b {
		Failed = append(Failed, msg)
		panic(AssertFailed{msg})
	}
}
func Fail(msg string)                 { Assert(false, msg) }
func Reach(label string)              {}
func ObserveU(label string, v uint64) { Obs = append(Obs, fmt.Sprintf("%s=%d", label, v)) }
func ObserveB(label string, b []byte) {
	s := ""
	for i, x := range b {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(x)
	}
	Obs = append(Obs, label+"="+s)
}

// TempDir returns a fresh, existing, empty directory.
func TempDir() string {
	tmpN++
	d := fmt.Sprintf("%s/t%d", tmp, tmpN)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// FileLimit makes every attempt fail to write any file beyond its n-th byte, as when the disk is full; -1 lifts the limit.
func FileLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	limited = n >= 0
}

var limited bool

// Full runs f while no file can grow beyond its n-th byte; it tells whether f reported that, by an error or a panic.
func Full(n int, f func() error) bool {
	var err error
	FileLimit(n)
	p := Panics(func() { err = f() })
	FileLimit(-1)
	return p || err != nil
}

// Files lists the files (not folders) under a directory by their paths relative to it, sorted.
func Files(dir string) (l []string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			l = append(l, filepath.ToSlash(p[len(dir)+1:]))
		}
		return nil
	})
	sort.Strings(l)
	return
}
func EqB(a, b []byte) bool { return bytes.Equal(a, b) }
func LtB(a, b []byte) bool { return bytes.Compare(a, b) < 0 }
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteU(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Schedules makes the executor explore goroutine schedules with up to n preemptions.
func Schedules(n int) {}

// MapOrders makes the executor explore iteration orders of small maps.
func MapOrders() {}

// Symbolic reports whether the executor is running.
func Symbolic() bool { return false }

// Panics runs f and reports whether it panicked (assertion and assumption outcomes pass through).
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assumeFailed, AssertFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// NoErr asserts that err is nil.
func NoErr(err error, msg string) { Assert(err == nil, msg) }

var thorough bool

func SetThorough(b bool) { thorough = b }

// Tier returns q in the quick tier and t in the thorough tier.
func Tier(q, t int) int {
	if thorough {
		return t
	}
	return q
}

var yieldSeed, yieldOneIn uint64

// Yield is inserted between statements of packages that start goroutines when a counterexample that depends on the
// schedule is replayed natively; it gives up the processor at random.
func Yield() {
	if yieldOneIn == 0 {
		return
	}
	x := atomic.AddUint64(&yieldSeed, 0x9E3779B97F4A7C15)
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	if x%yieldOneIn == 0 {
		if x>>40%4 == 0 {
			time.Sleep(50 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}
