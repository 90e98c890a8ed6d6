// Package zzverif is the harness interface. Under the symbolic executor every function
// here is replaced by an intrinsic; natively (replay) inputs come from a vector.
package zzverif

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"sync"
	"syscall"

	"github.com/alexispb/mygosnmp/internal/zzverif/zsync"
)

// Replay state.
var (
	vec      []uint64
	pos      int
	failures []string
	obs      []string
	Race     bool
)

// AssumeFailed is the sentinel of a false assumption.
type AssumeFailed struct{}

// Reset installs an input vector.
func Reset(v []uint64) { vec, pos, failures, obs = v, 0, nil, nil }

// Failures and Observations of the current run.
func Failures() []string     { return failures }
func Observations() []string { return obs }

func next() uint64 {
	if pos >= len(vec) {
		pos++
		return 0
	}
	v := vec[pos]
	pos++
	return v
}

// U8 is an arbitrary byte.
func U8() byte    { return byte(next()) }
func U16() uint16 { return uint16(next()) }
func U32() uint32 { return uint32(next()) }
func U64() uint64 { return next() }
func Bool() bool  { return next() == 1 }

// Choice is an arbitrary number in [0, n), explored case by case.
func Choice(n int) int { return int(next()) }

// Concrete splits into one case per feasible value of v.
func Concrete(v uint64) uint64 { return v }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		failures = append(failures, label)
	}
}

// Cover marks a point that must be reached by some path.
func Cover(label string) {}

func Observe(label string, b []byte) { obs = append(obs, fmt.Sprintf("%s=%x", label, b)) }
func ObserveU(label string, v uint64) {
	obs = append(obs, fmt.Sprintf("%s=%016x", label, v))
}

// And, Or do not fork.
func And(c ...bool) bool {
	r := true
	for _, x := range c {
		r = r && x
	}
	return r
}
func Or(c ...bool) bool {
	r := false
	for _, x := range c {
		r = r || x
	}
	return r
}

// Sure tells that c is true whatever the inputs (it may miss that): for shortcuts only.
func Sure(c bool) bool { return c }

func IteU32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func EqU32s(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func EqStr(a, b string) bool { return a == b }

// Dec is the decimal text of v.
func Dec(v uint64) string { return strconv.FormatUint(v, 10) }

// OpaqueFormatting stubs number formatting of symbolic values (log texts only).
func OpaqueFormatting(on bool) {}

// Symbolic tells whether the symbolic executor is running.
func Symbolic() bool { return false }

// AllocBytes is the number of heap bytes requested so far.
func AllocBytes() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// Steps is the work done so far: SSA instructions in the symbolic run (copying and
// comparing eight bytes counts as one), three nanoseconds of processor time natively.
func Steps() uint64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return uint64(u.Utime.Nano()+u.Stime.Nano()) / 3
}

// Scaled is n, natively 128 n: what exceeds a linear bound at n takes far too long at 128 n.
func Scaled(n int) int { return 128 * n }

// Thorough selects the larger bounds.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Share declares memory reachable from root as shared between goroutines.
func Share(root interface{}) {}

// Parallel runs the operations concurrently (symbolically: one after another, with
// lock sets recorded for every access to shared memory or package variables).
func Parallel(label string, ops ...func()) {
	if !Race {
		for _, f := range ops {
			f()
		}
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range ops {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() { recover() }()
			<-start
			f()
		}(f)
	}
	close(start)
	wg.Wait()
}

// ---- helpers that are ordinary code in both modes

// Bytes are n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8()
	}
	return b
}

// Str is an arbitrary string of n bytes.
func Str(n int) string { return string(Bytes(n)) }

// U32s are n arbitrary words.
func U32s(n int) []uint32 {
	b := make([]uint32, n)
	for i := range b {
		b[i] = U32()
	}
	return b
}

// Pick chooses one of the given numbers.
func Pick(ns ...int) int { return ns[Choice(len(ns))] }

// Range chooses lo..hi.
func Range(lo, hi int) int { return lo + Choice(hi-lo+1) }

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	p = true
	defer func() {
		if p {
			r := recover()
			if a, ok := r.(AssumeFailed); ok {
				panic(a)
			}
		}
	}()
	f()
	p = false
	return
}

// Interleave runs the operations as goroutines: each of them may be interrupted where it has
// just released its last lock (or fails to get one at once), before an atomic operation and
// between one and the next lock, by the next ones, which then run to their ends; what has not
// run by then runs afterwards.
func Interleave(ops ...func()) {
	run := func() {
		f := ops[0]
		ops = ops[1:]
		f()
	}
	zsync.Reset(func() {
		for len(ops) > 0 && next() == 1 {
			run()
		}
	}, func() bool {
		if len(ops) == 0 || next() == 0 {
			return false
		}
		run()
		return true
	})
	defer zsync.Reset(nil, nil)
	for len(ops) > 0 {
		run()
	}
}

// Queued runs f while a writer is about to wait for every lock: one that is held for reading
// cannot be had for reading again.
func Queued(f func()) {
	zsync.Waiting = true
	defer func() { zsync.Waiting = false }()
	f()
}

// Exits runs f as a goroutine of its own and tells whether it ended by runtime.Goexit.
func Exits(f func()) bool {
	exited, done := true, make(chan struct{})
	go func() {
		defer close(done)
		f()
		exited = false
	}()
	<-done
	return exited
}

// Stdout is what f writes to standard output.
func Stdout(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	syscall.Dup3(int(w.Fd()), 1, 0)
	w.Close()
	out := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		out <- string(b)
	}()
	func() {
		defer func() {
			syscall.Dup3(old, 1, 0)
			syscall.Close(old)
		}()
		f()
	}()
	return <-out
}
