// Package rec records histories of API-level events and runs scenarios inside synctest bubbles.
//
// Output format (one file per process, line oriented, unbuffered so that a crash loses nothing):
//
//	S <index> <json header>     scenario begins
//	E <json event>              one event
//	X <index>                   scenario ends
package rec

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/vsched"
)

// Ev is one event.
type Ev map[string]any

// T is the recorder of one scenario.
type T struct {
	mu      sync.Mutex
	out     *os.File
	Rng     *rand.Rand
	Header  Ev
	pending map[int]string
	nextOp  int
	Index   int
	closed  bool
}

// Log appends an event.
func (t *T) Log(e Ev) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.closed {
		return
	}
	t.log(e)
}

func (t *T) log(e Ev) {
	if t.out == nil {
		return
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	t.out.Write(append(append([]byte("E "), b...), '\n'))
}

// Call logs the call of an operation, runs it, and logs its return with the fields f returns. A panic of f becomes a
// return event with field "panic".
func (t *T) Call(name string, args Ev, f func() Ev) (res Ev) {
	t.mu.Lock()
	t.nextOp++
	op := t.nextOp
	t.pending[op] = name
	ev := Ev{"e": name + "Call", "o": op}
	for k, v := range args {
		ev[k] = v
	}
	if !t.closed {
		t.log(ev)
	}
	t.mu.Unlock()
	defer func() {
		r := recover()
		var msg, stack string
		if r != nil {
			stack = string(debug.Stack())
			msg = fmt.Sprint(r) // may run instrumented code: not under the lock
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		delete(t.pending, op)
		ret := Ev{"e": name + "Ret", "o": op}
		for k, v := range args {
			ret[k] = v
		}
		if r != nil {
			ret = Ev{"e": name + "Panic", "o": op, "msg": msg, "stack": stack}
			for k, v := range args {
				ret[k] = v
			}
			res = Ev{"panic": msg}
		} else {
			for k, v := range res {
				ret[k] = v
			}
		}
		if !t.closed {
			t.log(ret)
		}
	}()
	return f()
}

// Quiesce lets virtual time pass until everything that can happen has happened, then logs that.
func (t *T) Quiesce() {
	time.Sleep(time.Second)
	synctest.Wait()
	t.Log(Ev{"e": "Quiesce"})
}

// Pending tells whether operations are still running.
func (t *T) Pending() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.pending) > 0
}

// N returns a random number below n.
func (t *T) N(n int) int { return t.Rng.IntN(n) }

// P is true with probability pct/100.
func (t *T) P(pct int) bool { return t.Rng.IntN(100) < pct }

// Env reads an integer environment variable.
func Env(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}

// Drive runs the scenarios VDRV_FROM..VDRV_TO-1. Each is run by f inside a synctest bubble with the seeded
// scheduler on. f must have joined or abandoned every goroutine it started when it returns; if operations are still
// pending then, the process exits with status 77 and is restarted by the orchestrator at the next index.
func Drive(t *testing.T, f func(t *T)) { drive(t, f, true) }

// DrivePlain is Drive in real time, without a bubble or the scheduler.
func DrivePlain(t *testing.T, f func(t *T)) { drive(t, f, false) }

// DrivePure is DrivePlain for functions that keep no state: while the recorded scenarios run, another goroutine runs
// unrecorded ones, so that shared scratch memory in the code under test shows in the records.
func DrivePure(t *testing.T, f func(t *T)) {
	if os.Getenv("VDRV_OUT") != "" {
		seed := uint64(Env("VDRV_SEED", 1))
		var stop atomic.Bool
		ended := make(chan struct{})
		go func() {
			defer close(ended)
			for i := uint64(Env("VDRV_FROM", 0)); !stop.Load(); i++ {
				f(&T{Index: 1 << 30, Rng: rand.New(rand.NewPCG(seed+99, i)), pending: map[int]string{}})
			}
		}()
		defer func() {
			stop.Store(true)
			select {
			case <-ended:
			case <-time.After(20 * time.Second):
			}
		}()
	}
	drive(t, f, false)
}

func drive(t *testing.T, f func(t *T), bubble bool) {
	path := os.Getenv("VDRV_OUT")
	if path == "" {
		t.Skip("VDRV_OUT not set")
	}
	out, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	seed := uint64(Env("VDRV_SEED", 1))
	from, to := Env("VDRV_FROM", 0), Env("VDRV_TO", 1)
	for i := from; i < to; i++ {
		rt := &T{out: out, Index: i, Rng: rand.New(rand.NewPCG(seed, uint64(i)+1)), pending: map[int]string{}}
		fmt.Fprintf(out, "S %d\n", i)
		wd := time.AfterFunc(20*time.Second, func() {
			rt.mu.Lock()
			rt.log(Ev{"e": "Hang"})
			fmt.Fprintf(out, "X %d\n", i)
			if os.Getenv("VDRV_DUMP") != "" {
				debug.SetTraceback("all")
				panic("hang")
			}
			os.Exit(77)
		})
		if !bubble {
			f(rt)
			rt.mu.Lock()
			rt.closed = true
			fmt.Fprintf(out, "X %d\n", i)
			rt.mu.Unlock()
			wd.Stop()
			continue
		}
		stuck := false
		synctest.Test(t, func(*testing.T) {
			vsched.Start(seed*1000003+uint64(i), rt.N(3))
			f(rt)
			vsched.Stop()
			stuck = rt.Pending()
			rt.mu.Lock()
			rt.closed = true
			fmt.Fprintf(out, "X %d\n", i)
			rt.mu.Unlock()
			if stuck {
				os.Exit(77)
			}
		})
		wd.Stop()
	}
}
