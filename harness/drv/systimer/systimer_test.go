// Package systimer runs the system clock: in bubbles, where instants are exact, and in real time.
package systimer

import (
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common/mclock"
	"verifharness/rec"
)

type history struct {
	mu sync.Mutex
	ev []rec.Ev
}

func (h *history) add(e rec.Ev) {
	for _, k := range []string{"id", "t0", "t1", "d", "got", "v", "res"} {
		if _, ok := e[k]; !ok {
			e[k] = 0
		}
	}
	if _, ok := e["kind"]; !ok {
		e["kind"] = ""
	}
	h.ev = append(h.ev, e)
}

func (h *history) log(e rec.Ev) {
	h.mu.Lock()
	h.add(e)
	h.mu.Unlock()
}

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

type timer struct {
	kind  string
	func_ mclock.Timer
	ch    mclock.ChanTimer
	after <-chan mclock.AbsTime
	state int // 0 armed, 1 known to be finished
}

func (t *timer) c() <-chan mclock.AbsTime {
	if t.ch != nil {
		return t.ch.C()
	}
	return t.after
}

func arm(h *history, now func() int64, c mclock.Clock, id int, kind string, d time.Duration) *timer {
	t := &timer{kind: kind}
	h.mu.Lock() // a callback must not be logged before the arming
	defer h.mu.Unlock()
	t0 := now()
	switch kind {
	case "func":
		t.func_ = c.AfterFunc(d, func() {
			at := now()
			h.mu.Lock()
			h.add(rec.Ev{"op": "fire", "id": id, "t0": at, "t1": at})
			h.mu.Unlock()
		})
	case "chan":
		t.ch = c.NewTimer(d)
	default:
		t.after = c.After(d)
	}
	h.add(rec.Ev{"op": "arm", "id": id, "kind": kind, "t0": t0, "t1": now(), "d": d.Microseconds()})
	return t
}

// bubble: exact virtual time; operations happen at odd milliseconds, deadlines at even ones.
func bubble(r *rec.T) {
	h := &history{}
	start := time.Now()
	now := func() int64 { return time.Since(start).Microseconds() }
	var c mclock.Clock = mclock.System{}
	time.Sleep(time.Millisecond)
	odd := func() time.Duration { return time.Duration(1+2*r.N(8)) * time.Millisecond }
	var ts []*timer
	for k := 4 + r.N(16); k > 0; k-- {
		synctest.Wait()
		var t *timer
		if len(ts) > 0 {
			t = ts[r.N(len(ts))]
		}
		id := 0
		for i := range ts {
			if ts[i] == t {
				id = i
			}
		}
		switch op := r.N(10); {
		case op < 3 || t == nil:
			d := odd()
			if r.P(6) {
				d = -d
			}
			ts = append(ts, arm(h, now, c, len(ts), []string{"func", "chan", "chan", "after"}[r.N(4)], d))
			synctest.Wait()
		case op < 5:
			var st mclock.Timer = t.func_
			if t.kind == "chan" {
				st = t.ch
			}
			if t.kind != "after" {
				at := now()
				res := st.Stop()
				h.log(rec.Ev{"op": "stop", "id": id, "t0": at, "t1": now(), "res": flag(res)})
			}
		case op < 6:
			if t.kind == "chan" {
				d := odd()
				at := now()
				t.ch.Reset(d)
				h.log(rec.Ev{"op": "reset", "id": id, "t0": at, "t1": now(), "d": d.Microseconds()})
			}
		case op < 8:
			if t.kind != "func" {
				at := now()
				got := 0
				select {
				case <-t.c():
					got = 1
				default:
				}
				h.log(rec.Ev{"op": "poll", "id": id, "t0": at, "t1": now(), "got": got})
			}
		default:
			d := time.Duration(2*(1+r.N(6))) * time.Millisecond
			at := now()
			c.Sleep(d)
			h.log(rec.Ev{"op": "sleep", "t0": at, "t1": now(), "d": d.Microseconds()})
		}
	}
	time.Sleep(100 * time.Millisecond)
	synctest.Wait()
	for i, t := range ts {
		if t.kind != "func" {
			got := 0
			select {
			case <-t.c():
				got = 1
			default:
			}
			h.log(rec.Ev{"op": "poll", "id": i, "t0": now(), "t1": now(), "got": got})
		}
	}
	h.log(rec.Ev{"op": "end", "t0": now(), "t1": now()})
	r.Log(rec.Ev{"e": "Rec", "mode": "exact", "ev": h.ev})
}

// once something has not happened for seconds, there is no need to wait as long for the next thing
var gaveUp atomic.Bool

func patience() time.Duration {
	if gaveUp.Load() {
		return 100 * time.Millisecond
	}
	return 8 * time.Second
}

// live: real time; only lower bounds of instants, and that everything happens at last.
func live(rnd func(int) int) []rec.Ev {
	h := &history{}
	start := mclock.Now()
	now := func() int64 { return mclock.Now().Sub(start).Microseconds() }
	us := func(a mclock.AbsTime) int64 { return int64(a-start) / 1000 }
	var c mclock.Clock = mclock.System{}
	var ts []*timer
	recv := func(id int, t *timer, wait bool) bool {
		at := now()
		got, v := 0, int64(0)
		if wait {
			select {
			case x := <-t.c():
				got, v = 1, us(x)
			case <-time.After(patience()):
				gaveUp.Store(true)
			}
		} else {
			select {
			case x := <-t.c():
				got, v = 1, us(x)
			default:
			}
		}
		h.log(rec.Ev{"op": "poll", "id": id, "t0": at, "t1": now(), "got": got, "v": v})
		return got == 1
	}
	for k := 6 + rnd(10); k > 0; k-- {
		d := time.Duration(rnd(3000)) * time.Microsecond
		if rnd(8) == 0 {
			d = time.Duration(rnd(3)-2) * time.Millisecond
		}
		var t *timer
		id := 0
		if len(ts) > 0 {
			id = rnd(len(ts))
			t = ts[id]
		}
		switch op := rnd(10); {
		case op < 3 || t == nil:
			ts = append(ts, arm(h, now, c, len(ts), []string{"func", "chan", "chan", "after"}[rnd(4)], d))
		case op < 6: // stop, and a proper reset
			var st mclock.Timer = t.func_
			if t.kind == "chan" {
				st = t.ch
			}
			if t.kind == "after" {
				continue
			}
			at := now()
			res := st.Stop()
			h.log(rec.Ev{"op": "stop", "id": id, "t0": at, "t1": now(), "res": flag(res)})
			if t.kind == "chan" && rnd(2) == 0 {
				if !res && t.state == 0 {
					recv(id, t, true)
				}
				at := now()
				t.ch.Reset(d)
				h.log(rec.Ev{"op": "reset", "id": id, "t0": at, "t1": now(), "d": d.Microseconds()})
				t.state = 0
			} else if res {
				t.state = 1
			}
		case op < 8:
			if t.kind != "func" && recv(id, t, false) {
				t.state = 1
			}
		default:
			d = time.Duration(rnd(1500)) * time.Microsecond
			at := now()
			c.Sleep(d)
			h.log(rec.Ev{"op": "sleep", "t0": at, "t1": now(), "d": d.Microseconds()})
		}
	}
	for i, t := range ts {
		if t.kind != "func" && t.state == 0 {
			recv(i, t, true)
		}
	}
	// callbacks: wait until each is accounted for
	stop := time.Now().Add(patience())
	for time.Now().Before(stop) {
		h.mu.Lock()
		armed := map[int]bool{}
		for _, e := range h.ev {
			id, _ := e["id"].(int)
			switch {
			case e["op"] == "arm" && e["kind"] == "func":
				armed[id] = true
			case e["op"] == "fire", e["op"] == "stop" && e["res"] == 1:
				delete(armed, id)
			}
		}
		h.mu.Unlock()
		if len(armed) == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(4 * time.Millisecond) // anything that should not come
	for i, t := range ts {
		if t.kind != "func" {
			recv(i, t, false)
		}
	}
	h.log(rec.Ev{"op": "end", "t0": now(), "t1": now()})
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.ev
}

func alarm(rnd func(int) int) []rec.Ev {
	h := &history{}
	start := mclock.Now()
	now := func() int64 { return mclock.Now().Sub(start).Microseconds() }
	a := mclock.NewAlarm(mclock.System{})
	out := false
	for k := 6 + rnd(14); k > 0; k-- {
		switch op := rnd(12); {
		case op < 4:
			at := now()
			due := at + int64(rnd(4000)) - 300
			out = true
			h.log(rec.Ev{"op": "sched", "t0": at, "d": due})
			a.Schedule(start.Add(time.Duration(due) * time.Microsecond))
		case op < 5:
			at := now()
			a.Stop()
			out = false
			h.log(rec.Ev{"op": "astop", "t0": at, "t1": now()})
		case op < 9:
			at := now()
			got := 0
			select {
			case <-a.C():
				got = 1
				out = false
			default:
			}
			h.log(rec.Ev{"op": "apoll", "t0": at, "t1": now(), "got": got})
		case op < 10 && out:
			at := now()
			got := 0
			select {
			case <-a.C():
				got = 1
				out = false
			case <-time.After(patience()):
				gaveUp.Store(true)
			}
			h.log(rec.Ev{"op": "apoll", "t0": at, "t1": now(), "got": got, "res": 1})
		default:
			time.Sleep(time.Duration(rnd(2500)) * time.Microsecond)
		}
	}
	got := 0
	if out {
		select {
		case <-a.C():
			got = 1
		case <-time.After(patience()):
			gaveUp.Store(true)
		}
		h.log(rec.Ev{"op": "apoll", "t1": now(), "got": got, "res": 1})
	}
	h.log(rec.Ev{"op": "end", "t0": now(), "t1": now()})
	return h.ev
}

// clocks compares readings with the Go runtime's own monotonic clock.
func clocks(rnd func(int) int) []rec.Ev {
	h := &history{}
	base := time.Now()
	var c mclock.Clock = mclock.System{}
	n0 := c.Now()
	b1 := time.Since(base).Microseconds()
	h.log(rec.Ev{"op": "base", "t0": 0, "t1": b1})
	last := n0
	for k := 0; k < 6; k++ {
		g0 := time.Since(base).Microseconds()
		n := c.Now()
		g1 := time.Since(base).Microseconds()
		d := time.Duration(rnd(1 << 30))
		arith := last.Add(n.Sub(last)) == n && n.Add(d).Sub(n) == d && n.Add(-d) < n+1
		h.log(rec.Ev{"op": "now", "t0": g0, "t1": g1, "v": n.Sub(n0).Microseconds(), "res": flag(n >= last && arith)})
		last = n
		time.Sleep(time.Duration(rnd(3000)) * time.Microsecond)
	}
	return h.ev
}

func TestDrive(t *testing.T) {
	nlive := rec.Env("VDRV_LIVE", 40)
	rec.DrivePlain(t, func(r *rec.T) {
		if r.Index >= nlive {
			for k := 0; k < 10; k++ {
				synctest.Test(t, func(*testing.T) { bubble(r) })
			}
			return
		}
		var wg sync.WaitGroup
		for k := 0; k < 30; k++ {
			seed := r.Rng.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := func(n int) int {
					seed = seed*6364136223846793005 + 1442695040888963407
					return int((seed >> 33) % uint64(n))
				}
				mode := []string{"live", "alarm", "now"}[k*3/31]
				if k%10 == 9 {
					mode = "now"
				}
				r.Log(rec.Ev{"e": "Rec", "mode": mode, "ev": map[string]func(func(int) int) []rec.Ev{"live": live, "alarm": alarm, "now": clocks}[mode](rnd)})
			}()
		}
		wg.Wait()
	})
}
