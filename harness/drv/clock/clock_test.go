// Package clock drives the simulated clock.
package clock

import (
	"testing"
	"time"

	"flychain/common/mclock"
	"verifharness/rec"
)

type timer struct {
	id    int
	t     mclock.Timer
	c     mclock.ChanTimer
	armed bool // may not be reset while its channel may hold a value
	popped bool
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		r.Log(rec.Ev{"e": "Init"})
		clock := new(mclock.Simulated)
		span := []int{1, 2, 4, 10}[r.N(4)]
		conc := r.P(40)
		var ts []*timer
		ids := 0
		depth := 0
		var op func(inside bool)
		fresh := func() int { ids++; return ids }
		mk := func() {
			d := r.N(span)
			if r.P(5) {
				d = -1
			}
			tm := &timer{id: fresh()}
			ts = append(ts, tm)
			if r.P(55) {
				body := 0
				if r.P(35) {
					body = 1 + r.N(2)
				}
				tm.t = clock.AfterFunc(time.Duration(d), func() {
					r.Log(rec.Ev{"e": "Fire", "id": tm.id})
					if depth < 2 {
						depth++
						for k := 0; k < body; k++ {
							op(true)
						}
						depth--
					}
				})
				r.Log(rec.Ev{"e": "New", "id": tm.id, "k": "f", "d": d})
			} else {
				tm.c = clock.NewTimer(time.Duration(d))
				tm.t = tm.c
				r.Log(rec.Ev{"e": "New", "id": tm.id, "k": "c", "d": d})
			}
		}
		poll := func(tm *timer) bool {
			v := -1000 // nothing there
			select {
			case x := <-tm.c.C():
				v = int(x)
			default:
			}
			r.Log(rec.Ev{"e": "Poll", "id": tm.id, "v": v})
			return v != -1000
		}
		quiesce := func() {
			if conc {
				r.Quiesce()
			}
		}
		waiters := 0
		op = func(inside bool) {
			var tm *timer
			if len(ts) > 0 {
				tm = ts[r.N(len(ts))]
			}
			switch c := r.N(20); {
			case c < 5 || tm == nil:
				mk()
			case c < 8:
				b := 0
				if tm.t.Stop() {
					b = 1
				}
				r.Log(rec.Ev{"e": "Stop", "id": tm.id, "b": b})
			case c < 11:
				if tm.c == nil {
					return
				}
				// a timer may be reset when it is pending, or stopped or expired with a drained channel
				if inside {
					b := 0
					if tm.c.Stop() {
						b = 1
					}
					r.Log(rec.Ev{"e": "Stop", "id": tm.id, "b": b})
					if b == 0 && !poll(tm) {
						return // it may be about to deliver in this very Run
					}
				} else {
					poll(tm)
				}
				d := r.N(span)
				tm.c.Reset(time.Duration(d))
				r.Log(rec.Ev{"e": "Reset", "id": tm.id, "d": d})
			case c < 12:
				r.Log(rec.Ev{"e": "Now", "t": int(clock.Now())})
			case c < 14:
				r.Log(rec.Ev{"e": "Active", "n": clock.ActiveTimers()})
			case c < 16:
				if tm.c != nil {
					poll(tm)
				}
			case c == 16 && conc && !inside:
				waiters++
				w, n := waiters, r.N(5)
				r.Log(rec.Ev{"e": "WaitCall", "w": w, "n": n})
				go func() {
					clock.WaitForTimers(n)
					r.Log(rec.Ev{"e": "WaitRet", "w": w})
				}()
				if r.P(50) {
					quiesce()
				}
			case c == 17 && conc && !inside:
				quiesce()
				id, d := fresh(), r.N(span)
				r.Log(rec.Ev{"e": "SleepCall", "id": id, "d": d})
				go func() {
					clock.Sleep(time.Duration(d))
					r.Log(rec.Ev{"e": "SleepRet", "id": id})
				}()
				quiesce()
			default:
				if inside {
					return
				}
				d := r.N(span)
				quiesce()
				r.Log(rec.Ev{"e": "RunCall", "d": d})
				clock.Run(time.Duration(d))
				r.Log(rec.Ev{"e": "RunRet"})
				quiesce()
			}
		}
		for k := 4 + r.N(24); k > 0; k-- {
			op(false)
		}
		quiesce()
		// everything left fires exactly once
		r.Log(rec.Ev{"e": "RunCall", "d": 50})
		clock.Run(50)
		r.Log(rec.Ev{"e": "RunRet"})
		for _, tm := range ts {
			if tm.c != nil {
				poll(tm)
				poll(tm)
			}
		}
		quiesce()
		r.Log(rec.Ev{"e": "End"})
		// release the waiters
		for i := 0; i < 8; i++ {
			clock.NewTimer(1)
		}
		time.Sleep(time.Second)
	})
}
