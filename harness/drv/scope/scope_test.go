// Package scope drives subscription scopes.
package scope

import (
	"testing"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type inner struct {
	r     *rec.T
	id    int
	delay int
	err   chan error
}

func (s *inner) Err() <-chan error { return s.err }
func (s *inner) Unsubscribe() {
	s.r.Log(rec.Ev{"e": "InnerCall", "s": s.id})
	time.Sleep(time.Duration(s.delay))
	s.r.Log(rec.Ev{"e": "InnerRet", "s": s.id})
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		n := 1 + r.N(5)
		r.Log(rec.Ev{"e": "Init", "n": n})
		spread := []int{1, 30, 120}[r.N(3)]
		delay := func(n int) { time.Sleep(time.Duration(n)) }
		var sc event.SubscriptionScope
		for s := 1; s <= n; s++ {
			in := &inner{r: r, id: s, delay: r.N(spread), err: make(chan error)}
			d := r.N(spread * 2)
			var ud []int
			for k := []int{0, 1, 1, 2}[r.N(4)]; k > 0; k-- {
				ud = append(ud, r.N(spread*2))
			}
			f := func() {
				delay(d)
				var w event.Subscription
				r.Call("Track", rec.Ev{"s": s}, func() rec.Ev {
					w = sc.Track(in)
					ok, same := 0, 0
					if w != nil {
						ok = 1
						if w.Err() == in.Err() {
							same = 1
						}
					}
					return rec.Ev{"ok": ok, "same": same}
				})
				if w == nil {
					return
				}
				for _, d := range ud {
					go func() {
						delay(d)
						r.Call("WUnsub", rec.Ev{"s": s}, func() rec.Ev { w.Unsubscribe(); return nil })
					}()
				}
			}
			if r.P(30) {
				f()
			} else {
				go f()
			}
		}
		for k := []int{0, 1, 1, 2}[r.N(4)]; k > 0; k-- {
			d := r.N(spread * 3)
			go func() {
				delay(d)
				r.Call("Close", nil, func() rec.Ev { sc.Close(); return nil })
			}()
		}
		for k := r.N(4); k > 0; k-- {
			d := r.N(spread * 4)
			go func() {
				delay(d)
				r.Call("Count", nil, func() rec.Ev { return rec.Ev{"n": sc.Count()} })
			}()
		}
		r.Quiesce()
		r.Call("Count", nil, func() rec.Ev { return rec.Ev{"n": sc.Count()} })
		if r.P(60) {
			go r.Call("Close", nil, func() rec.Ev { sc.Close(); return nil })
			r.Quiesce()
			go r.Call("Count", nil, func() rec.Ev { return rec.Ev{"n": sc.Count()} })
			r.Quiesce()
		}
		r.Log(rec.Ev{"e": "End"})
	})
}
