// Package producer drives subscriptions made from producer functions.
package producer

import (
	"fmt"
	"testing"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type perr int

func (e perr) Error() string { return fmt.Sprint("producer error ", int(e)) }

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		r.Log(rec.Ev{"e": "Init"})
		spread := []int{1, 20, 100}[r.N(3)]
		delay := func(n int) { time.Sleep(time.Duration(n)) }
		var sub event.Subscription
		ready := make(chan struct{})
		release := make(chan struct{})
		code := r.N(3) // error returned
		d1, d2 := r.N(spread), r.N(spread)
		waits := r.P(60)
		also := r.P(30) // the producer may end by itself while waiting
		d3 := r.N(spread * 3)
		prod := func(quit <-chan struct{}) error {
			r.Log(rec.Ev{"e": "ProdStart"})
			delay(d1)
			if waits {
				r.Log(rec.Ev{"e": "ProdWait"})
				var other <-chan time.Time
				if also {
					other = time.After(time.Duration(d3))
				}
				select {
				case <-quit:
					r.Log(rec.Ev{"e": "ProdCancelled"})
				case <-other:
					r.Log(rec.Ev{"e": "ProdTimeout"})
				case <-release:
					r.Log(rec.Ev{"e": "ProdTimeout"})
				}
			}
			delay(d2)
			r.Log(rec.Ev{"e": "ProdReturn", "err": code})
			if code == 0 {
				return nil
			}
			return perr(code)
		}
		stop := make(chan struct{})
		for n := r.N(4); n > 0; n-- {
			d := r.N(spread * 4)
			k := 1 + r.N(2)
			go func() {
				<-ready
				delay(d)
				for ; k > 0; k-- {
					r.Call("Unsub", nil, func() rec.Ev { sub.Unsubscribe(); return nil })
				}
			}()
		}
		for n := r.N(3); n > 0; n-- {
			d := r.N(spread * 4)
			go func() {
				<-ready
				delay(d)
				for k := 0; k < 3; k++ {
					r.Call("Err", nil, func() rec.Ev {
						select {
						case err, ok := <-sub.Err():
							if !ok {
								return rec.Ev{"v": 0}
							}
							if e, ok := err.(perr); ok {
								return rec.Ev{"v": int(e)}
							}
							return rec.Ev{"v": -1}
						case <-stop:
							return rec.Ev{"v": -2}
						}
					})
				}
			}()
		}
		d := r.N(spread)
		go func() {
			delay(d)
			r.Call("New", nil, func() rec.Ev { sub = event.NewSubscription(prod); return nil })
			close(ready)
		}()
		r.Quiesce()
		if r.P(50) {
			go r.Call("Unsub", nil, func() rec.Ev { sub.Unsubscribe(); return nil })
			r.Quiesce()
		}
		if r.P(60) { // read what is left
			for k := 0; k < 2; k++ {
				go r.Call("Err", nil, func() rec.Ev {
					select {
					case err, ok := <-sub.Err():
						if !ok {
							return rec.Ev{"v": 0}
						}
						if e, ok := err.(perr); ok {
							return rec.Ev{"v": int(e)}
						}
						return rec.Ev{"v": -1}
					case <-stop:
						return rec.Ev{"v": -2}
					}
				})
				r.Quiesce()
			}
		}
		r.Log(rec.Ev{"e": "End"})
		close(release)
		close(stop)
		time.Sleep(time.Second)
	})
}
