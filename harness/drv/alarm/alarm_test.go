// Package alarm drives alarms on the simulated clock.
package alarm

import (
	"testing"
	"time"

	"flychain/common/mclock"
	"verifharness/rec"
)

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		r.Log(rec.Ev{"e": "Init"})
		clock := new(mclock.Simulated)
		base := 0
		if r.P(50) {
			base = r.N(5)
			clock.Run(time.Duration(base))
		}
		a := mclock.NewAlarm(clock)
		now := func() int { return int(clock.Now()) - base }
		inRun := false
		schedule := func(t int) {
			a.Schedule(mclock.AbsTime(t + base))
			r.Log(rec.Ev{"e": "Schedule", "t": t})
		}
		poll := func() {
			n := 0
			for n < 3 {
				select {
				case <-a.C():
					n++
					continue
				default:
				}
				break
			}
			r.Log(rec.Ev{"e": "Poll", "n": n})
		}
		span := 1 + r.N(8)
		for k := 3 + r.N(14); k > 0; k-- {
			switch r.N(10) {
			case 0, 1, 2, 3:
				schedule(now() - base*0 + r.N(span) - 1)
			case 4:
				r.Log(rec.Ev{"e": "Stop"})
				a.Stop()
			case 5, 6:
				poll()
			case 7:
				// another timer whose callback uses the alarm
				d, dt := r.N(span), r.N(span)
				p := r.P(30)
				clock.AfterFunc(time.Duration(d), func() {
					if inRun {
						schedule(now() + dt - 1)
						if p {
							poll()
						}
					}
				})
			default:
				d := r.N(span)
				r.Log(rec.Ev{"e": "RunCall", "d": d})
				inRun = true
				clock.Run(time.Duration(d))
				inRun = false
				r.Log(rec.Ev{"e": "RunRet"})
				if r.P(60) {
					poll()
				}
			}
		}
		r.Log(rec.Ev{"e": "End"})
	})
}
