package feed

import (
	"testing"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type feed interface {
	sub(c chan int) event.Subscription
	send(v int) int
}

type dyn struct{ f event.Feed }

func (d *dyn) sub(c chan int) event.Subscription { return d.f.Subscribe(c) }
func (d *dyn) send(v int) int                     { return d.f.Send(v) }

type gen struct{ f event.FeedOf[int] }

func (d *gen) sub(c chan int) event.Subscription { return d.f.Subscribe(c) }
func (d *gen) send(v int) int                     { return d.f.Send(v) }

// a feed of an interface type; the value 1 travels as nil
type gany struct{ f event.FeedOf[any] }

func (d *gany) sub(c chan int) event.Subscription { panic("not used") }
func (d *gany) send(v int) int {
	if v == 1 {
		return d.f.Send(nil)
	}
	return d.f.Send(v)
}

func closedNow(c <-chan error) int {
	select {
	case _, ok := <-c:
		if !ok {
			return 1
		}
		return 2
	default:
		return 0
	}
}

// TestDrive runs random programs of concurrent feed operations.
func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		big := rec.Env("VDRV_BIG", 0)         // more senders
		nounsub := rec.Env("VDRV_NOUNSUB", 0) // control group without cancels
		var f feed = &dyn{}
		kind := "Feed"
		switch p := r.N(100); {
		case p < 35:
			f, kind = &gen{}, "FeedOf"
		case p < 45:
			f, kind = &gany{}, "FeedOf[any]"
		}
		nch := 1 + r.N(3+big)
		caps := make([]int, nch)
		chans := make([]chan int, nch)
		achans := make([]chan any, nch)
		for i := range chans {
			caps[i] = []int{0, 0, 0, 1, 2}[r.N(5)]
			if kind == "FeedOf[any]" {
				achans[i] = make(chan any, caps[i])
			} else {
				chans[i] = make(chan int, caps[i])
			}
		}
		nsub := nch
		if r.P(30) {
			nsub += 1 + r.N(2)
		}
		subch := make([]int, nsub)
		for j := range subch {
			subch[j] = j
			if j >= nch {
				subch[j] = r.N(nch)
			}
		}
		r.Log(rec.Ev{"e": "Init", "kind": kind, "caps": caps, "subch": subch})

		subs := make([]event.Subscription, nsub)
		ready := make([]chan struct{}, nsub)
		for j := range ready {
			ready[j] = make(chan struct{})
		}
		doSub := func(j int) {
			r.Call("Sub", rec.Ev{"s": j + 1, "c": subch[j] + 1}, func() rec.Ev {
				if g, ok := f.(*gany); ok {
					subs[j] = g.f.Subscribe(achans[subch[j]])
				} else {
					subs[j] = f.sub(chans[subch[j]])
				}
				return nil
			})
			close(ready[j])
		}
		doUnsub := func(j int) {
			<-ready[j]
			if subs[j] == nil {
				return
			}
			r.Call("Unsub", rec.Ev{"s": j + 1}, func() rec.Ev {
				subs[j].Unsubscribe()
				return rec.Ev{"closed": closedNow(subs[j].Err())}
			})
		}
		doSend := func(v int) {
			r.Call("Send", rec.Ev{"v": v}, func() rec.Ev { return rec.Ev{"n": f.send(v)} })
		}
		delay := func(n int) { time.Sleep(time.Duration(n)) }
		spread := []int{1, 40, 200}[r.N(3)]

		drain := make(chan struct{})
		stop := make(chan struct{})
		recv := func(c int) bool {
			ok := true
			r.Call("Recv", rec.Ev{"c": c + 1}, func() rec.Ev {
				select {
				case v := <-chans[c]:
					return rec.Ev{"v": v}
				case v := <-achans[c]:
					if v == nil {
						return rec.Ev{"v": 1}
					}
					return rec.Ev{"v": v.(int)}
				case <-stop:
					ok = false
					return rec.Ev{"v": 0}
				}
			})
			return ok
		}
		for c := range chans {
			k := r.N(4)
			if r.P(25) {
				k = 1000
			}
			var ds []int
			for i := 0; i < 8; i++ {
				ds = append(ds, r.N(spread*2))
			}
			go func() {
				for i := 0; i < k; i++ {
					delay(ds[i%8])
					if !recv(c) {
						return
					}
				}
				select {
				case <-drain:
				case <-stop:
					return
				}
				for recv(c) {
				}
			}()
		}
		// initial subscriptions, some of them later and concurrently
		for j := range subs {
			if r.P(60) {
				doSub(j)
			} else {
				d := r.N(spread * 2)
				go func() { delay(d); doSub(j) }()
			}
		}
		for j := range subs {
			n := []int{0, 0, 1, 1, 1, 2}[r.N(6)]
			for ; n > 0 && nounsub == 0; n-- {
				d := r.N(spread * 3)
				go func() { delay(d); doUnsub(j) }()
			}
		}
		v := 0
		nsend := 1 + r.N(2+big)
		for s := 0; s < nsend; s++ {
			k := 1 + r.N(2)
			var vs, ds []int
			for i := 0; i < k; i++ {
				v++
				vs = append(vs, v)
				ds = append(ds, r.N(spread*2))
			}
			go func() {
				for i := range vs {
					delay(ds[i])
					doSend(vs[i])
				}
			}()
		}
		r.Quiesce()
		unsubAll := func() {
			if nounsub != 0 {
				return
			}
			for j := range subs {
				go doUnsub(j)
			}
		}
		if r.P(50) {
			close(drain)
			r.Quiesce()
			unsubAll()
		} else {
			unsubAll()
			r.Quiesce()
			close(drain)
		}
		r.Quiesce()
		r.Log(rec.Ev{"e": "End"})
		close(stop)
		time.Sleep(time.Second)
	})
}
