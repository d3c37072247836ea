// Package feedtyped drives the dynamically typed feed with correctly and incorrectly typed calls.
package feedtyped

import (
	"fmt"
	"testing"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type named int
type shape interface{ Area() int }
type square struct{ n int }

func (s square) Area() int { return s.n }

// A channel of one of the element types, seen through closures.
type anyChan struct {
	arg  any // what is passed to Subscribe
	recv func(stop chan struct{}) (int, bool)
	ty   int // 0: cannot be subscribed
}

type ints []int

const ntypes = 11

// Types related to each type: assignable or convertible to it, but different.
var related = map[int][]int{1: {3, 8}, 2: {8}, 3: {1, 8}, 4: {5, 7, 8}, 5: {4, 7, 8}, 6: {9, 8}, 7: {4, 5, 8}, 8: {1, 2, 4, 7}, 9: {6, 8}, 10: {11, 8}, 11: {10, 8}}

// Values never have an interface type: the type of a value is its dynamic type.
func dynamic(ty int) int {
	switch ty {
	case 7:
		return 4
	case 8:
		return 1
	}
	return ty
}

func makeChan(ty, capacity, variant int) anyChan {
	switch ty {
	case 1:
		c := make(chan int, capacity)
		return mk(c, ty, variant, func(v int) int { return v })
	case 2:
		c := make(chan string, capacity)
		return mk(c, ty, variant, func(v string) int { return len(v) })
	case 3:
		c := make(chan named, capacity)
		return mk(c, ty, variant, func(v named) int { return int(v) })
	case 4:
		c := make(chan square, capacity)
		return mk(c, ty, variant, func(v square) int { return v.n })
	case 5:
		c := make(chan *square, capacity)
		return mk(c, ty, variant, func(v *square) int { return v.n })
	case 7:
		c := make(chan shape, capacity)
		return mk(c, ty, variant, func(v shape) int { return v.Area() })
	case 8:
		c := make(chan any, capacity)
		return mk(c, ty, variant, func(v any) int { return 99 })
	case 9:
		c := make(chan ints, capacity)
		return mk(c, ty, variant, func(v ints) int { return len(v) })
	case 10:
		c := make(chan chan int, capacity)
		return mk(c, ty, variant, func(v chan int) int { return cap(v) })
	case 11:
		c := make(chan (<-chan int), capacity)
		return mk(c, ty, variant, func(v <-chan int) int { return cap(v) })
	default:
		c := make(chan []int, capacity)
		return mk(c, ty, variant, func(v []int) int { return len(v) })
	}
}

func mk[T any](c chan T, ty, variant int, f func(T) int) anyChan {
	a := anyChan{arg: c, ty: ty, recv: func(stop chan struct{}) (int, bool) {
		select {
		case v := <-c:
			return f(v), true
		case <-stop:
			return 0, false
		}
	}}
	switch variant {
	case 1:
		a.arg = (chan<- T)(c)
	case 2:
		a.arg, a.ty = (<-chan T)(c), 0
	case 3:
		a.arg, a.ty = *new(T), 0
		if ty == 10 { // that would be a usable, if nil, channel
			a.arg = nil
		}
	case 4:
		a.arg, a.ty = nil, 0
	case 5:
		a.arg, a.ty = &c, 0
	}
	return a
}

func value(ty, v int) any {
	switch ty {
	case 1:
		return v
	case 2:
		return fmt.Sprintf("%*s", v, "")
	case 3:
		return named(v)
	case 4:
		return square{v}
	case 5:
		return &square{v}
	case 6:
		return make([]int, v)
	case 9:
		return make(ints, v)
	case 10:
		return make(chan int, v)
	case 11:
		return (<-chan int)(make(chan int, v))
	}
	return nil
}

func closedNow(c <-chan error) int {
	select {
	case _, ok := <-c:
		if !ok {
			return 1
		}
		return 2
	default:
		return 0
	}
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		nobad := rec.Env("VDRV_NOBAD", 0)
		var f event.Feed
		main := 1 + r.N(ntypes)
		badpct := []int{0, 20, 40, 60}[r.N(4)]
		if nobad != 0 {
			badpct, main = 0, dynamic(main)
		}
		otherty := func() int {
			if r.P(20) {
				return 0
			}
			if r.P(50) {
				return related[main][r.N(len(related[main]))]
			}
			return 1 + r.N(ntypes)
		}
		nch := 1 + r.N(4)
		var caps, subch, sty []int
		var chans []anyChan
		for i := 0; i < nch; i++ {
			ty, variant := main, r.N(2)
			if r.P(badpct) {
				if ty = otherty(); ty == 0 {
					ty = main
					variant = 2 + r.N(4)
				}
			}
			caps = append(caps, []int{0, 0, 1, 2}[r.N(4)])
			chans = append(chans, makeChan(ty, caps[i], variant))
			sty = append(sty, chans[i].ty)
			subch = append(subch, i)
		}
		nval := 1 + r.N(6)
		var vty []int
		for v := 0; v < nval; v++ {
			ty := main
			if r.P(badpct) {
				ty = otherty()
			}
			ty = dynamic(ty)
			vty = append(vty, ty)
		}
		r.Log(rec.Ev{"e": "Init", "caps": caps, "subch": subch, "sty": sty, "vty": vty})

		subs := make([]event.Subscription, nch)
		ready := make([]chan struct{}, nch)
		for j := range ready {
			ready[j] = make(chan struct{})
		}
		doSub := func(j int) {
			r.Call("Sub", rec.Ev{"s": j + 1, "c": subch[j] + 1}, func() rec.Ev {
				subs[j] = f.Subscribe(chans[j].arg)
				return nil
			})
			close(ready[j])
		}
		doUnsub := func(j int) {
			<-ready[j]
			if subs[j] == nil {
				return
			}
			r.Call("Unsub", rec.Ev{"s": j + 1}, func() rec.Ev {
				subs[j].Unsubscribe()
				return rec.Ev{"closed": closedNow(subs[j].Err())}
			})
		}
		doSend := func(v int) {
			r.Call("Send", rec.Ev{"v": v}, func() rec.Ev { return rec.Ev{"n": f.Send(value(vty[v-1], v))} })
		}
		delay := func(n int) { time.Sleep(time.Duration(n)) }
		spread := []int{1, 40, 200}[r.N(3)]
		drain := make(chan struct{})
		stop := make(chan struct{})
		recv := func(c int) bool {
			ok := true
			r.Call("Recv", rec.Ev{"c": c + 1}, func() rec.Ev {
				var v int
				v, ok = chans[c].recv(stop)
				return rec.Ev{"v": v}
			})
			return ok
		}
		for c := range chans {
			k := []int{0, 1, 2, 1000, 1000}[r.N(5)]
			d := r.N(spread * 2)
			go func() {
				for i := 0; i < k; i++ {
					delay(d)
					if !recv(c) {
						return
					}
				}
				select {
				case <-drain:
				case <-stop:
					return
				}
				for recv(c) {
				}
			}()
		}
		for j := range subs {
			if r.P(50) {
				doSub(j)
			} else {
				d := r.N(spread * 2)
				go func() { delay(d); doSub(j) }()
			}
		}
		for j := range subs {
			if r.P(25) {
				d := r.N(spread * 3)
				go func() { delay(d); doUnsub(j) }()
			}
		}
		for v := 1; v <= nval; {
			k := 1 + r.N(3)
			var vs, ds []int
			for ; k > 0 && v <= nval; k-- {
				vs = append(vs, v)
				ds = append(ds, r.N(spread*2))
				v++
			}
			go func() {
				for i := range vs {
					delay(ds[i])
					doSend(vs[i])
				}
			}()
		}
		r.Quiesce()
		close(drain)
		r.Quiesce()
		for j := range subs {
			go doUnsub(j)
		}
		r.Quiesce()
		r.Log(rec.Ev{"e": "End"})
		close(stop)
		time.Sleep(time.Second)
	})
}
