// Package mux drives the type multiplexer with random concurrent programs.
package mux

import (
	"testing"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type other struct{ v int }

func sample(ty int) any {
	switch ty {
	case 1:
		return 0
	case 2:
		return ""
	case 3:
		return other{}
	}
	return (*other)(nil)
}

func value(ty, v int) any {
	switch ty {
	case 1:
		return v
	case 2:
		return string(rune('A' + v))
	case 3:
		return other{v}
	}
	return &other{v}
}

func ident(x any) int {
	switch x := x.(type) {
	case int:
		return x
	case string:
		return int(x[0]) - 'A'
	case other:
		return x.v
	case *other:
		return x.v
	}
	return -1
}

func typ(x any) int {
	switch x.(type) {
	case int:
		return 1
	case string:
		return 2
	case other:
		return 3
	case *other:
		return 4
	}
	return 0
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		var mux event.TypeMux
		nsub := 1 + r.N(4)
		ntypes := 1 + r.N(4)
		var types [][]int
		for j := 0; j < nsub; j++ {
			var ts []int
			for ty := 1; ty <= ntypes; ty++ {
				if r.P(50) {
					ts = append(ts, ty)
				}
			}
			if len(ts) == 0 {
				ts = []int{1 + r.N(ntypes)}
			}
			types = append(types, ts)
		}
		npost := 1 + r.N(6)
		var vty []int
		for v := 0; v < npost; v++ {
			vty = append(vty, 1+r.N(ntypes))
		}
		r.Log(rec.Ev{"e": "Init", "types": types, "vty": vty})
		subs := make([]*event.TypeMuxSubscription, nsub)
		ready := make([]chan struct{}, nsub)
		for j := range ready {
			ready[j] = make(chan struct{})
		}
		doSub := func(j int) {
			var args []any
			for _, ty := range types[j] {
				args = append(args, sample(ty))
			}
			r.Call("Sub", rec.Ev{"s": j + 1}, func() rec.Ev {
				subs[j] = mux.Subscribe(args...)
				return nil
			})
			close(ready[j])
		}
		doUnsub := func(j int) {
			<-ready[j]
			if subs[j] != nil {
				r.Call("Unsub", rec.Ev{"s": j + 1}, func() rec.Ev { subs[j].Unsubscribe(); return nil })
			}
		}
		doPost := func(v int) {
			r.Call("Post", rec.Ev{"v": v}, func() rec.Ev {
				err := mux.Post(value(vty[v-1], v))
				ok := 2
				if err == nil {
					ok = 1
				} else if err == event.ErrMuxClosed {
					ok = 0
				}
				return rec.Ev{"ok": ok}
			})
		}
		delay := func(n int) { time.Sleep(time.Duration(n)) }
		spread := []int{1, 40, 200}[r.N(3)]
		drain := make(chan struct{})
		stop := make(chan struct{})
		recv := func(j int) bool {
			more := true
			r.Call("Recv", rec.Ev{"s": j + 1}, func() rec.Ev {
				select {
				case ev, ok := <-subs[j].Chan():
					if !ok {
						more = false
						return rec.Ev{"v": 0}
					}
					return rec.Ev{"v": ident(ev.Data), "t": typ(ev.Data)}
				case <-stop:
					more = false
					return rec.Ev{"v": -1}
				}
			})
			return more
		}
		for j := range subs {
			k := []int{0, 1, 2, 100, 100}[r.N(5)]
			d := r.N(spread * 2)
			go func() {
				<-ready[j]
				if subs[j] == nil {
					return
				}
				for i := 0; i < k; i++ {
					delay(d)
					if !recv(j) {
						return
					}
				}
				select {
				case <-drain:
				case <-stop:
					return
				}
				for recv(j) {
				}
			}()
		}
		for j := range subs {
			if r.P(55) {
				doSub(j)
			} else {
				d := r.N(spread * 3)
				go func() { delay(d); doSub(j) }()
			}
			for n := []int{0, 0, 1, 1, 2}[r.N(5)]; n > 0; n-- {
				d := r.N(spread * 3)
				go func() { delay(d); doUnsub(j) }()
			}
			if r.P(30) {
				d := r.N(spread * 3)
				go func() {
					delay(d)
					<-ready[j]
					if subs[j] != nil {
						r.Call("Closed", rec.Ev{"s": j + 1}, func() rec.Ev {
							b := 0
							if subs[j].Closed() {
								b = 1
							}
							return rec.Ev{"b": b}
						})
					}
				}()
			}
		}
		for n := []int{0, 0, 1, 1, 2}[r.N(5)]; n > 0; n-- {
			d := r.N(spread * 4)
			go func() {
				delay(d)
				r.Call("Stop", nil, func() rec.Ev { mux.Stop(); return nil })
			}()
		}
		for v := 1; v <= npost; {
			k := 1 + r.N(3)
			var vs, ds []int
			for ; k > 0 && v <= npost; k-- {
				vs = append(vs, v)
				ds = append(ds, r.N(spread*2))
				v++
			}
			go func() {
				for i := range vs {
					delay(ds[i])
					doPost(vs[i])
				}
			}()
		}
		r.Quiesce()
		end := r.N(3)
		if end == 0 {
			close(drain)
			r.Quiesce()
		}
		if end == 1 {
			for j := range subs {
				go doUnsub(j)
			}
		} else {
			go r.Call("Stop", nil, func() rec.Ev { mux.Stop(); return nil })
		}
		r.Quiesce()
		r.Log(rec.Ev{"e": "End"})
		if end != 0 {
			close(drain)
		}
		close(stop)
		time.Sleep(time.Second)
	})
}
