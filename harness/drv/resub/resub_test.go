// Package resub drives resubscribing subscriptions with scripted connect functions.
package resub

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"verifharness/rec"
)

type serr int

func (e serr) Error() string { return fmt.Sprint("error ", int(e)) }

type inner struct {
	r     *rec.T
	id    int
	delay int
	mu    sync.Mutex
	over  bool
	once  sync.Once
	err   chan error
}

func (s *inner) Err() <-chan error { return s.err }
func (s *inner) Unsubscribe() {
	time.Sleep(time.Duration(s.delay))
	s.mu.Lock()
	s.over = true
	s.r.Log(rec.Ev{"e": "InnerUnsub", "k": s.id})
	s.mu.Unlock()
	s.once.Do(func() { close(s.err) })
}

func (s *inner) end(e int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.over {
		return
	}
	s.over = true
	s.r.Log(rec.Ev{"e": "InnerEnd", "k": s.id, "err": e})
	if e == 0 {
		s.once.Do(func() { close(s.err) })
	} else {
		s.err <- serr(e)
	}
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		max := []time.Duration{300 * time.Millisecond, time.Second, 3 * time.Second}[r.N(3)]
		t0 := time.Now()
		now := func() int { return int(time.Since(t0) / time.Microsecond) }
		r.Log(rec.Ev{"e": "Init", "max": int(max / time.Microsecond)})
		withErr := r.P(70)
		n := r.N(7)
		type step struct {
			kind  int // 0 fail, 1 subscribe and end with an error, 2 subscribe and end cleanly, 3 wait for the context, 4 subscribe for good
			delay time.Duration
			live  time.Duration
			grace int
			inner int
		}
		var script []step
		for i := 0; i < n; i++ {
			s := step{kind: []int{0, 0, 0, 0, 1, 1, 1, 2, 3, 4}[r.N(10)], grace: r.N(200), inner: r.N(100)}
			switch r.N(4) {
			case 0:
				s.delay = time.Duration(r.N(500))
			case 1:
				s.delay = time.Duration(r.N(int(max)))
			case 2:
				s.delay = max + time.Duration(r.N(int(max))) + 10*time.Millisecond
			}
			switch r.N(3) {
			case 0:
				s.live = time.Duration(r.N(300))
			case 1:
				s.live = time.Duration(r.N(int(max) * 2))
			}
			script = append(script, s)
		}
		script = append(script, step{kind: 3 + r.N(2), grace: r.N(100)})
		calls := 0
		connect := func(ctx context.Context, last error) (event.Subscription, error) {
			calls++
			k := calls
			s := script[min(k, len(script))-1]
			le := 0
			if e, ok := last.(serr); ok {
				le = int(e)
			} else if last != nil {
				le = -1
			}
			r.Log(rec.Ev{"e": "FnCall", "k": k, "t": now(), "last": le})
			cancelled := false
			var tc <-chan time.Time
			if s.kind != 3 {
				tc = time.After(s.delay)
			}
			ignore := s.kind != 3 && s.grace%3 == 0 // does not look at the context
			if ignore {
				<-tc
			} else {
				select {
				case <-tc:
				case <-ctx.Done():
					r.Log(rec.Ev{"e": "CtxDone", "k": k})
					cancelled = true
				}
			}
			time.Sleep(time.Duration(s.grace))
			if s.kind == 0 || s.kind == 3 || cancelled && s.grace%2 == 0 {
				r.Log(rec.Ev{"e": "FnRet", "k": k, "t": now(), "ok": 0})
				return nil, errors.New("connect failed")
			}
			in := &inner{r: r, id: k, delay: s.inner, err: make(chan error, 1)}
			r.Log(rec.Ev{"e": "FnRet", "k": k, "t": now(), "ok": 1})
			switch s.kind {
			case 1:
				time.AfterFunc(s.live, func() { in.end(k) })
			case 2:
				time.AfterFunc(s.live, func() { in.end(0) })
			}
			return in, nil
		}
		var sub event.Subscription
		if withErr {
			sub = event.ResubscribeErr(max, connect)
		} else {
			sub = event.Resubscribe(max, func(ctx context.Context) (event.Subscription, error) { return connect(ctx, nil) })
		}
		r.Log(rec.Ev{"e": "Kind", "withErr": withErr})
		stop := make(chan struct{})
		if r.P(70) {
			go r.Call("Err", nil, func() rec.Ev {
				select {
				case _, ok := <-sub.Err():
					if ok {
						return rec.Ev{"v": 1}
					}
					return rec.Ev{"v": 0}
				case <-stop:
					return rec.Ev{"v": -1}
				}
			})
		}
		for k := []int{0, 1, 1, 2, 3}[r.N(5)]; k > 0; k-- {
			var d time.Duration
			switch r.N(4) {
			case 0:
				d = time.Duration(r.N(600))
			case 1:
				d = time.Duration(r.N(int(max)))
			default:
				d = time.Duration(r.N(int(max) * 6))
			}
			rep := 1 + r.N(2)
			go func() {
				time.Sleep(d)
				for ; rep > 0; rep-- {
					r.Call("Unsub", nil, func() rec.Ev { sub.Unsubscribe(); return nil })
				}
			}()
		}
		quiesce := func() {
			time.Sleep(time.Hour)
			synctest.Wait()
			r.Log(rec.Ev{"e": "Quiesce"})
		}
		quiesce()
		go r.Call("Unsub", nil, func() rec.Ev { sub.Unsubscribe(); return nil })
		quiesce()
		r.Log(rec.Ev{"e": "End"})
		close(stop)
		time.Sleep(time.Second)
	})
}
