// Package rpcsub drives both ends of RPC subscriptions.
package rpcsub

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/rpc"
	"verifharness/hx"
	"verifharness/rec"
)

var errPlanned = errors.New("planned")

func delay(n int) { time.Sleep(time.Duration(n)) }

func caught(f func() error) (res int) {
	defer func() {
		if recover() != nil {
			res = 2
		}
	}()
	if f() == nil {
		return 1
	}
	return 0
}

// watch logs what an error channel gives.
func watch(r *rec.T, s int, ch <-chan error, stop chan int, name func(error) string) {
	for {
		select {
		case err, ok := <-ch:
			if !ok {
				r.Log(rec.Ev{"e": "ErrRecv", "s": s, "v": "closed"})
				return
			}
			r.Log(rec.Ev{"e": "ErrRecv", "s": s, "v": name(err)})
		case <-stop:
			return
		}
	}
}

// counter numbers operations.
type counter struct {
	mu sync.Mutex
	n  int
}

func (c *counter) next() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return c.n
}

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		n := 1 + r.N(3)
		r.Log(rec.Ev{"e": "Init", "n": n})
		var ops counter
		writes, failing := 0, 0
		if r.P(20) {
			failing = 1 + r.N(8)
		}
		slow := r.N(4)
		conn := &rpc.VConn{End: make(chan interface{})}
		conn.Write = func(v interface{}, isErr bool) error {
			b, err := json.Marshal(v)
			if err != nil {
				b = []byte("?")
			}
			var x interface{}
			if json.Unmarshal(b, &x) == nil {
				b, _ = json.Marshal(x) // with sorted keys
			}
			writes++
			ok := writes != failing
			r.Log(rec.Ev{"e": "W", "doc": hx.Codes(b), "ok": hx.Flag(ok), "err": hx.Flag(isErr)})
			delay(slow)
			if !ok {
				return errPlanned
			}
			return nil
		}
		h := rpc.VNewHandler(conn, rpc.VGenerator())
		spread := []int{1, 30, 150}[r.N(3)]
		var procs, all sync.WaitGroup
		stop := make(chan int)
		misuse := func(s int, what string, f func() error) {
			r.Log(rec.Ev{"e": "Misuse", "s": s, "what": what, "res": caught(f)})
		}
		type userOp struct{ d, kind int }
		for s := 1; s <= n; s++ {
			nt := h.Notifier(fmt.Sprint("ns", s))
			pre := r.P(20)
			twice, late, wrong, unfit, bare := r.P(15), r.P(15), r.P(15), r.P(15), r.P(15)
			activate := r.P(85)
			var goers [][]int
			for g := 1 + r.N(3); g > 0; g-- {
				var ds []int
				for k := r.N(4); k > 0; k-- {
					ds = append(ds, r.N(spread))
				}
				goers = append(goers, ds)
			}
			d1, d2, d3 := r.N(spread), r.N(spread), r.N(spread)
			var unsubs []int
			for k := []int{0, 1, 1, 2}[r.N(4)]; k > 0; k-- {
				unsubs = append(unsubs, r.N(spread*2))
			}
			procs.Add(1)
			all.Add(1)
			created := make(chan *rpc.Subscription, 1)
			r.Log(rec.Ev{"e": "Start", "s": s})
			h.Go(func(ctx context.Context) {
				if pre {
					misuse(s, "notify without subscription", func() error { return nt.Notify("0x1", 1) })
				}
				sub := nt.CreateSubscription()
				r.Log(rec.Ev{"e": "Create", "s": s, "id": hx.Codes(string(sub.ID))})
				if twice {
					misuse(s, "second subscription", func() error { nt.CreateSubscription(); return nil })
				}
				created <- sub
				for _, ds := range goers {
					all.Add(1)
					go func() {
						defer all.Done()
						for _, d := range ds {
							delay(d)
							o := ops.next()
							r.Log(rec.Ev{"e": "NCall", "o": o, "s": s})
							res := caught(func() error { return nt.Notify(sub.ID, o) })
							r.Log(rec.Ev{"e": "NRet", "o": o, "ok": res})
						}
					}()
				}
				delay(d1)
				r.Log(rec.Ev{"e": "RCall", "s": s})
				h.Returned(nt)
				r.Log(rec.Ev{"e": "RRet", "s": s})
				if late {
					misuse(s, "second subscription", func() error { nt.CreateSubscription(); return nil })
				}
				if wrong {
					misuse(s, "notify with another ID", func() error { return nt.Notify(sub.ID+"0", 1) })
				}
				if unfit {
					misuse(s, "notify with what cannot be marshalled", func() error { return nt.Notify(sub.ID, make(chan int)) })
				}
				if bare { // a call that makes no subscription
					nb := h.Notifier("bare")
					h.Returned(nb)
					misuse(s, "subscription after the call", func() error { nb.CreateSubscription(); return nil })
				}
				delay(d2)
				if activate {
					r.Log(rec.Ev{"e": "ACall", "s": s})
					res := caught(func() error { return h.Activate(nt) })
					r.Log(rec.Ev{"e": "ARet", "s": s, "ok": res})
				}
				delay(d3)
				r.Log(rec.Ev{"e": "Stop", "s": s, "ctx": hx.Flag(ctx.Err() == nil)})
				procs.Done()
			})
			go func() {
				defer all.Done()
				sub := <-created
				for _, d := range unsubs {
					all.Add(1)
					go func() {
						defer all.Done()
						delay(d)
						o := ops.next()
						r.Log(rec.Ev{"e": "UCall", "o": o, "s": s})
						ok, err := h.Unsubscribe(sub.ID)
						res := hx.Flag(ok)
						if ok != (err == nil) || err != nil && err != rpc.ErrSubscriptionNotFound {
							res = 9
						}
						r.Log(rec.Ev{"e": "URet", "o": o, "res": res})
					}()
				}
				go func() {
					watch(r, s, sub.Err(), stop, func(err error) string { return fmt.Sprint(err) })
				}()
			}()
		}
		if r.P(50) {
			delay(r.N(spread * 3))
			o := ops.next()
			r.Log(rec.Ev{"e": "CCall", "o": o})
			h.Close(errPlanned, nil)
			r.Log(rec.Ev{"e": "CRet", "o": o})
		}
		procs.Wait()
		all.Wait()
		time.Sleep(time.Second)
		synctest.Wait()
		r.Log(rec.Ev{"e": "Quiet"})
		close(stop)
		synctest.Wait()
	})
}

// ---- the client's end ----

func what(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == rpc.ErrSubscriptionQueueOverflow:
		return "overflow"
	case err == errPlanned:
		return "lost"
	}
	if _, ok := err.(*json.UnmarshalTypeError); ok {
		return "unfit"
	}
	if err.Error() == "refused" {
		return "refused"
	}
	return err.Error()
}

func TestClient(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		n := 1 + r.N(3)
		caps := []int{}
		for s := 0; s < n; s++ {
			caps = append(caps, r.N(3))
		}
		r.Log(rec.Ev{"e": "Init", "n": n, "caps": caps})
		var ops counter
		spread := []int{1, 30, 150}[r.N(3)]
		h := rpc.VNewHandler(&rpc.VConn{}, nil)
		owner := map[*rpc.Client]int{}
		var inMsg atomic.Bool
		serverDelay := r.N(spread)
		rpc.StandinCall = func(c *rpc.Client) error {
			r.Log(rec.Ev{"e": "ServerUnsub", "s": owner[c]})
			delay(serverDelay)
			for k := 0; inMsg.Load(); k++ { // the answer comes after the message being handled
				if k == 1000 {
					r.Log(rec.Ev{"e": "Stuck"})
					break
				}
				delay(10)
			}
			r.Log(rec.Ev{"e": "ServerDone", "s": owner[c]})
			return nil
		}
		defer func() { rpc.StandinCall = nil }()
		var all sync.WaitGroup
		stop := make(chan int)
		subs := []*rpc.ClientSubscription{}
		started := make([]bool, n+1)
		for s := 1; s <= n; s++ {
			c := new(rpc.Client)
			owner[c] = s
			ch := make(chan int, caps[s-1])
			sub := rpc.VNewSub(c, "ns", ch)
			op := rpc.VNewOp([]string{fmt.Sprint(s)}, sub)
			subs = append(subs, sub)
			h.Add(op)
			var uds, rds []int
			for k := []int{0, 0, 1, 2}[r.N(4)]; k > 0; k-- {
				uds = append(uds, r.N(spread*4))
			}
			for k := 0; k < 5; k++ {
				rds = append(rds, r.N(spread))
			}
			lazy := r.P(15) // does not look at the error before the end
			all.Add(1)
			go func() {
				defer all.Done()
				for range op.Resp() {
				}
				r.Log(rec.Ev{"e": "OpEnd", "s": s, "v": what(op.Err())})
				if op.Err() != nil {
					return
				}
				started[s] = true
				for _, d := range uds {
					all.Add(1)
					go func() {
						defer all.Done()
						delay(d)
						o := ops.next()
						r.Log(rec.Ev{"e": "UCall", "o": o, "s": s})
						sub.Unsubscribe()
						r.Log(rec.Ev{"e": "URet", "o": o, "s": s})
					}()
				}
				go func() {
					if lazy {
						time.Sleep(time.Millisecond)
					}
					watch(r, s, sub.Err(), stop, what)
				}()
			}()
			go func() {
				for k := 0; ; k++ {
					var v int
					select {
					case v = <-ch:
					case <-stop:
						return
					}
					r.Log(rec.Ev{"e": "Recv", "s": s, "v": v})
					delay(rds[k%5])
				}
			}()
		}
		// plain requests
		type plain struct {
			op  *rpc.VOp
			ids []int
		}
		var plains []*plain
		nid := 100
		msg := func(format string, a ...interface{}) {
			var m rpc.VMsg
			if err := json.Unmarshal([]byte(fmt.Sprintf(format, a...)), &m); err != nil {
				panic(err)
			}
			inMsg.Store(true)
			ret := h.Immediate(&m)
			r.Log(rec.Ev{"e": "MRet", "ret": hx.Flag(ret)})
			inMsg.Store(false)
		}
		answered := map[int]bool{}
		val := 0
		closed := false
		for k := 5 + r.N(14); k > 0 && !closed; k-- {
			delay(r.N(spread))
			s := 1 + r.N(n)
			switch x := r.N(20); {
			case (x < 5 || r.P(50)) && !answered[s]:
				answered[s] = true
				switch r.N(8) {
				case 0:
					r.Log(rec.Ev{"e": "Resp", "s": s, "v": "refused"})
					msg(`{"jsonrpc":"2.0","id":%d,"error":{"code":-5,"message":"refused"}}`, s)
				case 1:
					r.Log(rec.Ev{"e": "Resp", "s": s, "v": "unfit"})
					msg(`{"jsonrpc":"2.0","id":%d,"result":5}`, s)
				default:
					r.Log(rec.Ev{"e": "Resp", "s": s, "v": "nil"})
					msg(`{"jsonrpc":"2.0","id":%d,"result":"0x%d"}`, s, s)
				}
			case x < 12:
				val++
				text, bad := fmt.Sprint(val), 0
				if r.P(7) {
					text, bad = `"text"`, 1
				}
				if r.P(8) {
					s = 9 // nobody's
				}
				r.Log(rec.Ev{"e": "Deliver", "s": s, "v": val, "bad": bad})
				msg(`{"jsonrpc":"2.0","method":"ns_subscription","params":{"subscription":"0x%d","result":%s}}`, s, text)
			case x < 14:
				p := &plain{}
				var ids []string
				for k := 1 + r.N(3); k > 0; k-- {
					nid++
					p.ids = append(p.ids, nid)
					ids = append(ids, fmt.Sprint(nid))
				}
				p.op = rpc.VNewOp(ids, nil)
				plains = append(plains, p)
				no := len(plains)
				r.Log(rec.Ev{"e": "Add", "p": no, "ids": p.ids})
				h.Add(p.op)
				go func() {
					for {
						select {
						case m, ok := <-p.op.Resp():
							if !ok {
								r.Log(rec.Ev{"e": "Over", "p": no, "v": what(p.op.Err())})
								return
							}
							r.Log(rec.Ev{"e": "Got", "p": no, "id": string(m.ID)})
						case <-stop:
							return
						}
					}
				}()
			case x < 15:
				k := r.N(6)
				r.Log(rec.Ev{"e": "Other", "takes": hx.Flag(k >= 4)})
				msg([]string{`{"jsonrpc":"2.0","id":1,"method":"ns_subscription","params":{"subscription":"0x1","result":1000}}`,
					`{"jsonrpc":"2.0","method":"ns_other","params":{"subscription":"0x1","result":1000}}`,
					`{"jsonrpc":"2.0","method":"subscription","params":{"subscription":"0x1","result":1000}}`,
					`{"jsonrpc":"2.0"}`,
					`{"jsonrpc":"2.0","method":"ns_subscription","params":"0x1"}`,
					`{"jsonrpc":"2.0","method":"ns_subscription"}`}[k])
			case x < 18 && nid > 100:
				id := 101 + r.N(nid-100)
				if r.P(10) {
					id = 999
				} else if answered[s] && r.P(10) {
					id = s
				}
				r.Log(rec.Ev{"e": "Answer", "id": fmt.Sprint(id), "n": id})
				msg(`{"jsonrpc":"2.0","id":%d,"result":1}`, id)
			case x == 18 && len(plains) > 0:
				p := r.N(len(plains))
				r.Log(rec.Ev{"e": "Remove", "p": p + 1, "ids": plains[p].ids})
				h.Remove(plains[p].op)
			case x == 19 && r.P(40):
				closed = true
			}
		}
		if closed || r.P(30) {
			err, name := errPlanned, "lost"
			if r.P(50) {
				err, name = rpc.ErrClientQuit, "quit"
			}
			var fly *rpc.VOp
			p := 0
			if len(plains) > 0 && r.P(50) {
				p = 1 + r.N(len(plains))
				fly = plains[p-1].op
			}
			o := ops.next()
			r.Log(rec.Ev{"e": "CCall", "o": o, "v": name, "p": p})
			inMsg.Store(true)
			h.Close(err, fly)
			inMsg.Store(false)
			r.Log(rec.Ev{"e": "CRet", "o": o})
		} else {
			for s := 1; s <= n; s++ {
				if !answered[s] {
					r.Log(rec.Ev{"e": "Resp", "s": s, "v": "refused"})
					msg(`{"jsonrpc":"2.0","id":%d,"error":{"code":-5,"message":"refused"}}`, s)
				}
			}
		}
		all.Wait()
		time.Sleep(time.Second)
		synctest.Wait()
		r.Log(rec.Ev{"e": "Quiet"})
		r.Log(rec.Ev{"e": "End"})
		close(stop)
		for s, sub := range subs { // let the goroutines end
			if started[s+1] {
				sub.Unsubscribe()
			}
		}
		synctest.Wait()
	})
}

// TestIDs gives records.
func TestIDs(t *testing.T) {
	rec.DrivePlain(t, func(r *rec.T) {
		for k := 0; k < 40; k++ {
			b := make([]byte, r.N(20))
			for j := range b {
				b[j] = byte(r.N(256))
				if r.P(30) {
					b[j] = byte(r.N(20))
				}
			}
			for j := 0; j < r.N(4) && j < len(b); j++ {
				b[j] = 0
			}
			r.Log(rec.Ev{"e": "Rec", "kind": "enc", "in": hx.Codes(b), "out": hx.Codes(string(rpc.VEncodeID(b)))})
		}
		if r.Index != 0 {
			return
		}
		// identifiers of many connections: the same is not given twice
		seen := map[rpc.ID]bool{}
		same, bad := 0, 0
		var mu sync.Mutex
		note := func(id rpc.ID) {
			mu.Lock()
			defer mu.Unlock()
			if seen[id] {
				same++
			}
			seen[id] = true
			if len(id) < 3 || id[:2] != "0x" || len(id) > 34 || id[2] == '0' {
				bad++
			}
		}
		for k := 0; k < 1500; k++ {
			g := rpc.VGenerator()
			note(g())
			note(g())
		}
		var wg sync.WaitGroup
		g := rpc.VGenerator()
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 1000; j++ {
					note(g())
					note(rpc.NewID())
				}
			}()
		}
		wg.Wait()
		r.Log(rec.Ev{"e": "Rec", "kind": "ids", "same": same, "bad": bad})
		// a subscriber that does not read
		h := rpc.VNewHandler(&rpc.VConn{}, nil)
		unsubs := 0
		rpc.StandinCall = func(*rpc.Client) error { unsubs++; return nil }
		ch := make(chan int)
		sub := rpc.VNewSub(new(rpc.Client), "ns", ch)
		op := rpc.VNewOp([]string{"1"}, sub)
		h.Add(op)
		h.Immediate(&rpc.VMsg{Version: "2.0", ID: json.RawMessage("1"), Result: json.RawMessage(`"0x1"`)})
		first := 0
		for k := 1; k <= 20003; k++ {
			h.Immediate(&rpc.VMsg{Version: "2.0", Method: "ns_subscription", Params: json.RawMessage(fmt.Sprintf(`{"subscription":"0x1","result":%d}`, k))})
			if first == 0 && k >= 19999 {
				select {
				case err := <-sub.Err():
					if err == rpc.ErrSubscriptionQueueOverflow {
						first = k
					} else {
						first = -1
					}
				case <-time.After(200 * time.Millisecond):
				}
			}
		}
		sub.Unsubscribe()
		_, open := <-sub.Err()
		r.Log(rec.Ev{"e": "Rec", "kind": "overflow", "first": first, "unsubs": unsubs, "open": hx.Flag(open)})
	})
}
