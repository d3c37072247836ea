// Package rpcsrv drives the life of an RPC server.
package rpcsrv

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"flychain/rpc"
	"verifharness/hx"
	"verifharness/rec"
)

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		n := 1 + r.N(4)
		r.Log(rec.Ev{"e": "Init", "n": n})
		s := rpc.NewServer()
		var mu sync.Mutex
		next := 0
		op := func() int {
			mu.Lock()
			defer mu.Unlock()
			next++
			return next
		}
		spread := []int{1, 30, 150}[r.N(3)]
		slow := r.N(4)
		var codecs []*rpc.VCodec
		for c := 1; c <= n; c++ {
			codecs = append(codecs, &rpc.VCodec{OnClose: func() {
				r.Log(rec.Ev{"e": "Close", "c": c})
				time.Sleep(time.Duration(slow))
			}})
		}
		var wg sync.WaitGroup
		do := func(f func(pause func())) {
			ds := []int{r.N(spread), r.N(spread), r.N(spread), r.N(spread), r.N(spread), r.N(spread)}
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := 0
				f(func() { time.Sleep(time.Duration(ds[k%6])); k++ })
			}()
		}
		for c := 1; c <= n; c++ { // a connection is tracked while it is served
			times := 1 + r.N(2)
			un := r.P(70)
			do(func(pause func()) {
				for k := 0; k < times; k++ {
					pause()
					o := op()
					r.Log(rec.Ev{"e": "TCall", "o": o, "c": c})
					ok := rpc.VTrack(s, codecs[c-1])
					r.Log(rec.Ev{"e": "TRet", "o": o, "ok": hx.Flag(ok)})
					pause()
					if !un {
						return
					}
					o = op()
					r.Log(rec.Ev{"e": "UCall", "o": o, "c": c})
					rpc.VUntrack(s, codecs[c-1])
					r.Log(rec.Ev{"e": "URet", "o": o})
				}
			})
		}
		for k := r.N(3); k > 0; k-- { // requests over a connection of their own
			kind := r.N(3)
			do(func(pause func()) {
				pause()
				o := op()
				c := &rpc.VCodec{OnClose: func() { r.Log(rec.Ev{"e": "Close", "c": 99}) }}
				c.Read = func() ([]*rpc.VMsg, bool, error) {
					r.Log(rec.Ev{"e": "Read", "o": o})
					pause()
					switch kind {
					case 0:
						return nil, false, io.EOF
					case 1:
						return nil, true, io.ErrUnexpectedEOF
					}
					return nil, false, errors.New("x")
				}
				c.Write = func(v interface{}, isErr bool) error {
					b, _ := json.Marshal(v)
					var x interface{}
					if json.Unmarshal(b, &x) == nil {
						b, _ = json.Marshal(x)
					}
					r.Log(rec.Ev{"e": "W", "o": o, "doc": hx.Codes(b), "err": hx.Flag(isErr)})
					return nil
				}
				r.Log(rec.Ev{"e": "QCall", "o": o, "kind": kind})
				rpc.VServe(s, c)
				r.Log(rec.Ev{"e": "QRet", "o": o})
			})
		}
		for k := []int{0, 1, 1, 2}[r.N(4)]; k > 0; k-- {
			do(func(pause func()) {
				pause()
				pause()
				o := op()
				r.Log(rec.Ev{"e": "SCall", "o": o})
				s.Stop()
				r.Log(rec.Ev{"e": "SRet", "o": o})
			})
		}
		if r.P(30) { // a client's connection
			h := rpc.VNewHandler(&rpc.VConn{}, nil)
			procs := r.N(3)
			ds := []int{r.N(spread), r.N(spread)}
			for k := 0; k < procs; k++ {
				h.Go(func(context.Context) {
					time.Sleep(time.Duration(ds[k]))
					r.Log(rec.Ev{"e": "ProcEnd"})
				})
			}
			r.Log(rec.Ev{"e": "CCall", "procs": procs})
			rpc.VCloseConn(h, &rpc.VCodec{OnClose: func() { r.Log(rec.Ev{"e": "CClose"}) }}, io.EOF)
			r.Log(rec.Ev{"e": "CRet"})
		}
		wg.Wait()
		time.Sleep(time.Second)
		synctest.Wait()
		r.Log(rec.Ev{"e": "Quiet"})
	})
}
