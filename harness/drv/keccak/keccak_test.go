// Package keccak runs programs over several hash objects of crypto/sha3.
package keccak

import (
	"bytes"
	"hash"
	"testing"

	"flychain/crypto/sha3"
	"verifharness/hx"
	"verifharness/rec"
)

var algs = []struct {
	n int
	f func() hash.Hash
}{{28, sha3.NewKeccak224}, {32, sha3.NewKeccak256}, {48, sha3.NewKeccak384}, {64, sha3.NewKeccak512}}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		type obj struct {
			h  hash.Hash
			in int // bytes since the last reset
			n  int
		}
		var ops []rec.Ev
		var objs []*obj
		open := func(a int) *obj {
			o := &obj{algs[a].f(), 0, algs[a].n}
			objs = append(objs, o)
			ops = append(ops, rec.Ev{"op": "new", "o": len(objs), "n": algs[a].n, "size": o.h.Size(), "block": o.h.BlockSize()})
			return o
		}
		id := func(o *obj) int {
			for k := range objs {
				if objs[k] == o {
					return k + 1
				}
			}
			return 0
		}
		write := func(o *obj, p []byte) {
			keep := append([]byte(nil), p...)
			n, err := o.h.Write(p)
			o.in += len(p)
			ops = append(ops, rec.Ev{"op": "write", "o": id(o), "b": hx.Codes(keep), "ok": hx.Flag(n == len(keep) && err == nil && bytes.Equal(p, keep))})
			for i := range p { // the hash must have its own copy
				p[i] ^= 0xff
			}
		}
		sum := func(o *obj) {
			pre := hx.Bytes(r, r.N(4)*r.N(12))
			buf := make([]byte, len(pre), len(pre)+[]int{0, 1, 31, 32, 64, 100}[r.N(6)])
			copy(buf, pre)
			out := o.h.Sum(buf)
			if len(pre) == 0 && r.P(50) {
				out = o.h.Sum(nil)
			}
			ops = append(ops, rec.Ev{"op": "sum", "o": id(o), "pre": hx.Codes(pre), "out": hx.Codes(out), "ok": hx.Flag(bytes.Equal(buf, pre))})
		}
		size := func(o *obj) int { // amounts around lane and block boundaries
			rate := 200 - 2*o.n
			switch r.N(8) {
			case 0:
				return 0
			case 1, 2:
				return r.N(17)
			case 3:
				return rate - o.in%rate + r.N(3) - 1
			case 4:
				return rate + r.N(19) - 9
			case 5:
				return 8 * r.N(20)
			default:
				return r.N(2 * rate)
			}
		}
		if r.Index < 4*220 { // one object, every length up to 219, in two writes cut anywhere
			o := open(r.Index % 4)
			p := hx.Bytes(r, r.Index/4)
			cut := r.N(len(p) + 1)
			if r.P(30) {
				cut = 0
			}
			write(o, p[:cut:cut])
			write(o, p[cut:])
			sum(o)
		} else if r.Index == 4*220+r.Index%8*97 { // a few long messages
			n := []int{2000, 5000, 4*136 + 1, 8 * 72, 17 * 104, 66000, 10 * 136, 300}[r.Index%8]
			o := open(r.N(4))
			if n == 66000 {
				o = open(3-r.Index%2*2)
			}
			for n > 0 {
				k := []int{n, 1 + r.N(4000), 1 + r.N(20000)}[r.N(3)]
				k = min(k, n)
				write(o, hx.Bytes(r, k))
				n -= k
			}
			sum(o)
		} else {
			for k := 1 + r.N(3); k > 0; k-- {
				open(r.N(4))
			}
			total := 0
			for k := 3 + r.N(10); k > 0; k-- {
				o := objs[r.N(len(objs))]
				switch r.N(10) {
				case 0, 1:
					if total < 6 {
						total++
						sum(o)
					}
				case 2:
					if r.P(40) {
						o.h.Reset()
						o.in = 0
						ops = append(ops, rec.Ev{"op": "reset", "o": id(o)})
					}
				default:
					n := size(o)
					if n < 0 || o.in+n > 700 {
						n = r.N(9)
					}
					if n > 2 && r.P(30) { // in small pieces
						for _, p := range [][]byte{hx.Bytes(r, n/3), hx.Bytes(r, 1), hx.Bytes(r, n-n/3-1)} {
							write(o, p)
						}
					} else {
						write(o, hx.Bytes(r, n))
					}
				}
			}
			for _, o := range objs {
				sum(o)
			}
		}
		r.Log(rec.Ev{"e": "Rec", "ops": ops})
	})
}
