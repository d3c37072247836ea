// Package bytesx runs the byte-string helpers of package common.
package bytesx

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"flychain/common"
	"flychain/common/hexutil"
	"verifharness/hx"
	"verifharness/rec"
)

// inside gives b as a part of a bigger array whose other bytes are not zero.
func inside(r *rec.T, b []byte) (whole, part []byte) {
	lo, hi := r.N(3), r.N(80)
	whole = make([]byte, lo+len(b)+hi)
	for i := range whole {
		whole[i] = byte(1 + i%250)
	}
	copy(whole[lo:], b)
	part = whole[lo : lo+len(b)]
	if r.P(30) {
		part = part[:len(b):len(b)]
	}
	return whole, part
}

func call(r *rec.T, op string, in []byte, n int, f func() ([]byte, error)) {
	ev := rec.Ev{"e": "Rec", "op": op, "in": hx.Codes(in), "n": n, "out": []int{}, "err": "", "nil": 0, "memok": 1, "panic": 0}
	defer func() {
		if p := recover(); p != nil {
			ev["panic"] = 1
		}
		r.Log(ev)
	}()
	out, err := f()
	ev["out"], ev["nil"] = hx.Codes(out), hx.Flag(out == nil)
	for _, e := range []struct {
		err  error
		name string
	}{{hexutil.ErrEmptyString, "Empty"}, {hexutil.ErrSyntax, "Syntax"}, {hexutil.ErrMissingPrefix, "NoPrefix"}, {hexutil.ErrOddLength, "Odd"}} {
		if errors.Is(err, e.err) {
			ev["err"] = e.name
		}
	}
	if err == errMem {
		ev["memok"] = 0
	} else if err != nil && ev["err"] == "" {
		ev["err"] = err.Error()
	}
}

var errMem = errors.New("memory")

func onBytes(r *rec.T, op string, b []byte, n int, f func([]byte) []byte, fresh bool) {
	whole, part := inside(r, b)
	keep := append([]byte(nil), whole...)
	if b == nil {
		part = nil
	}
	call(r, op, b, n, func() ([]byte, error) {
		out := f(part)
		var err error
		if !bytes.Equal(whole, keep) {
			err = errMem
		}
		if fresh { // neither may see writes to the other
			o := append(make([]byte, 0), out...)
			for i := range out {
				out[i] ^= 0xff
			}
			if !bytes.Equal(whole, keep) {
				err = errMem
			}
			copy(out, o)
			for i := range whole {
				whole[i] ^= 0xff
			}
			if !bytes.Equal(out, o) {
				err = errMem
			}
			if out != nil {
				out = o
			}
		}
		return append(out[:0:0], out...), err
	})
}

func hexText(r *rec.T) string {
	n := r.N([]int{4, 12, 70}[r.N(3)])
	s := ""
	al := []string{"0123456789abcdef", "0123456789abcdefABCDEF", "00f", "0"}[r.N(4)]
	for k := 0; k < n; k++ {
		s += string(al[r.N(len(al))])
	}
	s = []string{"0x", "0X", "", ""}[r.N(4)] + s
	if r.P(20) && len(s) > 0 {
		k := r.N(len(s))
		s = s[:k] + []string{"g", "x", " ", "\xff", "é", "0x", "-"}[r.N(7)] + s[k+r.N(2):]
	}
	return s
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 4; k++ {
			n := r.N([]int{3, 9, 40, 70}[r.N(4)])
			big := r.P(1)
			if big {
				n = []int{127, 128, 129, 255, 256, 257, 1000, 1024, 2000, 4097}[r.N(10)]
			}
			b := hx.Bytes(r, n)
			n = len(b) + r.N(9) - 4
			if r.P(30) {
				n = []int{0, 1, 8, 32, 33, -1, 64, 100}[r.N(8)]
				if r.P(3) {
					n = []int{-1 << 40, 256, 512, 1024, 3000}[r.N(5)]
				}
			}
			if r.P(5) {
				b = nil
			}
			onBytes(r, "LeftPad", b, n, func(b []byte) []byte { return common.LeftPadBytes(b, n) }, false)
			onBytes(r, "RightPad", b, n, func(b []byte) []byte { return common.RightPadBytes(b, n) }, false)
			onBytes(r, "TrimLeft", b, 0, common.TrimLeftZeroes, false)
			onBytes(r, "TrimRight", b, 0, common.TrimRightZeroes, false)
			onBytes(r, "Copy", b, 0, common.CopyBytes, true)
			onBytes(r, "Bytes2Hex", b, 0, func(b []byte) []byte { return []byte(common.Bytes2Hex(b)) }, false)
			s := hexText(r)
			if big {
				s = []string{"0x", ""}[r.N(2)] + fmt.Sprintf("%x", hx.Bytes(r, 1+r.N(3000)))[r.N(2):]
			}
			flen := len(s)/2 + r.N(7) - 3
			if flen < 0 || r.P(20) {
				flen = []int{0, 1, 20, 32}[r.N(4)]
			}
			call(r, "FromHex", []byte(s), 0, func() ([]byte, error) { return common.FromHex(s), nil })
			call(r, "Hex2Bytes", []byte(s), 0, func() ([]byte, error) { return common.Hex2Bytes(s), nil })
			call(r, "Hex2BytesFixed", []byte(s), flen, func() ([]byte, error) { return common.Hex2BytesFixed(s, flen), nil })
			call(r, "ParseHexOrString", []byte(s), 0, func() ([]byte, error) { return common.ParseHexOrString(s) })
		}
	})
}
