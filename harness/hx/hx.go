// Package hx turns values into the shape the specifications read.
package hx

import (
	"math/big"

	"verifharness/rec"
)

// Codes gives the bytes of a string.
func Codes[S ~string | ~[]byte](s S) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

// Flag is 1 for true.
func Flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Nibbles gives the hexadecimal digits of |n|, most significant first, none for zero.
func Nibbles(n *big.Int) []int {
	out := []int{}
	if n == nil || n.Sign() == 0 {
		return out
	}
	for _, c := range []byte(new(big.Int).Abs(n).Text(16)) {
		if c <= '9' {
			out = append(out, int(c-'0'))
		} else {
			out = append(out, int(c-'a'+10))
		}
	}
	return out
}

// Limbs gives |n| as base 4096 digits, least significant first, no leading zeros.
func Limbs(n *big.Int) []int {
	out := []int{}
	if n == nil {
		return out
	}
	x := new(big.Int).Abs(n)
	m := big.NewInt(4095)
	for x.Sign() > 0 {
		out = append(out, int(new(big.Int).And(x, m).Int64()))
		x.Rsh(x, 12)
	}
	return out
}

// Int is a signed number.
func Int(n *big.Int) rec.Ev {
	if n == nil {
		return rec.Ev{"neg": 0, "m": []int{}, "nil": 1}
	}
	return rec.Ev{"neg": Flag(n.Sign() < 0), "m": Limbs(n), "nil": 0}
}

// Bytes gives n random bytes of a random style.
func Bytes(r *rec.T, n int) []byte {
	b := make([]byte, n)
	switch r.N(5) {
	case 0: // zeros with a few others
		for k := r.N(3); k > 0 && n > 0; k-- {
			b[r.N(n)] = byte(r.N(256))
		}
	case 1:
		for i := range b {
			b[i] = []byte{0, 255, 128, 1, 127}[r.N(5)]
		}
	default:
		for i := range b {
			b[i] = byte(r.N(256))
		}
		if n > 0 && r.P(30) {
			for i := r.N(n); i >= 0; i-- {
				b[i] = 0
			}
		}
		if n > 0 && r.P(30) {
			for i := r.N(n); i < n; i++ {
				b[i] = 0
			}
		}
	}
	return b
}

// Big gives a random non-negative number of at most about bits bits, often at an interesting boundary.
func Big(r *rec.T, bits int) *big.Int {
	one := big.NewInt(1)
	n := r.N(bits + 1)
	if r.P(40) {
		c := []int{0, 1, 2, 7, 8, 9, 12, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 191, 192, 193, 224, 255, 256, 257, 320, 511, 512, 513}
		n = c[r.N(len(c))]
		if n > bits {
			n = bits
		}
	}
	x := new(big.Int)
	switch r.N(6) {
	case 0:
		x.Lsh(one, uint(n))
	case 1:
		x.Sub(x.Lsh(one, uint(n)), one)
	case 2:
		x.Add(x.Lsh(one, uint(n)), one)
	case 3: // sparse
		for k := r.N(4); k >= 0 && n > 0; k-- {
			x.SetBit(x, r.N(n), 1)
		}
	default:
		for k := 0; k < n; k++ {
			x.SetBit(x, k, uint(r.N(2)))
		}
		if r.P(30) && n > 0 {
			x.Lsh(x, uint(r.N(n)))
		}
	}
	for x.BitLen() > bits {
		x.Rsh(x, 1)
	}
	return x
}
