// Package bigmath runs the functions of common/math.
package bigmath

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"flychain/common"
	"flychain/common/math"
	"verifharness/hx"
	"verifharness/rec"
)

type B = *big.Int

func num(r *rec.T, bits int, neg bool) B {
	x := hx.Big(r, bits)
	if neg && r.P(25) {
		x.Neg(x)
	}
	return x
}

// op logs a call with its arguments; it tells whether an argument changed.
func op(r *rec.T, name string, x, y B, n int, f func(ev rec.Ev)) {
	ev := rec.Ev{"e": "Rec", "op": name, "n": n, "panic": 0, "x": hx.Int(x)}
	var kx, ky B
	if x != nil {
		kx = new(big.Int).Set(x)
	}
	if y != nil {
		ky = new(big.Int).Set(y)
		ev["y"] = hx.Int(y)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				ev["panic"] = 1
			}
		}()
		f(ev)
	}()
	ev["argsok"] = hx.Flag((x == nil || x.Cmp(kx) == 0) && (y == nil || y.Cmp(ky) == 0))
	r.Log(ev)
}

func numText(r *rec.T) string {
	x := hx.Big(r, []int{16, 64, 256, 256, 258, 300}[r.N(6)])
	s := ""
	switch r.N(4) {
	case 0:
		s = []string{"0x", "0X"}[r.N(2)] + fmt.Sprintf([]string{"%x", "%X", "00%x"}[r.N(3)], x)
	case 1:
		s = "0x" + x.Text(16)
	default:
		s = []string{"", "", "", "+", "-", "0"}[r.N(6)] + x.Text(10)
	}
	if r.P(25) {
		k := r.N(len(s) + 1)
		s = s[:k] + []string{"g", "_", " ", "a", "x", "\xff", ".", "e", "/", ":"}[r.N(10)] + s[k:]
	}
	if r.P(3) {
		s = []string{"", "0x", "0X", "-", "+", "0", "x", "--1", "00"}[r.N(9)]
	}
	if len(s) > 2 && (s[:2] == "0x" || s[:2] == "0X") && (s[2] == '-' || s[2] == '+') {
		s = "0x1"
	}
	return s
}

func TestDrive(t *testing.T) {
	heavy := rec.Env("VDRV_HEAVY", 10)
	rec.DrivePure(t, func(r *rec.T) {
		huge := r.P(3) // far beyond what the functions are usually given
		wide := func(n int) int {
			if huge {
				return n * (2 + r.N(4))
			}
			return n
		}
		x, y := num(r, wide(300), true), num(r, wide(300), true)
		if r.P(15) {
			y = new(big.Int).Set(x)
		}
		op(r, "Max", x, y, 0, func(e rec.Ev) { e["r"] = hx.Int(math.BigMax(x, y)) })
		op(r, "Min", x, y, 0, func(e rec.Ev) { e["r"] = hx.Int(math.BigMin(x, y)) })
		x = num(r, wide(520), true)
		op(r, "FirstBitSet", x, nil, 0, func(e rec.Ev) { e["n"] = math.FirstBitSet(x) })
		x = num(r, wide(600), true)
		e1 := rec.Ev{"x": hx.Int(x)}
		z := new(big.Int).Set(x)
		op(r, "U256", nil, nil, 0, func(e rec.Ev) {
			res := math.U256(z)
			e["x"], e["r"], e["same"] = e1["x"], hx.Int(res), hx.Flag(res == z || res.Cmp(z) == 0)
		})
		z2 := new(big.Int).Set(x)
		op(r, "U256Bytes", nil, nil, 0, func(e rec.Ev) { e["x"], e["b"] = e1["x"], hx.Codes(math.U256Bytes(z2)) })
		x = num(r, 256, false)
		op(r, "S256", x, nil, 0, func(e rec.Ev) { e["r"] = hx.Int(math.S256(x)) })
		x = num(r, wide(600), false)
		n := r.N(wide(80))
		if r.P(50) {
			n = max(0, (x.BitLen()+7)/8+r.N(5)-2)
		}
		op(r, "Padded", x, nil, n, func(e rec.Ev) { e["b"] = hx.Codes(math.PaddedBigBytes(x, n)) })
		op(r, "ReadBits", x, nil, n, func(e rec.Ev) { b := make([]byte, n); math.ReadBits(x, b); e["b"] = hx.Codes(b) })
		op(r, "Bytes", x, nil, n, func(e rec.Ev) {
			b := make([]int, n+3)
			for k := range b {
				b[k] = int(math.Byte(x, n, k))
			}
			e["b"] = b
		})
		if r.N(100) < heavy {
			x, y = num(r, 300, false), hx.Big(r, []int{8, 20, 64, 130, 256, 300}[r.N(6)])
			if r.P(40) {
				x = big.NewInt(int64(r.N(7)))
			}
			if r.P(10) {
				x.Neg(x)
			}
			op(r, "Exp", x, y, 0, func(e rec.Ev) { e["r"] = hx.Int(math.Exp(x, y)) })
		}
		a := int64(r.N(41) - 20)
		if r.P(30) {
			a = r.Rng.Int64()
			if r.P(50) {
				a = -a
			}
		}
		k := r.N(60)
		if a == 2 {
			k = r.N(400)
		}
		op(r, "BigPow", big.NewInt(a), nil, k, func(e rec.Ev) { e["r"] = hx.Int(math.BigPow(a, int64(k))) })
		s := numText(r)
		op(r, "Parse", nil, nil, 0, func(e rec.Ev) {
			e["s"] = hx.Codes(s)
			rs := []rec.Ev{}
			add := func(v B, ok bool) {
				if !ok {
					v = nil
				}
				rs = append(rs, rec.Ev{"ok": hx.Flag(ok), "v": hx.Int(v)})
			}
			v, ok := math.ParseBig256(s)
			add(v, ok)
			h := math.NewHexOrDecimal256(77)
			err := h.UnmarshalText([]byte(s))
			add((B)(h), err == nil)
			d := math.NewDecimal256(77)
			err = d.UnmarshalText([]byte(s))
			add((B)(d), err == nil)
			var h2 math.HexOrDecimal256
			q, _ := json.Marshal(s)
			if json.Valid(q) && json.Unmarshal(q, new(string)) == nil {
				var back string
				json.Unmarshal(q, &back)
				if back == s {
					err = json.Unmarshal(q, &h2)
					add((B)(&h2), err == nil)
				}
			}
			e["rs"] = rs
		})
		x = num(r, 256, true)
		op(r, "Print", x, nil, 0, func(e rec.Ev) {
			d := math.Decimal256(*x)
			mt, _ := d.MarshalText()
			dec, hex := [][]int{hx.Codes(d.String()), hx.Codes(mt)}, [][]int{}
			if x.Sign() >= 0 {
				h := math.HexOrDecimal256(*x)
				mt, _ = h.MarshalText()
				hex = append(hex, hx.Codes(mt))
			}
			if x.IsInt64() {
				mt, _ = math.NewDecimal256(x.Int64()).MarshalText()
				dec = append(dec, hx.Codes(mt))
				if x.Sign() >= 0 {
					mt, _ = math.NewHexOrDecimal256(x.Int64()).MarshalText()
					hex = append(hex, hx.Codes(mt))
				}
			}
			if x.Sign() == 0 {
				var nd *math.Decimal256
				var nh *math.HexOrDecimal256
				mt, _ = nh.MarshalText()
				dec, hex = append(dec, hx.Codes(nd.String())), append(hex, hx.Codes(mt))
			}
			e["dec"], e["hex"] = dec, hex
		})
		if r.P(5) { // the shared numbers are still what they are called
			op(r, "Const", nil, nil, 0, func(e rec.Ev) {
				c := func(v B, bit, minus1, n int) rec.Ev { return rec.Ev{"v": hx.Int(v), "bit": bit, "minus1": minus1, "n": n} }
				e["cs"] = []rec.Ev{c(math.MaxBig256, 256, 1, 0), c(math.MaxBig63, 63, 1, 0), c(common.Big0, -1, 0, 0), c(common.Big1, -1, 0, 1), c(common.Big2, -1, 0, 2),
					c(common.Big3, -1, 0, 3), c(common.Big32, -1, 0, 32), c(common.Big256, -1, 0, 256), c(common.Big257, -1, 0, 257)}
			})
		}
	})
}
