// Package pretty runs the printing of sizes, durations and ages.
package pretty

import (
	"fmt"
	"math"
	"math/big"
	"testing"
	"time"

	"flychain/common"
	"verifharness/hx"
	"verifharness/rec"
)

// size picks a non-negative float and gives it as m / 2^q exactly.
func size(r *rec.T) float64 {
	unit := math.Pow(1024, float64(r.N(6)))
	var f float64
	switch r.N(7) {
	case 0:
		f = float64(r.N(5000)) * unit / 4
	case 1: // just around a unit
		f = unit
		for k := r.N(3); k > 0; k-- {
			f = math.Nextafter(f, 0)
		}
		for k := r.N(3); k > 0; k-- {
			f = math.Nextafter(f, math.Inf(1))
		}
	case 2: // ties of the second decimal
		f = (float64(r.N(1024)) + float64(1+2*r.N(4))/8) * unit
	case 3:
		f = unit*1024 - float64(r.N(30))*unit/8
	case 4:
		f = r.Rng.Float64() * unit * 1024
	case 5:
		f = float64(r.N(100000))
	default:
		f = math.Float64frombits(uint64(r.N(1<<30))<<33 | uint64(r.N(1<<33)))
		if math.IsNaN(f) || math.IsInf(f, 0) || f > 1e300 {
			f = 1e18
		}
		f = math.Mod(f, 1e20)
	}
	if f < 0 || f > 1e24 || (f > 0 && f < 1e-9) {
		f = 0.125
	}
	return f
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 12; k++ {
			f := size(r)
			bf := new(big.Float).SetFloat64(f)
			m, q := new(big.Int), 0
			if f != 0 {
				mant := new(big.Float)
				exp := bf.MantExp(mant) // f = mant * 2^exp, mant in [0.5, 1)
				mant.SetMantExp(mant, 53)
				mant.Int(m)
				q = 53 - exp
				if q < 0 {
					m.Lsh(m, uint(-q))
					q = 0
				}
				for q > 0 && m.Bit(0) == 0 {
					m.Rsh(m, 1)
					q--
				}
			}
			if q > 70 {
				continue
			}
			s := common.StorageSize(f)
			r.Log(rec.Ev{"e": "Rec", "op": "size", "m": hx.Limbs(m), "q": q, "val": fmt.Sprintf("%g", f), "out": hx.Codes(s.String()), "term": hx.Codes(s.TerminalString())})
		}
		for k := 0; k < 12; k++ {
			var d int64
			p := int64(1)
			for j := r.N(18); j > 0; j-- {
				p *= 10
			}
			switch r.N(5) {
			case 0:
				d = r.Rng.Int64N(10*p/2+1) + p
			case 1:
				d = p * int64(r.N(9))
			case 2:
				d = p*int64(r.N(9)) + int64(r.N(3)-1)
			case 3:
				d = []int64{3600e9, 60e9, 1e9, 1e6, 1e3, 86400e9}[r.N(6)]*int64(r.N(100)) + p%1e12*int64(r.N(10))
			default:
				d = int64(r.Rng.Uint64() >> uint(r.N(60)))
			}
			if r.P(15) {
				d = -d
			}
			if r.P(2) {
				d = []int64{math.MaxInt64, math.MinInt64 + 1, 0, 1, -1}[r.N(5)]
			}
			b := new(big.Int).Abs(big.NewInt(d))
			r.Log(rec.Ev{"e": "Rec", "op": "dur", "neg": hx.Flag(d < 0), "d": hx.Limbs(b), "val": time.Duration(d).String(), "out": hx.Codes(common.PrettyDuration(d).String())})
		}
		for k := 0; k < 12; k++ {
			var age time.Duration
			for _, u := range []struct {
				s time.Duration
				n int
			}{{360 * 24 * time.Hour, 250}, {30 * 24 * time.Hour, 11}, {7 * 24 * time.Hour, 4}, {24 * time.Hour, 6}, {time.Hour, 23}, {time.Minute, 59}, {time.Second, 59}} {
				switch r.N(4) {
				case 0:
					age += u.s
				case 1:
					age += u.s * time.Duration(r.N(u.n+1))
				}
			}
			if r.P(20) {
				age = time.Duration(r.Rng.Int64N(int64(age) + int64(time.Second)))
			}
			if r.P(5) {
				age = -age
			}
			age = age.Truncate(time.Second) + 500*time.Millisecond // far from the next second
			var out string
			var lo, hi time.Duration
			for try := 0; try < 20; try++ {
				at := time.Now().Add(-age)
				if r.P(50) {
					at = at.Round(0).UTC()
				}
				lo = time.Since(at)
				out = common.PrettyAge(at).String()
				hi = time.Since(at)
				if lo.Truncate(time.Second) == hi.Truncate(time.Second) {
					break
				}
			}
			if lo.Truncate(time.Second) != hi.Truncate(time.Second) || (lo < 0) != (hi < 0) {
				continue
			}
			sec := int64(lo / time.Second)
			if lo < 0 {
				sec = 0
			}
			r.Log(rec.Ev{"e": "Rec", "op": "age", "days": sec / 86400, "secs": sec % 86400, "out": hx.Codes(out)})
		}
	})
}
