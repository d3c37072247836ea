// Package blockparam runs the block parameters of the RPC package.
package blockparam

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"flychain/common"
	"flychain/rpc"
	"verifharness/hx"
	"verifharness/rec"
)

func nibbles(s string) []int {
	out := make([]int, len(s))
	for k := range out {
		out[k] = strings.IndexByte("0123456789abcdef", s[k])
	}
	return out
}

func word(n rpc.BlockNumber) []int { return nibbles(fmt.Sprintf("%016x", uint64(n))) }

func number(r *rec.T) rpc.BlockNumber {
	switch r.N(6) {
	case 0:
		return rpc.BlockNumber(r.N(6) - 4)
	case 1:
		return rpc.BlockNumber(1<<uint(r.N(63))) - rpc.BlockNumber(r.N(2))
	case 2:
		return 1<<63 - 1 - rpc.BlockNumber(r.N(3))
	}
	return rpc.BlockNumber(r.Rng.Uint64() >> uint(1+r.N(63)))
}

var names = []string{"earliest", "latest", "pending", "finalized", "safe"}

func hexes(r *rec.T, n int, alphabet string) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = alphabet[r.N(len(alphabet))]
	}
	return string(b)
}

const digits = "0123456789abcdefABCDEF"

// damage changes a text a little.
func damage(r *rec.T, s string) string {
	for k := r.N(3); k > 0; k-- {
		p := r.N(len(s) + 1)
		switch r.N(4) {
		case 0:
			s = s[:p] + string(" 0gx-+.LX/:@G`"[r.N(14)]) + s[p:]
		case 1:
			if p < len(s) {
				s = s[:p] + s[p+1:]
			}
		case 2:
			if p < len(s) {
				s = s[:p] + string("0gXx l_9"[r.N(8)]) + s[p+1:]
			}
		case 3:
			s = strings.ToUpper(s[:p]) + s[p:]
		}
	}
	return s
}

// text is what a string parameter may hold.
func text(r *rec.T) string {
	s := names[r.N(5)]
	switch r.N(7) {
	case 0:
	case 1:
		s = fmt.Sprintf("0x%x", uint64(number(r)))
	case 2:
		s = "0x" + hexes(r, r.N(20), digits)
	case 3:
		s = "0x" + strings.Repeat("0", r.N(3)) + hexes(r, 15+r.N(3), digits)
	case 4, 5:
		s = hash(r)
	case 6:
		s = []string{"", "0x", "0x0", "0X1", "x", "0x8000000000000000", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000", "12", "-0x1", "null", "0"}[r.N(13)]
	}
	if r.P(25) {
		s = damage(r, s)
	}
	return s
}

func hash(r *rec.T) string {
	n := 64
	if r.P(20) {
		n += r.N(5) - 2
	}
	return []string{"0x", "0x", "0x", "0X", "", "00"}[r.N(6)] + hexes(r, n, digits)
}

// doc is a JSON text.
func doc(r *rec.T, object bool) string {
	ws := func() string { return []string{"", "", "", " ", "\n\t"}[r.N(5)] }
	s := ""
	switch {
	case r.P(5):
		s = []string{"true", "5", "[]", `["latest"]`, "-1", "1e3", "false", "0"}[r.N(8)]
	case object && r.P(55):
		var ms []string
		if r.P(50) {
			v := `"` + text(r) + `"`
			if r.P(10) {
				v = []string{"null", "7", "{}", "[]"}[r.N(4)]
			}
			ms = append(ms, `"blockNumber"`+ws()+":"+ws()+v)
		}
		if r.P(50) {
			v := `"` + hash(r) + `"`
			if r.P(10) {
				v = []string{"null", "7", "{}", `"latest"`}[r.N(4)]
			}
			ms = append(ms, `"blockHash":`+ws()+v)
		}
		if r.P(50) {
			ms = append(ms, `"requireCanonical":`+[]string{"true", "false", "true", "false", "null", "1", `"true"`}[r.N(7)])
		}
		if r.P(15) {
			ms = append(ms, `"other":`+[]string{"1", `{"blockNumber":"0x1"}`}[r.N(2)])
		}
		r.Rng.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
		s = "{" + ws() + strings.Join(ms, ws()+","+ws()) + "}"
	default:
		s = `"` + text(r) + `"`
	}
	return ws() + s + ws()
}

func flat(ref *rpc.BlockNumberOrHash) (num, hash []int, canon int) {
	num, hash = []int{}, []int{}
	if n, ok := ref.Number(); ok {
		num = word(n)
	} else if n != 0 {
		num = []int{99}
	}
	if h, ok := ref.Hash(); ok {
		hash = nibbles(fmt.Sprintf("%x", h[:]))
	} else if h != (common.Hash{}) {
		hash = []int{99}
	}
	return num, hash, hx.Flag(ref.RequireCanonical)
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 20; k++ {
			old := number(r)
			d := doc(r, false)
			n := old
			err := json.Unmarshal([]byte(d), &n)
			r.Log(rec.Ev{"e": "Rec", "kind": "num", "doc": hx.Codes(d), "ok": hx.Flag(err == nil), "old": word(old), "val": word(n), "same": hx.Flag(n.Int64() == int64(n))})

			d = text(r)
			for j := r.N(3); j > 0; j-- {
				switch r.N(5) {
				case 4:
					d = "\"" + d
				case 0, 1:
					d = "\"" + d + "\""
				case 2:
					d = []string{" ", "\n", "\t\r", "\v \f"}[r.N(4)] + d
				case 3:
					d += []string{" ", "\n", "\t\r", "\v \f", "\""}[r.N(5)]
				}
			}
			if r.P(3) {
				d = []string{"\"", " \" ", "", "\"\"\"", "'latest'"}[r.N(5)]
			}
			n = old
			err = n.UnmarshalJSON([]byte(d))
			r.Log(rec.Ev{"e": "Rec", "kind": "raw", "doc": hx.Codes(d), "ok": hx.Flag(err == nil), "old": word(old), "val": word(n), "same": hx.Flag(n.Int64() == int64(n))})

			d = doc(r, true)
			var ref rpc.BlockNumberOrHash
			err = json.Unmarshal([]byte(d), &ref)
			a, b, c := flat(&ref)
			kept := 1
			if err == nil && strings.HasPrefix(strings.TrimSpace(d), "{") { // an object replaces the whole value
				x := rpc.BlockNumberOrHashWithNumber(number(r))
				if r.P(50) {
					x = rpc.BlockNumberOrHashWithHash(common.Hash{1, 2}, false)
				}
				x.RequireCanonical = r.P(50)
				err1 := json.Unmarshal([]byte(d), &x)
				a1, b1, c1 := flat(&x)
				kept = hx.Flag(err1 == nil && fmt.Sprint(a, b, c) == fmt.Sprint(a1, b1, c1))
			}
			if err != nil { // an existing value stays
				o := number(r)
				x := rpc.BlockNumberOrHashWithNumber(o)
				x.RequireCanonical = r.P(50)
				a0, b0, c0 := flat(&x)
				json.Unmarshal([]byte(d), &x)
				a1, b1, c1 := flat(&x)
				kept = hx.Flag(fmt.Sprint(a0, b0, c0) == fmt.Sprint(a1, b1, c1))
			}
			r.Log(rec.Ev{"e": "Rec", "kind": "ref", "doc": hx.Codes(d), "ok": hx.Flag(err == nil), "num": a, "hash": b, "canon": c, "kept": kept})

			n = number(r)
			out, err := json.Marshal(n)
			var back rpc.BlockNumber = 12345
			berr := json.Unmarshal(out, &back)
			r.Log(rec.Ev{"e": "Rec", "kind": "out", "val": word(n), "doc": hx.Codes(out), "ok": hx.Flag(err == nil && berr == nil && back == n)})

			ref = rpc.BlockNumberOrHashWithNumber(n)
			a, b, c = word(n), []int{}, 0
			if r.P(50) {
				var h common.Hash
				for k := range h {
					h[k] = byte(r.N(256))
				}
				canon := r.P(50)
				ref = rpc.BlockNumberOrHashWithHash(h, canon)
				a, b, c = []int{}, nibbles(fmt.Sprintf("%x", h[:])), hx.Flag(canon)
			}
			other := rpc.BlockNumberOrHashWithNumber(number(r))
			h2 := rpc.BlockNumberOrHashWithHash(common.Hash{1}, true)
			out, err = json.Marshal(ref)
			var rback rpc.BlockNumberOrHash
			berr = json.Unmarshal(out, &rback)
			a1, b1, c1 := flat(&rback)
			a2, b2, c2 := flat(&ref)
			_, _ = other, h2
			r.Log(rec.Ev{"e": "Rec", "kind": "outref", "num": a, "hash": b, "canon": c, "doc": hx.Codes(out),
				"ok": hx.Flag(err == nil && berr == nil && fmt.Sprint(a, b, c) == fmt.Sprint(a1, b1, c1) && fmt.Sprint(a, b, c) == fmt.Sprint(a2, b2, c2))})
		}
	})
}
