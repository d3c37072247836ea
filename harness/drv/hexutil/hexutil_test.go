// Package hexutil runs the encoders and decoders of common/hexutil.
package hexutil

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	hu "flychain/common/hexutil"
	"verifharness/hx"
	"verifharness/rec"
)

var names = []struct {
	err  error
	name string
}{{hu.ErrEmptyString, "Empty"}, {hu.ErrSyntax, "Syntax"}, {hu.ErrMissingPrefix, "NoPrefix"}, {hu.ErrOddLength, "Odd"}, {hu.ErrEmptyNumber, "EmptyNum"},
	{hu.ErrLeadingZero, "LeadZero"}, {hu.ErrUint64Range, "U64"}, {hu.ErrUintRange, "U64"}, {hu.ErrBig256Range, "Big"}}

func class(err error, uint bool) (string, int, string) {
	if err == nil {
		return "", 0, ""
	}
	var ute *json.UnmarshalTypeError
	w, et, msg := 0, "", err.Error()
	if errors.As(err, &ute) {
		w, et, msg = 1, fmt.Sprint(ute.Type), ute.Value
	}
	for _, n := range names {
		if w == 0 && err == n.err || w == 1 && msg == n.err.Error() {
			if w == 0 && (n.err == hu.ErrUintRange) != uint && n.name == "U64" {
				return "wrong range error", w, et
			}
			return n.name, w, et
		}
	}
	switch {
	case w == 1 && msg == "non-string":
		return "NonString", w, et
	case strings.HasPrefix(msg, "hex string has length "):
		return "Length", w, et
	case strings.HasPrefix(msg, "unexpected type "):
		return "Type", w, et
	}
	return msg, w, et
}

type out struct {
	err   error
	val   any // []byte, *big.Int or uint64
	after []byte
}

// res runs a decoder on a private copy of the input and describes the result.
func res(op string, in []byte, before []byte, n int, uint bool, f func(in []byte) out) rec.Ev {
	buf := append([]byte(nil), in...)
	ev := rec.Ev{"op": op, "n": n, "pn": 0, "val": []int{}}
	var o out
	func() {
		defer func() {
			if p := recover(); p != nil {
				ev["pn"] = 1
				if e, ok := p.(error); ok {
					o = out{err: e}
				} else {
					o = out{err: fmt.Errorf("panic: %v", p)}
				}
				if strings.Contains(o.err.Error(), "runtime error") {
					o.err = fmt.Errorf("panic: %v", p)
				}
			}
		}()
		o = f(buf)
	}()
	ev["inok"] = hx.Flag(bytes.Equal(buf, in))
	for i := range buf { // the result must not depend on the input any more
		buf[i] ^= 0x55
	}
	ev["err"], ev["w"], ev["et"] = class(o.err, uint)
	if o.err == nil {
		switch v := o.val.(type) {
		case []byte:
			ev["val"] = hx.Codes(v)
		case *big.Int:
			ev["val"] = hx.Nibbles(v)
			if v.Sign() < 0 {
				ev["err"] = "negative"
			}
		case uint64:
			ev["val"] = hx.Nibbles(new(big.Int).SetUint64(v))
		}
	}
	ev["same"] = hx.Flag(bytes.Equal(o.after, before))
	return ev
}

func old(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0xa0 + i)
	}
	return b
}

var fixedT = reflect.TypeOf([4]byte{})

// all runs every decoder on the string.
func all(in []byte, n int, must bool) []rec.Ev {
	s := string(in)
	o := old(n)
	r := []rec.Ev{
		res("Decode", in, nil, 0, false, func([]byte) out { b, err := hu.Decode(s); return out{err: err, val: b} }),
		res("DecodeUint64", in, nil, 0, false, func([]byte) out { b, err := hu.DecodeUint64(s); return out{err: err, val: b} }),
		res("DecodeBig", in, nil, 0, false, func([]byte) out { b, err := hu.DecodeBig(s); return out{err: err, val: b} }),
		res("TextBytes", in, nil, 0, false, func(in []byte) out { var x hu.Bytes; err := x.UnmarshalText(in); return out{err: err, val: []byte(x)} }),
		res("TextBig", in, nil, 0, false, func(in []byte) out { x := hu.Big(*big.NewInt(5)); err := x.UnmarshalText(in); return out{err: err, val: x.ToInt()} }),
		res("TextUint64", in, nil, 0, false, func(in []byte) out { x := hu.Uint64(5); err := x.UnmarshalText(in); return out{err: err, val: uint64(x)} }),
		res("TextUint", in, nil, 0, true, func(in []byte) out { x := hu.Uint(5); err := x.UnmarshalText(in); return out{err: err, val: uint64(x)} }),
		res("TextFixed", in, o, n, false, func(in []byte) out {
			b := old(n)
			err := hu.UnmarshalFixedText("x", in, b)
			return out{err: err, val: b, after: b}
		}),
		res("TextFixedUnprefixed", in, o, n, false, func(in []byte) out {
			b := old(n)
			err := hu.UnmarshalFixedUnprefixedText("x", in, b)
			return out{err: err, val: b, after: b}
		}),
		res("JSONBytes", in, nil, 0, false, func(in []byte) out { var x hu.Bytes; err := x.UnmarshalJSON(in); return out{err: err, val: []byte(x)} }),
		res("JSONBig", in, nil, 0, false, func(in []byte) out { x := hu.Big(*big.NewInt(5)); err := x.UnmarshalJSON(in); return out{err: err, val: x.ToInt()} }),
		res("JSONUint64", in, nil, 0, false, func(in []byte) out { x := hu.Uint64(5); err := x.UnmarshalJSON(in); return out{err: err, val: uint64(x)} }),
		res("JSONUint", in, nil, 0, true, func(in []byte) out { x := hu.Uint(5); err := x.UnmarshalJSON(in); return out{err: err, val: uint64(x)} }),
		res("JSONFixed", in, o, n, false, func(in []byte) out {
			b := old(n)
			err := hu.UnmarshalFixedJSON(fixedT, in, b)
			return out{err: err, val: b, after: b}
		}),
		res("GraphBytes", in, nil, 0, false, func([]byte) out { var x hu.Bytes; err := x.UnmarshalGraphQL(s); return out{err: err, val: []byte(x)} }),
		res("GraphBig", in, nil, 0, false, func([]byte) out { x := hu.Big(*big.NewInt(5)); err := x.UnmarshalGraphQL(s); return out{err: err, val: x.ToInt()} }),
		res("GraphUint64", in, nil, 0, false, func([]byte) out { x := hu.Uint64(5); err := x.UnmarshalGraphQL(s); return out{err: err, val: uint64(x)} }),
	}
	if must {
		r = append(r,
			res("MustDecode", in, nil, 0, false, func([]byte) out { return out{val: hu.MustDecode(s)} }),
			res("MustDecodeUint64", in, nil, 0, false, func([]byte) out { return out{val: hu.MustDecodeUint64(s)} }),
			res("MustDecodeBig", in, nil, 0, false, func([]byte) out { return out{val: hu.MustDecodeBig(s)} }))
	}
	return r
}

func txt(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func enc(kind string, neg int, val []int, outs ...string) rec.Ev {
	o := [][]int{}
	for _, s := range outs {
		o = append(o, hx.Codes(s))
	}
	return rec.Ev{"e": "Rec", "kind": kind, "neg": neg, "val": val, "outs": o}
}

func js(v any) string {
	b, err := json.Marshal(v)
	s := txt(b, err)
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return s[1 : len(s)-1]
	}
	return "not a string: " + s
}

// dec decodes a string in every way.
func dec(t *rec.T, in []byte, n int) {
	t.Log(rec.Ev{"e": "Rec", "kind": "dec", "in": hx.Codes(in), "r": all(in, n, len(in) < 6 || t.P(20))})
}

const small = "01xXaFg-"

func TestDrive(t *testing.T) {
	depth := rec.Env("VDRV_DEPTH", 4)
	rec.DrivePure(t, func(r *rec.T) {
		if r.Index < 64 { // all short strings that begin with these two characters
			pre := []byte{small[r.Index/8], small[r.Index%8]}
			if r.Index == 0 {
				dec(r, nil, 0)
				dec(r, nil, 1)
				for _, c := range small + "\"" {
					dec(r, []byte{byte(c)}, 0)
				}
			}
			var walk func(s []byte)
			walk = func(s []byte) {
				dec(r, s, []int{0, 1, 1, 2}[r.N(4)])
				if len(s) < depth {
					for i := range small {
						walk(append(append([]byte(nil), s...), small[i]))
					}
				}
			}
			walk(pre)
			return
		}
		kind := r.N(4)
		if r.Index%300 == 7 {
			kind = 0
		}
		switch kind {
		case 0: // encodings and back
			n := r.N([]int{3, 8, 40, 300}[r.N(4)])
			if r.Index%300 == 7 {
				n = []int{512, 1023, 1024, 1025, 2048, 4096, 5000, 300 + r.N(4000)}[r.N(8)]
			}
			b := hx.Bytes(r, n)
			keep := append([]byte(nil), b...)
			h := hu.Bytes(b)
			mt, err := h.MarshalText()
			outs := []string{hu.Encode(b), h.String(), txt(mt, err), js(h), fmt.Sprint(h)}
			if !bytes.Equal(b, keep) {
				outs = append(outs, "input changed")
			}
			r.Log(enc("encbytes", 0, hx.Codes(keep), outs...))
			dec(r, []byte(outs[0]), len(b)+r.N(2)*(r.N(3)-1)*min(1, len(b)))
			dec(r, []byte(`"`+outs[0]+`"`), len(b))
		case 1:
			x := hx.Big(r, []int{64, 64, 256, 257, 600, 64, 256, 1500}[r.N(8)])
			y := new(big.Int).Set(x)
			outs := []string{}
			if x.BitLen() <= 64 {
				u := x.Uint64()
				mt, err := hu.Uint64(u).MarshalText()
				mu, err2 := hu.Uint(u).MarshalText()
				outs = append(outs, hu.EncodeUint64(u), hu.Uint64(u).String(), txt(mt, err), js(hu.Uint64(u)), hu.Uint(u).String(), txt(mu, err2), js(hu.Uint(u)))
			}
			neg := 0
			if r.P(20) && x.Sign() > 0 && len(outs) == 0 {
				x.Neg(x)
				y.Neg(y)
				neg = 1
			}
			b := (*hu.Big)(x)
			mt, err := b.MarshalText()
			outs = append(outs, hu.EncodeBig(x), b.String(), txt(mt, err), js(b))
			if x.Cmp(y) != 0 {
				outs = append(outs, "input changed")
			}
			r.Log(enc("encnum", neg, hx.Nibbles(y), outs...))
			dec(r, []byte(outs[0]), r.N(4))
			dec(r, []byte(`"`+outs[0]+`"`), r.N(4))
			n := int32(r.N(1 << 30))
			var bg hu.Big
			var u6 hu.Uint64
			for k, e := range []error{bg.UnmarshalGraphQL(n), u6.UnmarshalGraphQL(n), new(hu.Bytes).UnmarshalGraphQL(n), new(hu.Bytes).UnmarshalGraphQL(nil), bg.UnmarshalGraphQL(nil), u6.UnmarshalGraphQL(1.5)} {
				if c, _, _ := class(e, false); c != map[bool]string{true: "", false: "Type"}[k < 2] {
					r.Log(enc("encnum", 0, []int{1}, "GraphQL: wrong error "+c))
				}
			}
			r.Log(enc("encnum", 0, hx.Nibbles(big.NewInt(int64(n))), bg.String(), u6.String()))
		default: // strings near the grammar
			var s string
			digits := []int{0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 40, 63, 64, 65, 66, 128}
			n := digits[r.N(len(digits))]
			al := []string{"0123456789abcdef", "0123456789abcdefABCDEF", "0", "fF", "01", "123456789"}[r.N(6)]
			for k := 0; k < n; k++ {
				s += string(al[r.N(len(al))])
			}
			if r.P(25) && n > 0 {
				s = "0" + s[1:]
			}
			s = []string{"0x", "0x", "0x", "0x", "0X", "", "x", "0", "0x0x", "-0x", " 0x"}[r.N(11)] + s
			if r.P(35) && len(s) > 0 { // damage
				k := r.N(len(s))
				c := []string{"g", "G", "x", " ", "\x00", "_", "+", "-", "/", ":", "@", "`", "\xff", "é", "\n", ""}[r.N(16)]
				s = s[:k] + c + s[k+r.N(2):]
			}
			want := []int{n / 2, n / 2, (n + 1) / 2, n/2 + 1, r.N(40)}[r.N(5)]
			switch r.N(5) {
			case 0, 1:
				s = `"` + s + `"`
			case 2:
				if r.P(20) {
					s = []string{`"`, `""`, `"` + s, s + `"`, "null", "12", "{}", "'" + s + "'"}[r.N(8)]
				}
			}
			dec(r, []byte(s), want)
		}
	})
}
