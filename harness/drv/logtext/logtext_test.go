// Package logtext formats records as text and JSON.
package logtext

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"flychain/log"
	"github.com/go-stack/stack"
	"verifharness/rec"
)

func codes(s string) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type pstringer struct{ s string }

func (s *pstringer) String() string { return s.s }

type terr struct{ s string }

func (s *terr) Error() string { return s.s }

type termer struct{ a, b string }

func (s termer) String() string         { return s.a }
func (s termer) TerminalString() string { return s.b }

type plain struct {
	A int
	B string
}

var alphabets = []string{
	"abcXYZ019_-./:",
	"ab \"=\\'`,",
	"a\n\r\t\x00\x01\x1b\x7f~ !#",
	"aé世\u2028\ufffd\u00a0😀\u0085",
	"a\xff\xc3\x80é\xed\xa0\x80\xf0\x9f",
	"<>&\\\"/u",
}

func str(r *rec.T) string {
	if r.P(10) {
		return ""
	}
	if r.P(3) {
		return []string{"true", "nil", "\x1b[31mred\x1b[0m", "x=y", "a\nb=c", " lead", "trail ", "\"", "\\", "LOG15_ERROR", "t", "lvl", "msg"}[r.N(13)]
	}
	al := alphabets[r.N(len(alphabets))]
	pieces := strings.Split(al, "")
	if strings.ContainsRune(al, 0xfffd) || r.P(20) { // by byte
		pieces = nil
		for i := 0; i < len(al); i++ {
			pieces = append(pieces, al[i:i+1])
		}
	}
	var b strings.Builder
	n := r.N([]int{3, 8, 16, 50}[r.N(4)]) + r.N(2)
	if r.Rng.IntN(400) == 0 {
		n = []int{100, 127, 128, 255, 256, 257, 500, 1000, 1024, 1500}[r.N(10)]
	}
	for ; n > 0; n-- {
		b.WriteString(pieces[r.N(len(pieces))])
	}
	return b.String()
}

func intRec(n *big.Int) rec.Ev {
	s := n.String()
	neg := 0
	if s[0] == '-' {
		neg, s = 1, s[1:]
	}
	d := codes(s)
	for i := range d {
		d[i] -= 48
	}
	return rec.Ev{"neg": neg, "d": d}
}

func bigInt(r *rec.T) *big.Int {
	n := 1 + r.N(45)
	if r.P(50) {
		n = 1 + r.N(9)
	}
	s := ""
	for i := 0; i < n; i++ {
		s += strconv.Itoa(r.N(10))
	}
	if r.P(20) {
		s = "1" + strings.Repeat("0", n)
	}
	if r.P(20) {
		s = strings.Repeat("9", n)
	}
	x, _ := new(big.Int).SetString(s, 10)
	if r.P(40) {
		x.Neg(x)
	}
	return x
}

// a value, what the text formats must show and what JSON must show
type val struct {
	v    interface{}
	text rec.Ev // {t: str, b} or {t: int, neg, d} or {t: any}
	term rec.Ev
	js   rec.Ev // {t: str, b} or {t: num, b} or {t: bad}
}

func valid(s string) string {
	return strings.Map(func(r rune) rune { return r }, s) // invalid bytes become U+FFFD, one each
}

func strEv(s string) rec.Ev { return rec.Ev{"t": "str", "b": codes(s)} }
func jstr(s string) rec.Ev {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return rec.Ev{"t": "str", "b": codes(b.String())}
}

func same(v interface{}, s string) val { return val{v, strEv(s), strEv(s), jstr(s)} }

func integer(v interface{}, n *big.Int) val {
	e := intRec(n)
	e["t"] = "int"
	return val{v, e, e, rec.Ev{"t": "num", "b": codes(n.String())}}
}

func value(r *rec.T) val {
	switch r.N(24) {
	case 0:
		return val{nil, strEv("nil"), strEv("nil"), jstr("<nil>")}
	case 1:
		b := r.P(50)
		return same(b, strconv.FormatBool(b))
	case 2, 3:
		n := bigInt(r)
		e := intRec(n)
		e["t"] = "int"
		return val{n, e, e, jstr(n.String())}
	case 4:
		f := []float64{0, 1.5, -2.25, 1e21, 123456789.123456, math.NaN(), math.Inf(1), math.Inf(-1), 0.0005, -0.0004, math.MaxFloat64, 1e-7}[r.N(12)]
		b, err := json.Marshal(f)
		js := rec.Ev{"t": "num", "b": codes(string(b))}
		if err != nil {
			js = rec.Ev{"t": "bad"}
		}
		s := fmt.Sprintf("%.3f", f)
		return val{f, strEv(s), strEv(s), js}
	case 5:
		f := []float32{0, 1.5, -2.25, 3e10, float32(math.Inf(1))}[r.N(5)]
		b, err := json.Marshal(f)
		js := rec.Ev{"t": "num", "b": codes(string(b))}
		if err != nil {
			js = rec.Ev{"t": "bad"}
		}
		s := fmt.Sprintf("%.3f", float64(f))
		return val{f, strEv(s), strEv(s), js}
	case 6:
		s := str(r)
		return same(errors.New(s), s)
	case 7:
		s := str(r)
		return same(stringer{s}, s)
	case 8:
		a, b := str(r), str(r)
		return val{termer{a, b}, strEv(a), strEv(b), jstr(a)}
	case 9:
		p := plain{r.N(5), str(r)}
		return same(p, fmt.Sprintf("%+v", p))
	case 10:
		l := []string{str(r), str(r)}
		return same(l, fmt.Sprintf("%+v", l))
	case 11:
		return same((*pstringer)(nil), "nil")
	case 12:
		return same((*terr)(nil), "nil")
	case 13:
		return val{(*big.Int)(nil), strEv("<nil>"), strEv("<nil>"), jstr("<nil>")}
	case 14:
		t := time.Unix(int64(r.N(1<<31)), 0).UTC()
		s := t.Format("2006-01-02T15:04:05-0700")
		return same(t, s)
	case 15:
		return same((*plain)(nil), "<nil>")
	case 16, 17, 18:
		n := r.Rng.Uint64() >> r.N(64)
		if r.P(30) {
			n = []uint64{99999, 100000, 999999, 1000000, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<31 - 1, 1 << 31, 12345}[r.N(10)]
		}
		neg := int64(n)
		if r.P(50) {
			neg = -neg
		}
		switch r.N(10) {
		case 0:
			return integer(int(neg), big.NewInt(int64(int(neg))))
		case 1:
			return integer(int8(neg), big.NewInt(int64(int8(neg))))
		case 2:
			return integer(int16(neg), big.NewInt(int64(int16(neg))))
		case 3:
			return integer(int32(neg), big.NewInt(int64(int32(neg))))
		case 4:
			return integer(neg, big.NewInt(neg))
		case 5:
			return integer(uint(n), new(big.Int).SetUint64(n))
		case 6:
			return integer(uint8(n), new(big.Int).SetUint64(uint64(uint8(n))))
		case 7:
			return integer(uint16(n), new(big.Int).SetUint64(uint64(uint16(n))))
		case 8:
			return integer(uint32(n), new(big.Int).SetUint64(uint64(uint32(n))))
		}
		return integer(n, new(big.Int).SetUint64(n))
	}
	s := str(r)
	return same(s, s)
}

func site() stack.Call { return stack.Caller(0) }

func TestDrive(t *testing.T) {
	mode := os.Getenv("VDRV_MODE")
	call := site()
	if mode == "text" { // formatting may happen at any time on several goroutines
		for g := 0; g < 2; g++ {
			go func() {
				for n := 0; ; n++ {
					rc := &log.Record{Time: time.Unix(0, 0), Msg: "x", Call: call, Ctx: []interface{}{"a", strings.Repeat("v", n%30), fmt.Sprint("n", n%500), n}}
					log.LogfmtFormat().Format(rc)
					log.TerminalFormat(n%2 == 0).Format(rc)
				}
			}()
		}
	}
	rec.DrivePlain(t, func(r *rec.T) {
		out := rec.Ev{"e": "Rec"}
		defer func() {
			if x := recover(); x != nil {
				out["out"] = codes("panic: " + fmt.Sprint(x))
				out["panic"] = 1
			}
			r.Log(out)
		}()
		out["panic"], out["lossykeys"] = 0, 0
		if mode == "text" && r.P(10) {
			n := r.Rng.Uint64() >> r.N(64)
			if r.P(30) {
				n = []uint64{99999, 100000, 999999, 1000000, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0}[r.N(8)]
			}
			out["kind"] = "int"
			if r.P(50) {
				s := int64(n)
				if r.P(50) {
					s = -s
				}
				out["v"] = intRec(big.NewInt(s))
				out["out"] = codes(log.FormatLogfmtInt64(s))
			} else {
				out["v"] = intRec(new(big.Int).SetUint64(n))
				out["out"] = codes(log.FormatLogfmtUint64(n))
			}
			return
		}
		tm := time.Unix(int64(r.N(1<<31)), int64(r.N(1e9)))
		switch r.N(4) {
		case 0:
			tm = tm.UTC()
		case 1:
			tm = tm.In(time.FixedZone("X", -5*3600-1800))
		}
		badTime := false
		if r.P(2) && mode == "json" {
			tm = time.Date(12345, 1, 1, 0, 0, 0, 0, time.UTC)
			badTime = true
		}
		rc := &log.Record{Time: tm, Lvl: log.Lvl(r.N(6)), Msg: str(r), Call: call, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
		if r.P(5) {
			rc.KeyNames = log.RecordKeyNames{Time: "the time", Msg: "m=", Lvl: "level\n", Ctx: "äctx"}
		}
		if r.P(20) {
			rc.Msg = strings.Repeat("m", r.N(60))
		}
		pairs := []rec.Ev{}
		k := r.N(5)
		if r.P(2) {
			k = 5 + r.N(20)
		}
		for ; k > 0; k-- {
			var key interface{}
			p := rec.Ev{"ks": 1}
			ks := str(r)
			if r.P(50) {
				ks = []string{"a", "number", "hash", "n"}[r.N(4)]
			}
			if r.P(7) {
				p["ks"] = 0
				key = value(r).v
				if s, ok := key.(string); ok {
					key = []string{s}
				}
				ks = ""
			} else {
				key = ks
			}
			v := value(r)
			rc.Ctx = append(rc.Ctx, key, v.v)
			p["k"] = codes(ks)
			if mode == "json" {
				p["k"] = jstr(ks)["b"]
				if !utf8.ValidString(ks) {
					out["lossykeys"] = 1
				}
			}
			p["v"], p["tv"], p["j"] = v.text, v.term, v.js
			pairs = append(pairs, p)
		}
		out["lvl"] = int(rc.Lvl)
		out["pairs"] = pairs
		kn := rc.KeyNames
		before := fmt.Sprintf("%#v", rc.Ctx)
		var res []byte
		switch {
		case mode == "text" && r.P(50):
			out["kind"] = "logfmt"
			out["keys"] = [][]int{codes(kn.Time), codes(kn.Lvl), codes(kn.Msg)}
			out["time"] = codes(tm.Format("2006-01-02T15:04:05-0700"))
			out["msg"] = codes(rc.Msg)
			res = log.LogfmtFormat().Format(rc)
		case mode == "text":
			color, origin := r.P(50), r.P(50)
			out["kind"] = "term"
			out["color"] = map[bool]int{true: 1}[color]
			out["origin"] = map[bool]int{true: 1}[origin]
			out["time"] = codes(tm.Format("01-02|15:04:05.000"))
			out["loc"] = codes(fmt.Sprintf("%+v", call))
			out["msg"] = codes(rc.Msg)
			log.PrintOrigins(origin)
			res = log.TerminalFormat(color).Format(rc)
		default:
			pretty, line := r.P(40), r.P(60)
			out["keys"] = [][]int{jstr(kn.Time)["b"].([]int), jstr(kn.Lvl)["b"].([]int), jstr(kn.Msg)["b"].([]int), jstr(kn.Ctx)["b"].([]int)}
			out["time"] = codes(tm.Format(time.RFC3339Nano))
			out["msg"] = jstr(rc.Msg)["b"]
			out["line"] = map[bool]int{true: 1}[line]
			out["pretty"] = map[bool]int{true: 1}[pretty]
			out["badtime"] = map[bool]int{true: 1}[badTime]
			if r.P(50) {
				out["kind"] = "ordered"
				res = log.JSONFormatOrderedEx(pretty, line).Format(rc)
			} else {
				out["kind"] = "json"
				f := log.JSONFormatEx(pretty, line)
				if !pretty && line && r.P(50) {
					f = log.JSONFormat()
				}
				res = f.Format(rc)
			}
		}
		if fmt.Sprintf("%#v", rc.Ctx) != before {
			res = append(res, "CONTEXT CHANGED"...)
		}
		out["out"] = codes(string(res))
	})
}
