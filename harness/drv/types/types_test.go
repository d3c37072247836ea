// Package types runs the hash and address types of package common.
package types

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"flychain/common"
	"verifharness/hx"
	"verifharness/rec"
)

type m = map[string]string

// out turns results into byte lists.
func out(x m) []rec.Ev {
	o := []rec.Ev{}
	for k, v := range x {
		o = append(o, rec.Ev{"f": k, "b": hx.Codes(v)})
	}
	return o
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func tx(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func val(v any, err error) string {
	if b, ok := v.([]byte); ok && err == nil {
		return string(b)
	}
	return "not bytes"
}

func smudge(b []byte) string {
	s := string(b)
	for i := range b {
		b[i] ^= 0xff
	}
	return s
}

func hexes(r *rec.T, b []byte) string {
	s := hex.EncodeToString(b)
	if r.P(40) {
		c := []byte(s)
		for i := range c {
			if r.P(50) {
				c[i] = strings.ToUpper(s)[i]
			}
		}
		s = string(c)
	}
	if len(s) > 0 && s[0] == '0' && r.P(50) {
		s = s[1:] // odd length
	}
	return []string{"0x", "0X", ""}[r.N(3)] + s
}

// conversions from bytes, big integers and hex text
func conv(r *rec.T) {
	b := hx.Bytes(r, []int{0, 1, 3, 19, 20, 21, 31, 32, 33, 40, 64, r.N(70)}[r.N(12)])
	keep := string(b)
	n := new(big.Int).SetBytes(b)
	h, a := common.BytesToHash(b), common.BytesToAddress(b)
	var h2 common.Hash
	h2.SetBytes(b)
	var a2 common.Address
	a2.SetBytes(b)
	h3, a3, hs := common.BigToHash(n), common.BigToAddress(n), hexes(r, b)
	h4, a4 := common.HexToHash(hs), common.HexToAddress(hs)
	ah := a.Hash()
	changed := ""
	if string(b) != keep || new(big.Int).SetBytes([]byte(keep)).Cmp(n) != 0 {
		changed = "input changed"
	}
	hb, ab := h.Big(), a.Big()
	x := m{"hash bytes": string(h[:]), "hash set": string(h2[:]), "hash big": string(h3[:]), "hash hex": string(h4[:]), "hash Bytes": smudge(h.Bytes()),
		"addr bytes": string(a[:]), "addr set": string(a2[:]), "addr big": string(a3[:]), "addr hex": string(a4[:]), "addr Bytes": smudge(a.Bytes()),
		"addr Hash": string(ah[:]), "hash Big": string(hb.FillBytes(make([]byte, 32))), "addr Big": string(ab.FillBytes(make([]byte, 20))), "changed": changed}
	v, err := h.Value()
	x["hash Value"] = val(v, err)
	v, err = a.Value()
	x["addr Value"] = val(v, err)
	x["hash again"], x["addr again"] = string(h[:]), string(a[:])
	r.Log(rec.Ev{"e": "Rec", "kind": "conv", "in": hx.Codes(keep), "out": out(x)})
}

func verbs(name string, v any, x m) {
	for _, f := range []string{"%v", "%s", "%q", "%x", "%X", "%#x", "%#X", "%d", "%o"} {
		x[name+" "+f] = fmt.Sprintf(f, v)
	}
}

// text forms of a value
func text(r *rec.T) {
	b := hx.Bytes(r, 32)
	h := common.BytesToHash(b)
	x := m{"hash Hex": h.Hex(), "hash String": h.String(), "hash Terminal": h.TerminalString(), "hash MarshalText": tx(h.MarshalText()), "hash json": js(h),
		"hash jsonptr": js(&h), "hash jsonkey": js(map[common.Hash]int{h: 1}), "uhash MarshalText": tx(common.UnprefixedHash(h).MarshalText()), "uhash json": js(common.UnprefixedHash(h))}
	verbs("hash", h, x)
	r.Log(rec.Ev{"e": "Rec", "kind": "hash", "in": hx.Codes(b), "out": out(x)})
	b = hx.Bytes(r, 20)
	a := common.BytesToAddress(b)
	ma := common.NewMixedcaseAddress(a)
	maddr := ma.Address()
	x = m{"addr Hex": a.Hex(), "addr String": a.String(), "addr MarshalText": tx(a.MarshalText()), "addr json": js(a), "addr jsonkey": js(map[common.Address]int{a: 1}),
		"uaddr MarshalText": tx(common.UnprefixedAddress(a).MarshalText()), "uaddr json": js(common.UnprefixedAddress(a)),
		"mixed Original": ma.Original(), "mixed String": ma.String(), "mixed Valid": fmt.Sprint(ma.ValidChecksum()), "mixed Address": string(maddr[:]), "mixed json": tx(ma.MarshalJSON())}
	verbs("addr", a, x)
	r.Log(rec.Ev{"e": "Rec", "kind": "addr", "in": hx.Codes(b), "out": out(x)})
}

type parsed struct {
	f     string
	ok    int
	val   []int
	extra []int
}

// parsing: what each parser makes of the string, starting from a target with other content
func parse(r *rec.T) {
	n := []int{20, 32}[r.N(2)]
	if r.P(20) {
		n = []int{0, 1, 19, 21, 31, 33, 40, 64}[r.N(8)]
	}
	b := hx.Bytes(r, n)
	s := hex.EncodeToString(b)
	a := common.BytesToAddress(b)
	checksummed := a.Hex()[2:]
	switch r.N(5) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		c := []byte(s)
		for i := range c {
			if r.P(50) {
				c[i] = strings.ToUpper(s)[i]
			}
		}
		s = string(c)
	case 2:
		if n == 20 {
			s = checksummed
		}
	case 3:
		if n == 20 { // one letter in the wrong case
			c := []byte(checksummed)
			for try := 0; try < 20; try++ {
				k := r.N(40)
				if c[k] > '9' {
					c[k] ^= 0x20
					break
				}
			}
			s = string(c)
		}
	}
	s = []string{"0x", "0x", "0x", "0X", "", "", "0x0x", "x"}[r.N(8)] + s
	if r.P(25) && len(s) > 0 {
		k := r.N(len(s))
		s = s[:k] + []string{"g", "", "0", "x", " ", "\xff", "é", "00", "@", "`"}[r.N(10)] + s[k+r.N(2):]
	}
	in := s
	if r.P(50) {
		in = `"` + s + `"`
	}
	if r.P(3) {
		in = []string{"null", "", `"`, `""`, "12", `"` + s, s + `"`}[r.N(7)]
	}
	var ps []rec.Ev
	var fill [32]byte
	for i := range fill {
		fill[i] = byte(0xb0 + i)
	}
	add := func(f string, size int, run func(h *common.Hash, a *common.Address) error) {
		h, a := common.Hash(fill), common.Address(fill[:20])
		err := run(&h, &a)
		v := h[:]
		if size == 20 {
			v = a[:]
		}
		ps = append(ps, rec.Ev{"f": f, "size": size, "ok": hx.Flag(err == nil), "val": hx.Codes(v), "same": hx.Flag(string(v) == string(fill[:size]))})
	}
	buf := func() []byte { return []byte(in) }
	type H = *common.Hash
	type A = *common.Address
	add("text", 32, func(h H, a A) error { return h.UnmarshalText(buf()) })
	add("text", 20, func(h H, a A) error { return a.UnmarshalText(buf()) })
	add("json", 32, func(h H, a A) error { return h.UnmarshalJSON(buf()) })
	add("json", 20, func(h H, a A) error { return a.UnmarshalJSON(buf()) })
	add("text", 32, func(h H, a A) error { return h.UnmarshalGraphQL(in) })
	add("text", 20, func(h H, a A) error { return a.UnmarshalGraphQL(in) })
	add("unprefixed", 32, func(h H, a A) error { return (*common.UnprefixedHash)(h).UnmarshalText(buf()) })
	add("unprefixed", 20, func(h H, a A) error { return (*common.UnprefixedAddress)(a).UnmarshalText(buf()) })
	add("scan", 32, func(h H, a A) error { b := buf(); err := h.Scan(b); smudge(b); return err })
	add("scan", 20, func(h H, a A) error { b := buf(); err := a.Scan(b); smudge(b); return err })
	raw := append([]byte(nil), b...)
	in2 := in
	in = string(raw)
	add("scanraw", 32, func(h H, a A) error { b := buf(); err := h.Scan(b); smudge(b); return err })
	add("scanraw", 20, func(h H, a A) error { b := buf(); err := a.Scan(b); smudge(b); return err })
	in = in2
	for _, w := range []any{nil, in, 5, [20]byte{}, fill, []int{1}} {
		add("never", 32, func(h H, a A) error { return h.Scan(w) })
		add("never", 20, func(h H, a A) error { return a.Scan(w) })
		if _, ok := w.(string); !ok {
			add("never", 32, func(h H, a A) error { return h.UnmarshalGraphQL(w) })
			add("never", 20, func(h H, a A) error { return a.UnmarshalGraphQL(w) })
		}
	}
	ev := rec.Ev{"e": "Rec", "kind": "parse", "in": hx.Codes(in), "raw": hx.Codes(raw), "ps": ps, "ishex": hx.Flag(common.IsHexAddress(in))}
	ms := []rec.Ev{}
	show := func(how string, ma *common.MixedcaseAddress, err error) {
		e := rec.Ev{"how": how, "ok": hx.Flag(err == nil), "addr": []int{}, "orig": []int{}, "str": []int{}, "json": []int{}, "valid": 0}
		if ma != nil {
			ad := ma.Address()
			e["addr"], e["orig"], e["str"], e["json"], e["valid"] = hx.Codes(ad[:]), hx.Codes(ma.Original()), hx.Codes(ma.String()), hx.Codes(tx(ma.MarshalJSON())), hx.Flag(ma.ValidChecksum())
		}
		ms = append(ms, e)
	}
	p, err := common.NewMixedcaseAddressFromString(in)
	show("string", p, err)
	q := common.NewMixedcaseAddress(common.Address(fill[:20]))
	err = q.UnmarshalJSON(buf())
	show("json", &q, err)
	ev["ms"] = ms
	old := common.NewMixedcaseAddress(common.Address(fill[:20]))
	ev["oldorig"] = hx.Codes(old.Original())
	r.Log(ev)
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		conv(r)
		if r.P(50) {
			text(r)
		}
		parse(r)
		parse(r)
	})
}
