// Package solc runs the parser of the Solidity compiler's combined output.
package solc

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"flychain/common/compiler"
	"verifharness/hx"
	"verifharness/rec"
)

// tree gives a decoded value in the shape of the specification's JSON values.
func tree(v any) rec.Ev {
	out := rec.Ev{"t": "", "b": []int{}, "m": []rec.Ev{}}
	switch x := v.(type) {
	case nil:
		out["t"] = "null"
	case bool:
		out["t"] = strconv.FormatBool(x)
	case string:
		out["t"], out["b"] = "str", hx.Codes(x)
	case float64:
		out["t"], out["b"] = "num", hx.Codes(strconv.FormatFloat(x, 'f', -1, 64))
	case []any:
		m := []rec.Ev{}
		for _, e := range x {
			m = append(m, tree(e))
		}
		out["t"], out["m"] = "arr", m
	case map[string]any:
		m := []rec.Ev{}
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			m = append(m, rec.Ev{"k": hx.Codes(k), "v": tree(x[k])})
		}
		out["t"], out["m"] = "obj", m
	default:
		out["t"], out["b"] = "odd", hx.Codes(fmt.Sprintf("%T", v))
	}
	return out
}

func ws(r *rec.T) string {
	if r.P(85) {
		return ""
	}
	return []string{" ", "\n", "\t", "  "}[r.N(4)]
}

func quote(r *rec.T, s string) string {
	b, _ := json.Marshal(s)
	out := string(b)
	if r.P(30) {
		out = strings.ReplaceAll(out, "/", `\/`)
	}
	if r.P(10) {
		out = strings.ReplaceAll(out, "e", `\u0065`)
	}
	return out
}

// values of documents; keys are far from each other so that a single damaged byte makes no two equal
func doc(r *rec.T, depth int) string {
	n := 6
	if depth > 0 {
		n = 9
	}
	w := func() string { return ws(r) }
	switch r.N(n) {
	case 0:
		return strconv.Itoa(r.N(2000) - 1000)
	case 1:
		return []string{"true", "false", "null"}[r.N(3)]
	case 2, 3, 4, 5:
		return quote(r, []string{"", "x", "uint256", "transfer(address,uint256)", "a \"q\" b", "\\n", "é", "null", "{}", "lineone\nlinetwo", "<&>"}[r.N(11)])
	case 6:
		return "[" + list(r, depth, false) + w() + "]"
	default:
		return "{" + list(r, depth, true) + w() + "}"
	}
}

func list(r *rec.T, depth int, keys bool) string {
	var parts []string
	names := []string{"inputs", "anonymous", "type", "payable", "stateMutability", "ü", "methods", "constant"}
	off := r.N(len(names))
	for k := r.N(4); k > 0; k-- {
		e := ws(r) + doc(r, depth-1)
		if keys {
			e = ws(r) + quote(r, names[(off+k)%len(names)]) + ws(r) + ":" + e
		}
		parts = append(parts, e)
	}
	return strings.Join(parts, ",")
}

func top(r *rec.T) string { // a document: an array or an object
	if r.P(50) {
		return "[" + list(r, 2, false) + "]"
	}
	return "{" + list(r, 2, true) + "}"
}

func member(r *rec.T, k, v string) string { return ws(r) + quote(r, k) + ws(r) + ":" + ws(r) + v }

func str(r *rec.T) string {
	return quote(r, []string{"", "6080604052", "0:10:0:-;;;", "deadbeef", "1:2:3", "a,b", "ff", "{\"compiler\":1}"}[r.N(8)])
}

func contract(r *rec.T, v8 bool) string {
	d := func() string {
		t := top(r)
		if v8 {
			return t
		}
		if r.P(4) { // the document is no JSON text
			t = []string{"", "{", "[1,]", "nul", "{} {}", "'a'"}[r.N(6)]
		}
		if r.P(20) {
			t = doc(r, 1)
		}
		return quote(r, ws(r)+t+ws(r))
	}
	ms := []string{member(r, "abi", d()), member(r, "devdoc", d()), member(r, "userdoc", d()), member(r, "bin", str(r)), member(r, "bin-runtime", str(r)), member(r, "srcmap", str(r)),
		member(r, "srcmap-runtime", str(r)), member(r, "metadata", str(r))}
	var hs []string
	for k := r.N(4); k > 0; k-- {
		hs = append(hs, member(r, []string{"f()", "gg(uint8)", "hhh(bytes32)", "transfer(address)"}[k], str(r)))
	}
	ms = append(ms, member(r, "hashes", "{"+strings.Join(hs, ",")+"}"))
	r.Rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	if r.P(12) {
		ms = ms[1:]
	}
	if r.P(15) {
		ms = append(ms, member(r, "storage-layout", top(r)))
	}
	if r.P(3) { // a member of the wrong type
		k := []string{"bin", "srcmap-runtime", "metadata", "hashes", "srcmap", "bin-runtime"}[r.N(6)]
		for i := range ms {
			if strings.Contains(ms[i], "\""+k+"\"") {
				ms[i] = member(r, k, []string{"1", "[]", "true", "null", "[\"a\"]"}[r.N(5)])
			}
		}
	}
	return "{" + strings.Join(ms, ",") + ws(r) + "}"
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 4; k++ {
			one(r)
		}
	})
}

func one(r *rec.T) {
	v8 := r.P(50)
	var cs []string
	n := r.N(3)
	if r.Rng.IntN(300) == 0 {
		n = 3 + r.N(9)
	}
	for k := n; k >= 0; k-- {
		name := "lib/q" + strings.Repeat("zyx", k) + ".sol:Q" // names are far from each other
		if k < 3 {
			name = []string{"a.sol:Token", "/x/y.sol:Registry", "Ünì"}[k]
		}
		cs = append(cs, member(r, name, contract(r, v8)))
	}
	if r.P(4) {
		cs = nil
	}
	ms := []string{member(r, "contracts", "{"+strings.Join(cs, ",")+ws(r)+"}")}
	if r.P(80) {
		ms = append(ms, member(r, "version", quote(r, "0.8.0+commit")))
	}
	if r.P(20) {
		ms = append(ms, member(r, "sourceList", `["a.sol"]`))
	}
	if r.P(2) {
		ms[r.N(len(ms))] = member(r, []string{"contracts", "version"}[r.N(2)], []string{"5", "[]", "true"}[r.N(3)])
		if len(ms) > 1 {
			ms = ms[:1]
		}
	}
	r.Rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	text := ws(r) + "{" + strings.Join(ms, ",") + "}" + ws(r)
	if r.P(2) {
		text = []string{"", "[]", "5", "\"a\"", "{", "{} x", "true"}[r.N(7)]
	}
	if r.P(15) && len(text) > 0 { // one damaged byte
		p := r.N(len(text))
		switch r.N(3) {
		case 0:
			text = text[:p] + text[p+1:]
		case 1:
			text = text[:p]
		default:
			if text[p] < 0x80 {
				text = text[:p] + string(`{}[]",:x0`[r.N(9)]) + text[p:]
			}
		}
	}
	args := [][]string{{"", "", "", ""}, {"contract A {}", "0.8.0", "0.8.0+c", "--optimize"}, {"s", "l", "c", "o"}}[r.N(3)]
	in := []byte(text)
	which := "any"
	f := compiler.ParseCombinedJSON
	if v8 && r.P(40) {
		which, f = "v8", compiler.ParseCombinedJSONV8
	}
	ev := rec.Ev{"e": "Rec", "which": which, "in": hx.Codes(text), "args": args, "ok": 0, "nil": 0, "out": []rec.Ev{}, "panic": 0, "argsok": 1}
	defer func() {
		if p := recover(); p != nil {
			ev["panic"] = 1
		}
		r.Log(ev)
	}()
	res, err := f(in, args[0], args[1], args[2], args[3])
	ev["ok"], ev["nil"], ev["argsok"] = hx.Flag(err == nil), hx.Flag(res == nil), hx.Flag(string(in) == text)
	out := []rec.Ev{}
	names := []string{}
	for n := range res {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := res[n]
		hs := []rec.Ev{}
		hn := []string{}
		for k := range c.Hashes {
			hn = append(hn, k)
		}
		sort.Strings(hn)
		for _, k := range hn {
			hs = append(hs, rec.Ev{"k": hx.Codes(k), "v": rec.Ev{"t": "str", "b": hx.Codes(c.Hashes[k]), "m": []int{}}})
		}
		out = append(out, rec.Ev{"name": hx.Codes(n), "code": hx.Codes(c.Code), "rt": hx.Codes(c.RuntimeCode), "hashes": hs,
			"args": []string{c.Info.Source, c.Info.LanguageVersion, c.Info.CompilerVersion, c.Info.CompilerOptions}, "lang": c.Info.Language,
			"srcmap": tree(c.Info.SrcMap), "srcmaprt": hx.Codes(c.Info.SrcMapRuntime), "abi": tree(c.Info.AbiDefinition), "user": tree(c.Info.UserDoc), "dev": tree(c.Info.DeveloperDoc),
			"meta": hx.Codes(c.Info.Metadata)})
	}
	ev["out"] = out
}
