// Package rpcmsg runs the message forms of the RPC package.
package rpcmsg

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"

	"flychain/rpc"
	"verifharness/hx"
	"verifharness/rec"
)

func pick(r *rec.T, s ...string) string { return s[r.N(len(s))] }

func word(r *rec.T) string {
	b := make([]byte, r.N(7))
	for k := range b {
		b[k] = "abcxyzABC019_-. <>&/"[r.N(20)]
	}
	return string(b)
}

func id(r *rec.T) string {
	return pick(r, "1", "0", "-7", "12345678901234567890", "1.5", `"a"`, `""`, `"x y"`, "null", "true", "false", fmt.Sprint(r.N(1000)), `"`+strings.Trim(word(r), " ")+`"`)
}

func value(r *rec.T, deep int) interface{} {
	switch r.N(9) {
	case 0:
		return nil
	case 1:
		return r.P(50)
	case 2:
		return r.N(1000) - 500
	case 3:
		return word(r)
	case 4:
		return ""
	case 5:
		if deep > 0 {
			var l []interface{}
			for k := r.N(4); k > 0; k-- {
				l = append(l, value(r, deep-1))
			}
			return l
		}
	case 6:
		if deep > 0 {
			m := map[string]interface{}{}
			for k := r.N(4); k > 0; k-- {
				m[word(r)] = value(r, deep-1)
			}
			return m
		}
	case 7:
		return []byte(word(r))
	}
	return struct {
		A int
		B string `json:"b,omitempty"`
	}{r.N(5), word(r)}
}

// message makes the text of a message.
func message(r *rec.T) string {
	var ms []string
	add := func(pct int, key string, vals ...string) {
		if r.P(pct) {
			ms = append(ms, fmt.Sprintf("%q:%s", key, pick(r, vals...)))
		}
	}
	if r.P(90) {
		ms = append(ms, `"jsonrpc":"2.0"`)
	} else {
		add(60, "jsonrpc", `"1.0"`, `"2"`, `""`, "2.0", "null", `"2.0 "`)
	}
	if r.P(70) {
		ms = append(ms, `"id":`+id(r))
	} else {
		add(30, "id", "{}", "[]", "[1]", `{"a":1}`)
	}
	method := pick(r, "a_b", "eth_subscribe", "eth_unsubscribe", "eth_subscription", "_subscribe", "subscribe", "a_b_c", "_", "x", "a__b", "a_subscribe_b", "eth_Subscribe", word(r))
	add(60, "method", `"`+method+`"`)
	add(8, "other", "1", `"id"`)
	if r.P(2) {
		ms = append(ms, `"method":5`)
	}
	add(35, "params", "[]", "[1,2]", "{}", "null", `["x",{"a":[]}]`)
	add(40, "result", "1", "null", `"0x1"`, "{}", "[1]", "false")
	code := fmt.Sprint(r.N(40000) - 33000)
	add(35, "error", `{"code":`+code+`,"message":"`+word(r)+`"}`, "null", `{"code":`+code+`,"message":""}`, `{}`, `{"code":`+code+`,"message":"m","data":["d",1]}`, `{"message":"only"}`, `{"code":`+code+`,"message":"","data":null}`)
	if r.P(2) {
		ms = append(ms, `"error":`+pick(r, "5", `"text"`, `{"code":"x"}`))
	}
	seen := map[string]bool{}
	var out []string
	for _, m := range ms {
		if k := strings.SplitN(m, ":", 2)[0]; !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	r.Rng.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
	return "{" + strings.Join(out, ",") + "}"
}

type coded struct {
	code int
	msg  string
}

func (c coded) Error() string  { return c.msg }
func (c coded) ErrorCode() int { return c.code }

type dataOnly struct {
	msg  string
	data interface{}
}

func (d dataOnly) Error() string          { return d.msg }
func (d dataOnly) ErrorData() interface{} { return d.data }

type both struct {
	coded
	data interface{}
}

func (b both) ErrorData() interface{} { return b.data }

func reply(r *rec.T) rec.Ev {
	req := &rpc.VMsg{Version: []string{"2.0", "2.0", "", "1.0"}[r.N(4)], ID: json.RawMessage(id(r)), Method: "a_b", Params: json.RawMessage("[1]")}
	ev := rec.Ev{"e": "Rec", "kind": "reply", "id": hx.Codes(req.ID), "err": 1, "ek": 0, "code": 0, "a": []int{}, "b": []int{}, "want": hx.Codes("null"), "hasdata": 0}
	var m *rpc.VMsg
	if r.P(40) {
		var v interface{}
		switch r.N(12) {
		case 0:
			v = make(chan int)
		case 1:
			v = math.NaN()
		case 2:
			v = map[string]interface{}{"a": func() {}}
		default:
			v = value(r, 2)
		}
		if b, err := json.Marshal(v); err == nil {
			ev["err"], ev["want"] = 0, hx.Codes(b)
		} else {
			ev["ek"] = 20
		}
		m = rpc.VResponse(req, v)
	} else {
		var err error
		k := r.N(11)
		a, b, code := word(r), word(r), r.N(70000)-35000
		var data interface{}
		switch {
		case k <= 6:
			if k == 1 {
				a, b = strings.Trim(a, "<>&"), strings.Trim(b, "<>&")
			}
			err = rpc.VError(k, a, b, code)
		case k == 7:
			err = errors.New(a)
		case k == 8:
			err = coded{code, a}
		case k == 9:
			data = value(r, 2)
			err = dataOnly{a, data}
		case k == 10:
			data = value(r, 2)
			err = both{coded{code, a}, data}
		}
		want, _ := json.Marshal(data)
		ev["ek"], ev["code"], ev["a"], ev["b"], ev["want"], ev["hasdata"] = k, code, hx.Codes(a), hx.Codes(b), hx.Codes(want), hx.Flag(data != nil)
		if r.P(20) {
			m = rpc.VErrorMessage(err)
			ev["id"] = hx.Codes("null")
		} else {
			m = rpc.VErrResponse(req, err)
		}
	}
	ev["doc"] = hx.Codes(m.String())
	b, err := json.Marshal(m)
	ev["same"] = hx.Flag(err == nil && string(b) == m.String())
	return ev
}

func batch(r *rec.T) rec.Ev {
	n := r.N(6)
	var calls []*rpc.VMsg
	ids := [][]int{}
	for k := 1; k <= n; k++ {
		m := &rpc.VMsg{Version: "2.0", Method: "a_b", ID: json.RawMessage(fmt.Sprint(k))}
		switch r.N(8) {
		case 0, 1:
			m.ID = nil
		case 2: // neither a call nor a notification, but answered
			m.Method = ""
		case 3:
			m.Version = []string{"", "1.0"}[r.N(2)]
		}
		ids = append(ids, hx.Codes(m.ID))
		calls = append(calls, m)
	}
	b := rpc.VNewBatch(append([]*rpc.VMsg{}, calls...))
	ops := []rec.Ev{}
	writes := []rec.Ev{}
	conn := &rpc.VConn{Write: func(v interface{}, isErr bool) error {
		t, err := json.Marshal(v)
		if err != nil {
			t = []byte("?")
		}
		writes = append(writes, rec.Ev{"doc": hx.Codes(t), "err": hx.Flag(isErr)})
		return nil
	}}
	note := func(op string, res int) {
		ops = append(ops, rec.Ev{"op": op, "res": res, "writes": len(writes)})
	}
	left := n
	for k := 3 + r.N(12); k > 0; k-- {
		switch r.N(8) {
		case 0:
			b.Timeout(conn)
			note("timeout", 0)
		case 1:
			b.Finish(conn)
			note("finish", 0)
		default:
			m := b.Next()
			pos := 0
			for j, c := range calls {
				if c == m {
					pos = j + 1
				}
			}
			if m != nil && pos == 0 {
				pos = 99
			}
			note("next", pos)
			if m != nil && left > 0 && r.P(80) {
				left--
				if m.ID == nil {
					b.Push(nil)
					note("push", 0)
				} else {
					b.Push(rpc.VResponse(m, k))
					note("push", k)
				}
			}
		}
	}
	return rec.Ev{"e": "Rec", "kind": "batch", "ids": ids, "ops": ops, "writes": writes}
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 10; k++ {
			d := message(r)
			var m rpc.VMsg
			err := json.Unmarshal([]byte(d), &m)
			ev := rec.Ev{"e": "Rec", "kind": "class", "doc": hx.Codes(d), "ok": hx.Flag(err == nil), "kinds": []int{}, "ns": []int{}, "err": []int{}, "code": 0, "data": hx.Codes("null")}
			if err == nil {
				a, b, c, d, e, ns := rpc.VKinds(&m)
				ev["kinds"], ev["ns"] = []int{hx.Flag(a), hx.Flag(b), hx.Flag(c), hx.Flag(d), hx.Flag(e)}, hx.Codes(ns)
				if err := rpc.VJsonError(&m); err != nil {
					ev["err"] = hx.Codes(err.Error())
					ev["code"] = err.(rpc.Error).ErrorCode()
					data, _ := json.Marshal(err.(rpc.DataError).ErrorData())
					ev["data"] = hx.Codes(data)
				}
			}
			r.Log(ev)
			r.Log(reply(r))
			if k%2 == 0 {
				r.Log(batch(r))
			}
			h := rpc.HTTPError{Status: word(r), Body: []byte(word(r))}
			r.Log(rec.Ev{"e": "Rec", "kind": "http", "status": hx.Codes(h.Status), "body": hx.Codes(h.Body), "out": hx.Codes(h.Error())})
		}
	})
}
