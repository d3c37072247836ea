// Package rpcsvc runs the registration of services and the calls of their methods. The receivers are generated.
package rpcsvc

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"flychain/rpc"
	"verifharness/hx"
	"verifharness/rec"
)

type Thing struct{ N int }

type key struct{}

// plan is what the next method does; the methods report to it.
type plan struct {
	n     int
	err   error
	panic int
	seen  []rec.Ev
}

type work struct {
	n   int
	err error
}

var now *plan

var errPlanned = errors.New("planned")

func text(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case context.Context:
		return fmt.Sprint("ctx ", v.Value(key{}))
	case *Thing:
		if v == nil {
			return "no thing"
		}
		return fmt.Sprint("*", *v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func enter(name string, args ...interface{}) work {
	l := []string{}
	for _, a := range args {
		l = append(l, text(a))
	}
	p := now
	p.seen = append(p.seen, rec.Ev{"m": name, "args": l})
	switch p.panic {
	case 1:
		panic("planned")
	case 2:
		panic(errPlanned)
	case 3:
		var t *Thing
		t.N++
	case 4:
		panic(p)
	case 5:
		_ = []int{}[p.n]
	}
	return work{p.n, p.err}
}

var sub = new(rpc.Subscription)

// result makes a value of type T.
func result[T any](w work) (t T) {
	switch x := any(&t).(type) {
	case *int:
		*x = w.n
	case *string:
		*x = fmt.Sprint("s", w.n)
	case *bool:
		*x = w.n%2 == 1
	case **rpc.Subscription:
		*x = sub
	case *rpc.Subscription:
		*x = rpc.Subscription{ID: "0x5"}
	case **Thing:
		if w.n%3 > 0 {
			*x = &Thing{w.n}
		}
	case *[]int:
		*x = []int{w.n, w.n}
	case *any:
		if w.n%3 > 0 {
			*x = w.n
		}
	}
	return t
}

func show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *rpc.Subscription:
		if v == sub {
			return "the subscription"
		}
	case rpc.Subscription:
		return "subscription " + string(v.ID)
	case *Thing:
		if v == nil {
			return "no thing"
		}
		return fmt.Sprint("thing ", v.N)
	case error:
		return "error"
	}
	return fmt.Sprintf("%T %v", v, v)
}

// argument makes a value of a type and its text.
func argument(r *rec.T, t reflect.Type) (reflect.Value, string) {
	var v interface{}
	switch t.String() {
	case "int":
		v = r.N(100)
	case "uint64":
		v = uint64(r.N(100))
	case "float64":
		v = float64(r.N(100)) / 4
	case "string":
		v = fmt.Sprint("a", r.N(100))
	case "bool":
		v = r.P(50)
	case "[]int":
		v = []int{r.N(100)}
	case "map[string]int":
		v = map[string]int{"k": r.N(100)}
	case "*rpcsvc.Thing":
		v = &Thing{r.N(100)}
		if r.P(20) {
			v = (*Thing)(nil)
		}
	case "rpcsvc.Thing":
		v = Thing{r.N(100)}
	case "rpc.ID":
		v = rpc.ID(fmt.Sprint("0x", r.N(100)))
	case "context.Context":
		v = context.WithValue(context.Background(), key{}, 1000+r.N(100))
	case "interface {}":
		if r.P(30) {
			return reflect.Zero(t), "nil"
		}
		v = r.N(100)
		x := reflect.New(t).Elem()
		x.Set(reflect.ValueOf(v))
		return x, text(v)
	default:
		panic("unknown type " + t.String())
	}
	return reflect.ValueOf(v), text(v)
}

func name(r *rec.T) string {
	return []string{"", "a", "b", "eth", "rpc", "a_b", "é", "a b"}[r.N(8)]
}

var methods = []string{"get", "getAb", "send", "a", "aB", "x_y", "subscribe", "uRL", "événement", "σum", "modules", "logs", "z9", "call", "b_subscribe", "newHeads",
	"Get", "", "none", "get_", "newheads", "éa"}

func codes(s string) []int {
	out := []int{}
	for _, c := range s {
		out = append(out, int(c))
	}
	return out
}

func types(c *rpc.VCallback) []string {
	out := []string{}
	if c != nil {
		for _, t := range c.Args() {
			out = append(out, t.String())
		}
	}
	return out
}

func modules(s *rpc.Server) [][]int {
	c := rpc.VLookup(s, "rpc_modules")
	v, _ := c.Call(context.Background(), "rpc_modules", nil)
	out := [][]int{}
	for k, version := range v.(map[string]string) {
		if version != "1.0" {
			k = "version " + version
		}
		out = append(out, codes(k))
	}
	return out
}

func TestDrive(t *testing.T) {
	rec.DrivePlain(t, func(r *rec.T) {
		s := rpc.NewServer()
		ops := []rec.Ev{}
		add := func(op string, ev rec.Ev) {
			ev["op"] = op
			for _, f := range []string{"name", "meth"} {
				if ev[f] == nil {
					ev[f] = []int{}
				}
			}
			ops = append(ops, ev)
		}
		modulesKept := true // rpc_modules may be replaced by another service under that name
		reg := func(n string, k int) {
			err := s.RegisterName(n, receivers[k])
			add("reg", rec.Ev{"name": codes(n), "r": k + 1, "ok": hx.Flag(err == nil)})
			if n == "rpc" {
				modulesKept = false
			}
		}
		look := func(n, m string, asSub bool) *rpc.VCallback {
			var c *rpc.VCallback
			if asSub {
				c = rpc.VLookupSub(s, n, m)
				add("look", rec.Ev{"name": codes(n), "meth": codes(m), "sub": 1, "found": hx.Flag(c != nil), "types": types(c), "is": hx.Flag(c != nil && c.IsSub())})
			} else {
				full := n + "_" + m
				if r.P(5) {
					full = n
				}
				c = rpc.VLookup(s, full)
				add("look", rec.Ev{"name": codes(full), "sub": 0, "found": hx.Flag(c != nil), "types": types(c), "is": hx.Flag(c != nil && c.IsSub())})
			}
			return c
		}
		for k := 15 + r.N(40); k > 0; k-- {
			switch {
			case r.P(20):
				reg(name(r), r.N(len(receivers)))
			case r.P(5) && modulesKept:
				add("mods", rec.Ev{"names": modules(s)})
			default:
				c := look(name(r), methods[r.N(len(methods))], r.P(25))
				if c == nil {
					continue
				}
				own := false
				var args []reflect.Value
				texts := []string{}
				for _, t := range c.Args() {
					v, x := argument(r, t)
					args, texts = append(args, v), append(texts, x)
				}
				p := &plan{n: r.N(50)}
				if r.P(30) {
					p.err = errPlanned
				}
				if r.P(15) {
					p.panic = 1 + r.N(5)
					if p.panic == 5 {
						p.n = 3
					}
				}
				now = p
				cv := r.N(1000)
				ctx := context.WithValue(context.Background(), key{}, cv)
				ev := rec.Ev{"n": p.n, "plan": []string{"ok", "err"}[hx.Flag(p.err != nil)], "args": texts, "cv": fmt.Sprint("ctx ", cv), "via": 0, "res": "", "out": "ok"}
				if p.panic > 0 {
					ev["plan"] = "panic"
				}
				judge := func(err error) {
					var e rpc.Error
					if errors.As(err, &e) && e.ErrorCode() == -32603 && err.Error() == "method handler crashed" {
						ev["out"] = "panic"
					} else if err == errPlanned || err != nil && err.Error() == "planned" && (e == nil || e.ErrorCode() == -32000) {
						ev["out"] = "err"
					} else if err != nil {
						ev["out"] = "another error: " + err.Error()
					}
				}
				if r.P(60) {
					v, err := c.Call(ctx, "m", args)
					judge(err)
					if err == nil {
						ev["res"] = show(v)
					}
				} else {
					ev["via"] = 1
					m := rpc.VRun(ctx, &rpc.VMsg{Version: "2.0", ID: json.RawMessage("7"), Method: "m"}, c, args)
					judge(rpc.VJsonError(m))
					if m.Error == nil {
						ev["res"] = string(m.Result)
					}
					if string(m.ID) != "7" || m.Version != "2.0" || m.Error != nil && m.Result != nil {
						ev["out"] = "malformed answer"
					}
				}
				own = len(p.seen) == 0 && strings.HasPrefix(fmt.Sprint(ev["res"]), "map") || ev["via"] == 1 && len(p.seen) == 0
				if p.seen == nil {
					p.seen = []rec.Ev{}
				}
				ev["seen"], ev["own"] = p.seen, hx.Flag(own)
				add("call", ev)
			}
		}
		// services registered and looked up at the same time
		var wg sync.WaitGroup
		ks := make([]int, 24)
		for g := 0; g < 4; g++ {
			for j := 0; j < 6; j++ {
				ks[g*6+j] = r.N(len(receivers))
			}
		}
		oks := make([]bool, len(ks))
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 6; j++ {
					oks[g*6+j] = s.RegisterName(fmt.Sprint("c", g*6+j), receivers[ks[g*6+j]]) == nil
					rpc.VLookup(s, "a_get")
					rpc.VLookupSub(s, "c1", "logs")
				}
			}()
		}
		wg.Wait()
		for k := range ks {
			add("reg", rec.Ev{"name": codes(fmt.Sprint("c", k)), "r": ks[k] + 1, "ok": hx.Flag(oks[k])})
		}
		for k := range ks {
			look(fmt.Sprint("c", k), methods[r.N(len(methods))], r.P(30))
		}
		if modulesKept {
			add("mods", rec.Ev{"names": modules(s)})
		}
		r.Log(rec.Ev{"e": "Rec", "ops": ops})
	})
}
