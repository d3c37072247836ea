// Package logger drives trees of loggers and their handlers.
package logger

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"verifharness/rec"
)

type exitPanic struct{}

var errs = []error{errors.New("e0"), errors.New("e1")}

func enc(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return "s:" + v
	case int:
		return "i:" + strconv.Itoa(v)
	case error:
		return "err:" + v.Error()
	case log.Ctx:
		var ks []string
		for k, x := range v {
			ks = append(ks, k+"="+enc(x))
		}
		sort.Strings(ks)
		return "map{" + strings.Join(ks, ",") + "}"
	}
	return fmt.Sprintf("other:%T", v)
}

func encAll(vs []interface{}) []string {
	out := make([]string, len(vs))
	for i, v := range vs {
		out[i] = enc(v)
	}
	return out
}

var first = true

func TestDrive(t *testing.T) {
	rec.Drive(t, func(r *rec.T) {
		var mu sync.Mutex // protects the tables below
		r.Log(rec.Ev{"e": "Init", "root": 1})
		loggers := map[int]log.Logger{1: log.Root()}
		children := map[int]int{} // logger -> parent it inherits from at creation
		n, leaves, op, ctr := 1, 0, 0, 0
		depth := r.N(3)
		mkLeaf := func(id int) log.Handler {
			return log.FuncHandler(func(rc *log.Record) error {
				o := 0
				if k := strings.Index(rc.Msg, "#"); k > 0 {
					o, _ = strconv.Atoi(rc.Msg[:k])
				}
				r.Log(rec.Ev{"e": "Deliver", "o": o, "leaf": id, "lvl": int(rc.Lvl), "msg": rc.Msg, "ctx": encAll(rc.Ctx)})
				crit := rc.Lvl == log.LvlCrit
				// handlers are allowed to work on the record
				for i := range rc.Ctx {
					rc.Ctx[i] = "clobbered"
				}
				rc.Ctx = append(rc.Ctx, "more", 1)
				rc.Msg, rc.Lvl = "clobbered", log.LvlTrace
				if crit {
					panic(exitPanic{})
				}
				return nil
			})
		}
		shared := make([]interface{}, 12)
		value := func() interface{} {
			ctr++
			switch r.N(8) {
			case 0:
				return ctr
			case 1:
				return nil
			case 2:
				return errs[r.N(2)]
			default:
				return "v" + strconv.Itoa(ctr)
			}
		}
		// arguments: a slice with spare capacity, whole backing array under watch
		mkArgs := func(conc bool) (args, backing []interface{}) {
			switch r.N(10) {
			case 0:
				m := log.Ctx{}
				for k := r.N(4); k > 0; k-- {
					ctr++
					m["k"+strconv.Itoa(ctr)] = value()
				}
				backing = []interface{}{m, "spare1", "spare2"}
				return backing[:1], backing
			case 1:
				if !conc {
					for i := range shared {
						shared[i] = value()
					}
					backing = shared
					return shared[:r.N(7)], backing
				}
				fallthrough
			default:
				l := r.N(6)
				backing = make([]interface{}, l+r.N(4))
				for i := range backing {
					backing[i] = value()
					if i <= 1 && l > 1 && r.P(8) {
						backing[i] = log.Ctx{"in": "map"}
					}
				}
				return backing[:l], backing
			}
		}
		argEv := func(args []interface{}) (ev rec.Ev) {
			ev = rec.Ev{"args": encAll(args), "map": 0, "pairs": [][]string{}}
			if len(args) == 1 {
				if m, ok := args[0].(log.Ctx); ok {
					ps := [][]string{}
					for k, v := range m {
						ps = append(ps, []string{"s:" + k, enc(v)})
					}
					sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
					ev["map"], ev["pairs"] = 1, ps
				}
			}
			return ev
		}
		scribble := func(backing []interface{}) {
			if r.P(50) { // the caller may reuse its slice
				for i := range backing {
					backing[i] = "reused"
				}
			}
		}
		with := func(ev rec.Ev, more rec.Ev) rec.Ev {
			for k, v := range more {
				ev[k] = v
			}
			return ev
		}
		doNew := func(p int, args, backing []interface{}, pkg bool) {
			ev := argEv(args)
			mu.Lock()
			parent := loggers[p]
			mu.Unlock()
			before := encAll(backing)
			var l log.Logger
			if pkg {
				l = log.New(args...)
			} else {
				l = parent.New(args...)
			}
			mu.Lock()
			n++
			id := n
			loggers[id] = l
			children[id] = p
			r.Log(with(ev, rec.Ev{"e": "New", "id": id, "p": p, "before": before, "after": encAll(backing)}))
			mu.Unlock()
			scribble(backing)
		}
		doSet := func(id, leaf int) {
			mu.Lock()
			op++
			o := op
			l := loggers[id]
			mu.Unlock()
			h := mkLeaf(leaf)
			r.Log(rec.Ev{"e": "SetCall", "o": o, "l": id, "leaf": leaf})
			l.SetHandler(h)
			r.Log(rec.Ev{"e": "SetRet", "o": o})
		}
		doLog := func(id, lvl int, args, backing []interface{}, pkg int, suffix string) {
			ev := argEv(args)
			mu.Lock()
			op++
			o := op
			l := loggers[id]
			mu.Unlock()
			msg := strconv.Itoa(o) + "#" + suffix
			before := encAll(backing)
			r.Log(with(ev, rec.Ev{"e": "LogCall", "o": o, "l": id, "lvl": lvl, "msg": msg}))
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(exitPanic); !ok {
							r.Log(rec.Ev{"e": "LogPanic", "o": o, "msg": fmt.Sprint(x)})
						}
					}
				}()
				switch pkg {
				case 0:
					[]func(string, ...interface{}){l.Crit, l.Error, l.Warn, l.Info, l.Debug, l.Trace}[lvl](msg, args...)
				case 1:
					[]func(string, ...interface{}){log.Crit, log.Error, log.Warn, log.Info, log.Debug, log.Trace}[lvl](msg, args...)
				default:
					log.Output(msg, log.Lvl(lvl), r.N(2), args...)
				}
			}()
			r.Log(rec.Ev{"e": "LogRet", "o": o, "before": before, "after": encAll(backing)})
			scribble(backing)
		}
		crit := func(id int) bool { // may Crit be called: some leaf is configured upwards, so that exit is prevented
			return leaves > 0
		}
		_ = crit
		pick := func() int {
			mu.Lock()
			defer mu.Unlock()
			k := 1 + r.N(n)
			if depth > 0 && r.P(30) {
				k = n
			}
			return k
		}
		if first && r.P(100) {
			// nothing configured yet in this process
			first = false
			r.Log(rec.Ev{"e": "Fresh"})
			a, b := mkArgs(false)
			doLog(1, 1+r.N(5), a, b, r.N(3), "x")
			doNew(1, nil, nil, true)
			doLog(2, 1+r.N(5), nil, nil, 0, "x")
		}
		leaves++
		doSet(1, leaves)
		for k := 3 + r.N(10); k > 0; k-- {
			switch c := r.N(10); {
			case c < 3:
				p := pick()
				a, b := mkArgs(false)
				doNew(p, a, b, p == 1 && r.P(50))
			case c < 5:
				leaves++
				doSet(pick(), leaves)
			case c == 5:
				// give a logger the handler another one has now
				l, m := pick(), pick()
				if l <= m { // handlers refer to older loggers only: no cycles
					l, m = m, l
				}
				if l != m {
					op++
					r.Log(rec.Ev{"e": "SetGet", "l": l, "m": m})
					loggers[l].SetHandler(loggers[m].GetHandler())
				}
			default:
				p, lvl := pick(), r.N(6)
				a, b := mkArgs(false)
				pkg := 0
				if p == 1 {
					pkg = r.N(3)
				}
				doLog(p, lvl, a, b, pkg, []string{"", "text", "a b", "ü\n"}[r.N(4)])
			}
		}
		if r.P(60) { // concurrently
			for g := 2 + r.N(3); g > 0; g-- {
				type job func()
				var jobs []job
				for k := 1 + r.N(3); k > 0; k-- {
					p := pick()
					switch c := r.N(10); {
					case c < 2:
						a, b := mkArgs(true)
						jobs = append(jobs, func() { doNew(p, a, b, false) })
					case c < 5:
						leaves++
						lf := leaves
						jobs = append(jobs, func() { doSet(p, lf) })
					default:
						a, b := mkArgs(true)
						lvl := r.N(6)
						jobs = append(jobs, func() { doLog(p, lvl, a, b, 0, "c") })
					}
				}
				d := r.N(30)
				go func() {
					time.Sleep(time.Duration(d))
					for _, j := range jobs {
						j()
					}
				}()
			}
			time.Sleep(time.Second)
		}
		// every logger still has its own context and handler
		for id := 1; id <= n; id++ {
			doLog(id, 3, nil, nil, 0, "end")
		}
		r.Log(rec.Ev{"e": "End"})
	})
}

func TestMain(m *testing.M) { os.Exit(m.Run()) }
