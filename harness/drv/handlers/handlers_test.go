// Package handlers drives compositions of log handlers.
package handlers

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"github.com/go-stack/stack"
	"verifharness/rec"
)

type el map[string]string // k: v value, z lazy not evaluated, e error note of a bad lazy

func enc(v interface{}) el {
	switch v := v.(type) {
	case nil:
		return el{"k": "v", "v": "nil"}
	case string:
		return el{"k": "v", "v": "s:" + v}
	case int:
		return el{"k": "v", "v": "i:" + strconv.Itoa(v)}
	case log.Lazy:
		return el{"k": "z", "v": ""}
	case error:
		if strings.HasPrefix(v.Error(), "INVALID_LAZY") {
			return el{"k": "e", "v": ""}
		}
		return el{"k": "v", "v": "err:" + v.Error()}
	case []interface{}:
		s := "list"
		for _, x := range v {
			s += " " + enc(x)["v"]
		}
		return el{"k": "v", "v": s}
	}
	return el{"k": "v", "v": fmt.Sprintf("other:%T", v)}
}

type node map[string]interface{}

type world struct {
	r       *rec.T
	async   bool
	conc    bool
	nrec    int
	ids     int
	mu      sync.Mutex
	recs    map[*log.Record]int
	inside  map[int]int
	overlap map[int]bool
	out     []rec.Ev
	written map[int][]int
	pre     map[int][]int
	files   map[int]string
	gates   []*gate
	chans   []chan *log.Record
	dir     string
	closers []func()
}

// gate counts what goes into and comes out of an asynchronous handler
type gate struct {
	mu      sync.Mutex
	in, out int
}

func (g *gate) add(in, out int) {
	g.mu.Lock()
	g.in += in
	g.out += out
	g.mu.Unlock()
}

func (w *world) enter(id int, rc *log.Record) int {
	w.mu.Lock()
	w.inside[id]++
	if w.inside[id] > 1 {
		w.overlap[id] = true
	}
	k, ok := w.recs[rc]
	if !ok {
		k = -1
		if _, err := fmt.Sscanf(rc.Msg, "m%d", &k); err != nil {
			k = -1
		}
	}
	ctx := []el{}
	for _, x := range rc.Ctx {
		ctx = append(ctx, enc(x))
	}
	w.out = append(w.out, rec.Ev{"leaf": id, "rec": k, "lvl": int(rc.Lvl), "msg": rc.Msg, "ctx": ctx})
	w.mu.Unlock()
	if w.conc {
		time.Sleep(time.Duration(w.r.Rng.IntN(3)))
	}
	return k
}

func (w *world) leave(id int) {
	w.mu.Lock()
	w.inside[id]--
	w.mu.Unlock()
}

func (w *world) subset() ([]int, map[int]bool) {
	l, m := []int{}, map[int]bool{}
	p := []int{0, 30, 50, 100}[w.r.N(4)]
	for k := 1; k <= w.nrec; k++ {
		if w.r.P(p) {
			l, m[k] = append(l, k), true
		}
	}
	return l, m
}

type failing struct {
	w  *world
	id int
	m  map[int]bool
}

func (f failing) Write(p []byte) (int, error) {
	k, _ := strconv.Atoi(strings.TrimSpace(string(p)))
	f.w.mu.Lock()
	f.w.written[f.id] = append(f.w.written[f.id], k)
	f.w.mu.Unlock()
	f.w.leave(f.id)
	if f.m[k] {
		return 0, fmt.Errorf("leaf%d", f.id)
	}
	return len(p), nil
}

func (w *world) gen(depth int, split bool) (log.Handler, node) {
	r := w.r
	w.ids++
	id := w.ids
	mut := !(w.async && split)
	if depth == 0 || r.P(15) {
		switch c := r.N(12); {
		case c == 0:
			return log.DiscardHandler(), node{"t": "discard"}
		case c == 1 && mut:
			l, m := w.subset()
			h := log.StreamHandler(failing{w, id, m}, log.FormatFunc(func(rc *log.Record) []byte {
				return []byte(fmt.Sprintf("%d\n", w.enter(id, rc)))
			}))
			return h, node{"t": "stream", "id": id, "fails": l, "err": fmt.Sprintf("leaf%d", id)}
		case c == 2 && mut && r.P(30):
			path := filepath.Join(w.dir, fmt.Sprint("f", id))
			w.files[id] = path
			if r.P(50) { // what is there already stays
				os.WriteFile(path, []byte("900\n901\n"), 0644)
				w.pre[id] = []int{900, 901}
			}
			h, err := log.FileHandler(path, log.FormatFunc(func(rc *log.Record) []byte {
				k := w.enter(id, rc)
				w.leave(id)
				return []byte(fmt.Sprintf("%d\n", k))
			}))
			if err != nil {
				panic(err)
			}
			if c, ok := h.(interface{ Close() error }); ok {
				w.closers = append(w.closers, func() { c.Close() })
			}
			return h, node{"t": "stream", "id": id, "fails": []int{}, "err": ""}
		case c == 3 && w.async:
			ch := make(chan *log.Record, r.N(3))
			g := &gate{}
			w.gates = append(w.gates, g)
			w.chans = append(w.chans, ch)
			go func() {
				for rc := range ch {
					w.enter(id, rc)
					w.leave(id)
					g.add(0, 1)
				}
			}()
			h := log.ChannelHandler(ch)
			return log.FuncHandler(func(rc *log.Record) error { g.add(1, 0); return h.Log(rc) }), node{"t": "async", "c": node{"t": "leaf", "id": id, "fails": []int{}, "panics": []int{}, "err": ""}}
		}
		l, m := w.subset()
		pl, pm := []int{}, map[int]bool{}
		if !w.async && r.P(10) {
			pl, pm = w.subset()
		}
		h := log.FuncHandler(func(rc *log.Record) error {
			k := w.enter(id, rc)
			w.leave(id)
			if pm[k] {
				panic(fmt.Sprintf("leaf%d", id))
			}
			if m[k] {
				return fmt.Errorf("leaf%d", id)
			}
			return nil
		})
		return h, node{"t": "leaf", "id": id, "fails": l, "panics": pl, "err": fmt.Sprintf("leaf%d", id)}
	}
	sub := func(s bool) (log.Handler, node) { return w.gen(depth-1, s) }
	many := func(s bool) (hs []log.Handler, ns []node) {
		ns = []node{}
		for k := r.N(4); k > 0; k-- {
			h, n := sub(s)
			hs, ns = append(hs, h), append(ns, n)
		}
		return
	}
	switch c := r.N(14); {
	case c == 0:
		l, m := w.subset()
		h, n := sub(split)
		return log.FilterHandler(func(rc *log.Record) bool {
			var k int
			fmt.Sscanf(rc.Msg, "m%d", &k)
			return m[k]
		}, h), node{"t": "filter", "pass": l, "c": n}
	case c == 1:
		lv := r.N(6)
		h, n := sub(split)
		return log.LvlFilterHandler(log.Lvl(lv), h), node{"t": "lvl", "n": lv, "c": n}
	case c <= 3:
		h, n := sub(split)
		switch r.N(5) {
		case 0:
			lv := r.N(6)
			return log.MatchFilterHandler("L", log.Lvl(lv), h), node{"t": "match", "key": "L", "val": lv, "c": n}
		case 1:
			k := 1 + r.N(w.nrec)
			return log.MatchFilterHandler("M", fmt.Sprintf("m%d", k), h), node{"t": "match", "key": "M", "val": k, "c": n}
		case 2:
			k := 1 + r.N(w.nrec)
			return log.MatchFilterHandler("T", stamp(k), h), node{"t": "match", "key": "T", "val": k, "c": n}
		default:
			key := []string{"a", "b", "c"}[r.N(3)]
			v := value(r)
			return log.MatchFilterHandler(key, v, h), node{"t": "match", "key": "ctx", "name": "s:" + key, "want": enc(v)["v"], "c": n}
		}
	case c <= 6:
		hs, ns := many(true)
		return log.MultiHandler(hs...), node{"t": "multi", "cs": ns}
	case c <= 9 && mut:
		hs, ns := many(split)
		if len(hs) == 0 {
			h, n := sub(split)
			hs, ns = []log.Handler{h}, []node{n}
		}
		return log.FailoverHandler(hs...), node{"t": "failover", "cs": ns, "keys": []string{"s:failover_err_0", "s:failover_err_1", "s:failover_err_2", "s:failover_err_3"}}
	case c == 10 && mut:
		h, n := sub(split)
		return log.LazyHandler(h), node{"t": "lazy", "c": n}
	case c == 11:
		h, n := sub(split)
		return log.SyncHandler(h), node{"t": "sync", "c": n}
	case c == 12 && w.async:
		h, n := sub(split)
		g := &gate{}
		w.gates = append(w.gates, g)
		b := log.BufferedHandler(r.N(4), log.FuncHandler(func(rc *log.Record) error { err := h.Log(rc); g.add(0, 1); return err }))
		return log.FuncHandler(func(rc *log.Record) error { g.add(1, 0); return b.Log(rc) }), node{"t": "async", "c": n}
	case c == 13 && mut && r.P(50):
		h, n := sub(split)
		if r.P(50) {
			return log.CallerFileHandler(h), node{"t": "note", "key": "s:caller", "val": "s:" + callFile, "c": n}
		}
		return log.CallerFuncHandler(h), node{"t": "note", "key": "s:fn", "val": "s:" + callFunc, "c": n}
	}
	return sub(split)
}

func value(r *rec.T) interface{} {
	switch r.N(4) {
	case 0:
		return r.N(3)
	case 1:
		return nil
	}
	return []string{"x", "y"}[r.N(2)]
}

func stamp(k int) time.Time { return time.Unix(1000+int64(k), 0).UTC() }

var callFile, callFunc string

// the call site of every record
func site() stack.Call {
	_, file, line, _ := runtime.Caller(0)
	c := stack.Caller(0)
	callFile = fmt.Sprintf("%s:%d", filepath.Base(file), line+1)
	callFunc = "verifharness/drv/handlers.site"
	return c
}

func TestDrive(t *testing.T) {
	f := func(r *rec.T) {
		w := &world{r: r, recs: map[*log.Record]int{}, inside: map[int]int{}, overlap: map[int]bool{}, written: map[int][]int{}, pre: map[int][]int{}, files: map[int]string{}}
		w.async = os.Getenv("VDRV_ASYNC") != ""
		w.conc = !w.async && r.P(30)
		w.nrec = 1 + r.N(5)
		if w.conc {
			w.nrec = 2 + r.N(3)
		}
		dir, err := os.MkdirTemp("", "verif-handlers")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		w.dir = dir
		call := site()
		h, n := w.gen(1+r.N(4), false)
		var all []*log.Record
		var recs []rec.Ev
		for k := 1; k <= w.nrec; k++ {
			rc := &log.Record{Time: stamp(k), Lvl: log.Lvl(r.N(6)), Msg: fmt.Sprintf("m%d", k), Call: call,
				KeyNames: log.RecordKeyNames{Time: "T", Msg: "M", Lvl: "L", Ctx: "C"}}
			ctx := []el{}
			for j := r.N(4); j > 0; j-- {
				var key interface{} = []string{"a", "b", "c", "d"}[r.N(4)]
				if r.P(5) {
					key = 7
				}
				ctx = append(ctx, enc(key))
				if r.P(25) {
					lz, res := lazy(r, k*10+j)
					rc.Ctx = append(rc.Ctx, key, lz)
					ctx = append(ctx, res)
				} else {
					v := value(r)
					rc.Ctx = append(rc.Ctx, key, v)
					ctx = append(ctx, enc(v))
				}
			}
			w.recs[rc] = k
			all = append(all, rc)
			recs = append(recs, rec.Ev{"lvl": int(rc.Lvl), "msg": rc.Msg, "ctx": ctx})
		}
		rets := make([]string, w.nrec)
		do := func(k int) {
			defer func() {
				if x := recover(); x != nil {
					rets[k] = "panic: " + fmt.Sprint(x)
				}
			}()
			rets[k] = "nil"
			if err := h.Log(all[k]); err != nil {
				rets[k] = err.Error()
			}
		}
		if w.conc {
			var wg sync.WaitGroup
			for k := range all {
				wg.Add(1)
				go func() { defer wg.Done(); do(k) }()
			}
			wg.Wait()
		} else {
			for k := range all {
				do(k)
			}
		}
		stop := time.Now().Add(10 * time.Second)
		for k := len(w.gates) - 1; k >= 0; k-- { // outer ones first
			g := w.gates[k]
			for time.Now().Before(stop) {
				g.mu.Lock()
				done := g.in == g.out
				g.mu.Unlock()
				if done {
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
		}
		for _, c := range w.chans {
			close(c)
		}
		for _, c := range w.closers {
			c()
		}
		for id, p := range w.files {
			b, _ := os.ReadFile(p)
			for _, l := range bytes.Fields(b) {
				k, _ := strconv.Atoi(string(l))
				w.written[id] = append(w.written[id], k)
			}
		}
		over := []int{}
		for id := range w.overlap {
			over = append(over, id)
		}
		wr := []rec.Ev{}
		for id, l := range w.written {
			wr = append(wr, rec.Ev{"id": id, "recs": l, "pre": append([]int{}, w.pre[id]...)})
		}
		w.mu.Lock()
		r.Log(rec.Ev{"e": "Rec", "tree": n, "recs": recs, "rets": rets, "out": append([]rec.Ev{}, w.out...), "async": w.async, "conc": w.conc, "over": over, "written": wr})
		w.mu.Unlock()
	}
	if os.Getenv("VDRV_ASYNC") != "" {
		rec.DrivePlain(t, f)
	} else {
		rec.Drive(t, f)
	}
}

var errLazy = errors.New("lazyerr")

// lazy returns a lazy value and what it becomes; its value counts how often it was evaluated
func lazy(r *rec.T, n int) (log.Lazy, el) {
	cnt := 0
	switch r.N(10) {
	case 0:
		return log.Lazy{Fn: n}, el{"k": "b", "v": ""}
	case 1:
		return log.Lazy{Fn: func(int) int { return 0 }}, el{"k": "b", "v": ""}
	case 2:
		return log.Lazy{Fn: func() {}}, el{"k": "b", "v": ""}
	case 3:
		return log.Lazy{}, el{"k": "b", "v": ""}
	case 4:
		return log.Lazy{Fn: func() (int, string) { cnt++; return cnt, "s" }}, el{"k": "z", "v": "list i:1 s:s"}
	case 5:
		return log.Lazy{Fn: func() interface{} { return nil }}, el{"k": "z", "v": "nil"}
	case 6:
		return log.Lazy{Fn: func() error { return errLazy }}, el{"k": "z", "v": "err:lazyerr"}
	case 7:
		return log.Lazy{Fn: (func() int)(nil)}, el{"k": "b", "v": ""}
	}
	return log.Lazy{Fn: func() string { cnt++; return fmt.Sprint("lazy", n, "-", cnt) }}, el{"k": "z", "v": fmt.Sprint("s:lazy", n, "-1")}
}
