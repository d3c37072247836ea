package glog

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"github.com/go-stack/stack"
	"verifharness/drv/glog/sub"
	"verifharness/drv/glog/sub/deep"
	"verifharness/rec"
)

type site struct {
	f    func(l log.Logger, lvl int, msg string) (stack.Call, string, int)
	dir  string
	call stack.Call
	file string
	line int // of the direct record
}

func codes(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

func allSites() (out []*site) {
	add := func(dir string, fs []func(log.Logger, int, string) (stack.Call, string, int)) {
		for _, f := range fs {
			s := &site{f: f, dir: dir}
			var file string
			s.call, file, s.line = f(nil, -1, "")
			s.file = filepath.Base(file)
			out = append(out, s)
		}
	}
	add("verifharness/drv/glog", Sites)
	add("verifharness/drv/glog", SitesAB)
	add("verifharness/drv/glog/sub", sub.Sites)
	add("verifharness/drv/glog/sub", sub.SitesG)
	add("verifharness/drv/glog/sub/deep", deep.Sites)
	add("verifharness/drv/glog/sub/deep", deep.SitesA)
	return
}

// the line of each level below the direct record's
var lineOf = map[int]int{1: 4, 2: 6, 3: 8, 4: 10, 5: 12}

func TestDrive(t *testing.T) {
	sites := allSites()
	rec.Drive(t, func(r *rec.T) {
		var hdr []rec.Ev
		for _, s := range sites {
			var comps [][]int
			for _, c := range strings.Split(s.dir+"/"+s.file, "/") {
				comps = append(comps, codes(c))
			}
			hdr = append(hdr, rec.Ev{"path": comps, "file": codes(s.file)})
		}
		r.Log(rec.Ev{"e": "Init", "sites": hdr})
		var mu sync.Mutex
		op := 0
		next := func() int { mu.Lock(); defer mu.Unlock(); op++; return op }
		mk := func(leaf int) log.Handler {
			return log.FuncHandler(func(rc *log.Record) error {
				o, st := 0, 0
				msg := rc.Msg
				if k := strings.Index(msg, "\n\n"); k > 0 && strings.Contains(msg[k:], "goroutine ") {
					st, msg = 1, msg[:k]
				}
				if strings.HasPrefix(msg, "m") {
					o, _ = strconv.Atoi(msg[1:])
				}
				r.Log(rec.Ev{"e": "Deliver", "o": o, "leaf": leaf, "lvl": int(rc.Lvl), "st": st})
				if o%3 == 0 {
					return errX
				}
				return nil
			})
		}
		h := log.NewGlogHandler(mk(1))
		l := log.New()
		l.SetHandler(h)
		inner := l
		if r.P(50) {
			inner = l.New("k", "v")
		}
		doLog := func(s, lvl int, direct bool) {
			o := next()
			x := sites[s]
			line := x.line
			if !direct {
				line += lineOf[lvl]
			}
			r.Log(rec.Ev{"e": "LogCall", "o": o, "s": s + 1, "lvl": lvl, "line": codes(strconv.Itoa(line))})
			ret := -1
			if direct {
				ret = 0
				if err := h.Log(&log.Record{Lvl: log.Lvl(lvl), Msg: fmt.Sprint("m", o), Call: x.call}); err == errX {
					ret = 1
				} else if err != nil {
					ret = 2
				}
			} else {
				x.f(inner, lvl, fmt.Sprint("m", o))
			}
			r.Log(rec.Ev{"e": "LogRet", "o": o, "ret": ret})
		}
		pats := []string{"a.go", "b.go", "a", "glog", "sub", "sub/*", "glog/*", "*", "*/b.go", "sub/deep/c.go", "verifharness/*", "drv/glog/a.go",
			"g*", "a.g", "deep/", "/sub", "sub/deep", "*/deep", "drv/*/deep/*", "drv/*/sub", "s.b", "dee?", "c(.go", "ab.go", "b", "verifharness", "*/verifharness/drv/*", "a.go/", "*.go", "glog/*/c.go", "glog/*/a.go", "*/*", ""}
		rules := func() string {
			var out []string
			for k := r.N(4); k >= 0; k-- {
				lvl := []string{"0", "1", "2", "3", "4", "5", "5", "4", "3", "7", "-1", "+4", " 3 ", "03", "999"}[r.N(15)]
				if r.P(4) {
					lvl = []string{"x", "", "1.5", "+", "1_0", "3 4"}[r.N(6)]
				}
				rl := pats[r.N(len(pats))] + []string{"=", "=", "=", "=", "=", "=", "=", " = "}[r.N(8)] + lvl
				if r.P(3) {
					rl = []string{"a", "a=1=2", "=", "==", " ", "a:3"}[r.N(6)]
				}
				if r.P(4) {
					rl = ""
				}
				out = append(out, rl)
			}
			if r.P(10) {
				return ""
			}
			return strings.Join(out, ",")
		}
		loc := func() string {
			if r.P(20) {
				return []string{"", "a.go", "a.go:", ":3", "a.go:x", "a.go:1:2", "a:3", "nosuch.go:3", " :3", "a.go: "}[r.N(10)]
			}
			x := sites[r.N(len(sites))]
			line := x.line
			if r.P(80) {
				line += lineOf[1+r.N(5)]
			}
			return fmt.Sprintf("%s:%d", x.file, line)
		}
		var verb, vmod, back func()
		verb = func() {
			o, n := next(), r.N(6)
			if r.P(10) {
				n = 9
			}
			r.Log(rec.Ev{"e": "VerbCall", "o": o, "n": n})
			h.Verbosity(log.Lvl(n))
			r.Log(rec.Ev{"e": "VerbRet", "o": o})
		}
		vmod = func() {
			o, s := next(), rules()
			r.Log(rec.Ev{"e": "VmodCall", "o": o, "s": codes(s), "str": s})
			err := h.Vmodule(s)
			r.Log(rec.Ev{"e": "VmodRet", "o": o, "ok": map[bool]int{true: 1}[err == nil]})
		}
		back = func() {
			o, s := next(), loc()
			r.Log(rec.Ev{"e": "BackCall", "o": o, "s": codes(s), "str": s})
			err := h.BacktraceAt(s)
			r.Log(rec.Ev{"e": "BackRet", "o": o, "ok": map[bool]int{true: 1}[err == nil]})
		}
		usesBack := r.P(40)
		var one func(conc bool)
		lvls := func() (int, bool) {
			if r.P(30) {
				return r.N(6), true
			}
			return 1 + r.N(5), false
		}
		focus := r.N(len(sites))
		one = func(conc bool) {
			switch c := r.N(12); {
			case c == 0:
				verb()
			case c <= 2:
				vmod()
			case c == 3 && usesBack:
				back()
			case c == 4 && !conc && r.P(30):
				o := next()
				h.SetHandler(mk(o))
				r.Log(rec.Ev{"e": "SetH", "leaf": o})
			default:
				s := focus
				if r.P(50) {
					s = r.N(len(sites))
				}
				lv, d := lvls()
				doLog(s, lv, d)
			}
		}
		for k := 4 + r.N(12); k > 0; k-- {
			one(false)
		}
		if r.P(40) { // reconfiguration while a call site is seen for the first time
			for n := 1 + r.N(2); n > 0; n-- {
				verb()
				vmod()
				d1, d2, lv := r.N(25), r.N(25), 1+r.N(5)
				go func() { time.Sleep(time.Duration(d1)); vmod() }()
				go func() { time.Sleep(time.Duration(d2)); doLog(focus, lv, true) }()
				time.Sleep(time.Second)
				doLog(focus, lv, true)
			}
		} else if r.P(50) {
			for g := 2 + r.N(2); g > 0; g-- {
				n, d := 1+r.N(3), r.N(40)
				go func() {
					time.Sleep(time.Duration(d))
					for ; n > 0; n-- {
						one(true)
					}
				}()
			}
			time.Sleep(time.Second)
			for k := 0; k < 5; k++ {
				doLog(r.N(len(sites)), r.N(6), true)
			}
		}
		r.Log(rec.Ev{"e": "End"})
	})
}

var errX = fmt.Errorf("origin error")
