// Package logentry drives the entry points of the log package.
package logentry

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"verifharness/hx"
	"verifharness/rec"
)

var entries = []string{"log.Trace", "log.Debug", "log.Info", "log.Warn", "log.Error", "Trace", "Debug", "Info", "Warn", "Error", "Output", "Output", "OutputSmall"}

// flat renders a context made of numbers.
func flat(ctx []interface{}) []int {
	out := []int{}
	for _, x := range ctx {
		switch x := x.(type) {
		case int:
			out = append(out, x)
		case nil:
			out = append(out, -1)
		case string:
			switch {
			case x == "LOG15_ERROR":
				out = append(out, -2)
			case strings.HasPrefix(x, "Normalized odd"):
				out = append(out, -3)
			case strings.HasPrefix(x, "k"):
				n := 0
				fmt.Sscan(x[1:], &n)
				out = append(out, 1000+n)
			default:
				out = append(out, -4)
			}
		default:
			out = append(out, -5)
		}
	}
	return out
}

func context(r *rec.T, base int) []interface{} {
	var out []interface{}
	for k := r.N(6); k > 0; k-- {
		out = append(out, base+k)
	}
	return out
}

func chain(r *rec.T) []frames {
	var out []frames
	for k := r.N(7); k > 0; k-- {
		out = append(out, []frames{frame1, frame2, new(recv).frame}[r.N(3)])
	}
	return out
}

var only sync.Mutex // there is one root logger

func entry(r *rec.T) rec.Ev {
	only.Lock()
	defer only.Unlock()
	var got []*log.Record
	var at []time.Time
	h := log.FuncHandler(func(x *log.Record) error {
		got = append(got, x)
		at = append(at, time.Now())
		return nil
	})
	log.Root().SetHandler(h)
	defer log.Root().SetHandler(log.DiscardHandler())
	own := context(r, 100)
	c := &call{entry: entries[r.N(len(entries))], msg: word(r), ctx: context(r, 200), lvl: log.Lvl(r.N(6)), l: log.New(own...)}
	ownOut := flat(own)
	if r.P(30) {
		more := context(r, 300)
		c.l = c.l.New(more...)
		if len(own)%2 == 1 {
			ownOut = append(ownOut, -1, -2, -3)
		}
		own, ownOut = more, append(ownOut, flat(more)...)
	}
	if len(own)%2 == 1 {
		ownOut = append(ownOut, -1, -2, -3)
	}
	if !strings.HasPrefix(c.entry, "log") && !strings.HasPrefix(c.entry, "Output") && r.P(20) { // the handler of the logger itself
		log.Root().SetHandler(log.FuncHandler(func(x *log.Record) error { got = append(got, nil); return nil }))
		c.l.SetHandler(h)
	}
	fs := chain(r)
	n := 0
	switch r.N(8) {
	case 0: // beyond the end of the stack
		n = 1000 + r.N(100000)
	case 1:
		n = 0
	default:
		n = r.N(len(fs) + 1)
	}
	c.depth = n
	before := time.Now()
	c.end(fs)(c, rest(fs))
	after := time.Now()
	ev := rec.Ev{"e": "Rec", "kind": "entry", "entry": c.entry, "depth": n, "lvl": int(c.lvl), "lines": c.lines, "files": c.files,
		"msg": hx.Codes(c.msg), "ctx": flat(c.ctx), "own": ownOut, "n": len(got), "glvl": -1, "gmsg": []int{}, "gctx": []int{}, "gline": 0, "gfile": "", "intime": 0, "keys": []string{}}
	if len(got) == 1 && got[0] != nil {
		x := got[0]
		f := x.Call.Frame()
		ev["glvl"], ev["gmsg"], ev["gctx"], ev["gline"], ev["gfile"] = int(x.Lvl), hx.Codes(x.Msg), flat(x.Ctx), f.Line, base(f.File)
		ev["intime"] = hx.Flag(!x.Time.Before(before) && !x.Time.After(after) && !x.Time.After(at[0]))
		ev["keys"] = []string{x.KeyNames.Time, x.KeyNames.Lvl, x.KeyNames.Msg, x.KeyNames.Ctx}
	}
	return ev
}

func word(r *rec.T) string {
	b := make([]byte, r.N(8))
	for k := range b {
		b[k] = "abc %=\"\n{}\\\x00"[r.N(11)]
	}
	return string(b)
}

var names = []string{"trace", "trce", "debug", "dbug", "info", "warn", "error", "eror", "crit"}

func caught(f func() string) (s string, ok int) {
	defer func() {
		if recover() != nil {
			s, ok = "", 0
		}
	}()
	return f(), 1
}

func level(r *rec.T) rec.Ev {
	l := log.Lvl(r.N(12) - 3)
	if r.P(10) {
		l = log.Lvl(r.N(1<<30) - 1<<29)
	}
	s, ok := caught(l.String)
	a, ok2 := caught(l.AlignedString)
	in := names[r.N(len(names))]
	if r.P(40) {
		p := r.N(len(in) + 1)
		switch r.N(5) {
		case 0:
			in = in[:p]
		case 1:
			in = in[:p] + "e" + in[p:]
		case 2:
			in = strings.ToUpper(in[:p]) + in[p:]
		case 3:
			in = in + " "
		case 4:
			in = []string{"", "critical", "warning", "err", "0", "3", "INFO ", "WARN", "bug", "trac"}[r.N(10)]
		}
	}
	v, err := log.LvlFromString(in)
	text := ""
	if err != nil {
		text = err.Error()
	}
	return rec.Ev{"e": "Rec", "kind": "level", "lvl": int(l), "str": s, "strok": ok, "al": a, "alok": ok2, "in": in, "ok": hx.Flag(err == nil), "out": int(v), "named": hx.Flag(in == "" || strings.Contains(text, in))}
}

type plan struct {
	Entry   string
	Mode    int
	Frames  int
	Aligned bool
}

// TestChild ends its process.
func TestChild(t *testing.T) {
	if os.Getenv("VCHILD") == "" {
		t.Skip()
	}
	var p plan
	json.Unmarshal([]byte(os.Getenv("VCHILD")), &p)
	c := &call{entry: p.Entry, msg: "the end", ctx: []interface{}{7, 8}, lvl: log.LvlCrit}
	h := log.FuncHandler(func(x *log.Record) error {
		if len(c.lines) == 0 {
			fmt.Println("R")
			return nil
		}
		fmt.Printf("R %d %s %d %s\n", int(x.Lvl), strings.ReplaceAll(x.Msg, " ", "_"), x.Call.Frame().Line-c.lines[len(c.lines)-1], strings.ReplaceAll(fmt.Sprint(x.Ctx), " ", "_"))
		if p.Mode == 2 {
			return errors.New("planned")
		}
		return nil
	})
	switch p.Mode {
	case 0, 2: // recorded
		log.Root().SetHandler(h)
	case 1: // dropped
		log.Root().SetHandler(log.DiscardHandler())
	case 3: // filtered by level
		log.Root().SetHandler(log.LvlFilterHandler(log.LvlCrit, h))
	case 4: // the handler every program starts with
	}
	c.l = log.New()
	defer fmt.Println("D")
	c.l.Info("something")
	log.Info("something")
	log.Error("something")
	var fs []frames
	for k := 0; k < p.Frames; k++ {
		fs = append(fs, []frames{frame1, frame2, new(recv).frame}[k%3])
	}
	c.end(fs)(c, rest(fs))
	fmt.Println("A")
	os.Exit(9)
}

func ends(r *rec.T) rec.Ev {
	p := plan{Entry: []string{"log.Crit", "Crit", "Output"}[r.N(3)], Mode: r.N(5), Frames: r.N(4)}
	b, _ := json.Marshal(p)
	cmd := exec.Command(os.Args[0], "-test.run=^TestChild$")
	cmd.Env = append(os.Environ(), "VCHILD="+string(b))
	var out, errs strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Run()
	lines := []string{}
	for _, l := range strings.Split(out.String(), "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	return rec.Ev{"e": "Rec", "kind": "end", "entry": p.Entry, "mode": p.Mode, "exit": cmd.ProcessState.ExitCode(), "lines": lines, "quiet": hx.Flag(errs.Len() == 0)}
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 20; k++ {
			r.Log(entry(r))
			r.Log(level(r))
		}
		if r.P(20) {
			r.Log(ends(r))
		}
	})
}
