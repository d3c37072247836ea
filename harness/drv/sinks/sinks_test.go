// Package sinks drives the handlers that write to files, connections, the system log and other writers.
package sinks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log/syslog"
	"net"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"testing"
	"time"

	"flychain/log"
	"verifharness/hx"
	"verifharness/rec"
)

// medium is where bytes end up.
type medium struct {
	kind  string // bytes, packets, syslog
	old   []byte
	got   []byte
	packs [][]byte
	fails map[int]int // write number -> bytes taken before it fails
	tag   string
	fac   int
	mode  int // wanted permissions; -1: not judged
	path  string
	want  int // bytes or packets that are on their way at most
	done  chan struct{}
}

type handler struct {
	h log.Handler
	m int
	f log.Format
}

// writer takes its time and fails as planned.
type writer struct {
	m     *medium
	n     int
	delay time.Duration
}

var errWrite = errors.New("planned failure")

func (w *writer) Write(p []byte) (int, error) {
	w.n++
	max, fails := w.m.fails[w.n]
	for k, c := range p {
		if fails && k == max {
			return k, errWrite
		}
		w.m.got = append(w.m.got, c)
		if k%7 == 3 {
			time.Sleep(w.delay)
		}
	}
	if fails {
		return len(p), errWrite
	}
	return len(p), nil
}

// plain is a format that writes the message and the values of the context as they are.
func plain(pre, post string) log.Format {
	return log.FormatFunc(func(r *log.Record) []byte {
		s := pre + r.Msg
		for k := 1; k < len(r.Ctx); k += 2 {
			s += fmt.Sprintf("|%v", r.Ctx[k])
		}
		return []byte(s + post)
	})
}

// bare is a format whose text for a record with a context depends on the records before: it pads the values.
type bare struct{ f log.Format }

func (b bare) Format(r *log.Record) []byte { return b.f.Format(r) }

func letters(r *rec.T, n int, newlines bool) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = "abcXYZ 019=\"'<>[]:"[r.N(18)]
		if newlines && r.P(3) {
			b[k] = '\n'
		}
	}
	return string(b)
}

// entry makes a record and the same with its lazy values evaluated.
func entry(r *rec.T, n int, newlines, bare bool) (a, b *log.Record) {
	size := r.N(12)
	if r.P(5) {
		size = 200 + r.N(1500)
	}
	msg := fmt.Sprintf("%d.%s", n, letters(r, size, newlines))
	var ctx, val []interface{}
	for k := r.N(3); k > 0 && !bare; k-- {
		s := letters(r, r.N(9), newlines)
		key := fmt.Sprint("k", k)
		ctx, val = append(ctx, key), append(val, key)
		if r.P(40) {
			ctx, val = append(ctx, log.Lazy{Fn: func() string { return s }}), append(val, s)
		} else {
			ctx, val = append(ctx, s), append(val, s)
		}
	}
	mk := func(c []interface{}) *log.Record {
		return &log.Record{Time: time.Unix(1234567890, 0).UTC(), Msg: msg, Ctx: c, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
	}
	a, b = mk(ctx), mk(val)
	a.Lvl = log.Lvl(r.N(6))
	b.Lvl = a.Lvl
	return a, b
}

func flat(b []byte) []int { return hx.Codes(b) }

type run struct {
	r   *rec.T
	ms  []*medium
	hs  []*handler
	op  int
	ids int
	mu  sync.Mutex
}

// opened records the outcome of making a handler.
func (x *run) opened(m int, f log.Format, bad bool, must bool, mk func() (log.Handler, error)) {
	res := "ok"
	var h log.Handler
	func() {
		defer func() {
			if p := recover(); p != nil {
				res = "panic"
			}
		}()
		var err error
		if h, err = mk(); err != nil {
			res = "err"
			if h != nil {
				res = "both"
			}
		} else if h == nil {
			res = "none"
		}
	}()
	x.r.Log(rec.Ev{"e": "Open", "h": len(x.hs) + 1, "m": m + 1, "bad": hx.Flag(bad), "must": hx.Flag(must), "res": res})
	if res == "ok" {
		x.hs = append(x.hs, &handler{h, m, f})
	}
}

func (x *run) log(h int, newlines bool) {
	x.mu.Lock()
	x.op++
	o := x.op
	hd := x.hs[h]
	_, noCtx := hd.f.(bare)
	rc, same := entry(x.r, o, newlines, noCtx)
	m := x.ms[hd.m]
	x.mu.Unlock()
	text := hd.f.Format(same)
	x.mu.Lock()
	if m.kind == "bytes" {
		m.want += len(text)
	} else if m.kind == "packets" || rc.Lvl != log.LvlTrace {
		m.want++
	}
	x.r.Log(rec.Ev{"e": "LogCall", "o": o, "h": h + 1, "text": flat(text), "lvl": int(rc.Lvl)})
	x.mu.Unlock()
	res := 0
	func() {
		defer func() {
			if recover() != nil {
				res = 2
			}
		}()
		if hd.h.Log(rc) == nil {
			res = 1
		}
	}()
	x.r.Log(rec.Ev{"e": "LogRet", "o": o, "ok": res})
}

func (x *run) final() {
	for k, m := range x.ms {
		ev := rec.Ev{"e": "Medium", "m": k + 1, "kind": m.kind, "old": flat(m.old), "got": flat(m.got), "tag": flat([]byte(m.tag)), "fac": m.fac, "mode": 0, "perm": 0}
		packs := [][]int{}
		for _, p := range m.packs {
			packs = append(packs, flat(p))
		}
		ev["packs"] = packs
		fails := [][]int{}
		for n, c := range m.fails {
			fails = append(fails, []int{n, c})
		}
		ev["fails"] = fails
		if m.path != "" && m.mode >= 0 {
			if st, err := os.Stat(m.path); err == nil {
				ev["mode"], ev["perm"] = m.mode, int(st.Mode().Perm())
			}
		}
		x.r.Log(ev)
	}
}

func formats(r *rec.T) (log.Format, bool) {
	switch r.N(4) {
	case 0:
		return bare{f: log.LogfmtFormat()}, false
	case 1:
		return log.JSONFormat(), false
	case 2:
		return plain("", "\n"), true
	}
	return plain([]string{"", "  ", "\t\n", "\u00a0 "}[r.N(4)], []string{"", "\n", " \n\n", "  ", "\u0085"}[r.N(5)]), true
}

func TestDrive(t *testing.T) {
	syscall.Umask(022)
	rec.Drive(t, func(r *rec.T) {
		dir, err := os.MkdirTemp("", "sinks")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		x := &run{r: r}
		r.Log(rec.Ev{"e": "Init"})
		for n := 1 + r.N(3); n > 0; n-- {
			f, _ := formats(r)
			k := len(x.ms)
			if r.P(55) {
				m := &medium{kind: "bytes", path: filepath.Join(dir, fmt.Sprint("f", k)), mode: 0644}
				if r.P(50) {
					m.old = []byte(letters(r, r.N(60), true))
					m.mode = []int{0600, 0644, 0640}[r.N(3)]
					if err := os.WriteFile(m.path, m.old, os.FileMode(m.mode)); err != nil {
						panic(err)
					}
				}
				x.ms = append(x.ms, m)
				for c := 1 + r.N(2); c > 0; c-- {
					must := r.P(30)
					x.opened(k, f, false, must, func() (log.Handler, error) {
						if must {
							return log.Must.FileHandler(m.path, f), nil
						}
						return log.FileHandler(m.path, f)
					})
				}
			} else {
				m := &medium{kind: "bytes", fails: map[int]int{}}
				for c := r.N(3); c > 0; c-- {
					m.fails[1+r.N(8)] = r.N(20)
				}
				x.ms = append(x.ms, m)
				w := &writer{m: m, delay: time.Duration(r.N(3))}
				x.opened(k, f, false, false, func() (log.Handler, error) {
					if r.P(30) {
						return log.SyncHandler(log.LazyHandler(log.FuncHandler(func(rc *log.Record) error { _, err := w.Write(f.Format(rc)); return err }))), nil
					}
					return log.StreamHandler(w, f), nil
				})
			}
		}
		if r.P(30) {
			bad := []string{filepath.Join(dir, "none", "f"), dir, "", filepath.Join(dir, "f0", "g")}[r.N(4)]
			must := r.P(50)
			x.opened(0, nil, true, must, func() (log.Handler, error) {
				if must {
					return log.Must.FileHandler(bad, log.LogfmtFormat()), nil
				}
				return log.FileHandler(bad, log.LogfmtFormat())
			})
		}
		var wg sync.WaitGroup
		for g := 1 + r.N(4); g > 0; g-- {
			n := 1 + r.N(4)
			var hs, ds []int
			for k := 0; k < n; k++ {
				hs, ds = append(hs, r.N(len(x.hs))), append(ds, r.N(30))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, h := range hs {
					time.Sleep(time.Duration(ds[k]))
					x.log(h, true)
				}
			}()
		}
		wg.Wait()
		for _, m := range x.ms {
			if m.path != "" {
				if m.got, err = os.ReadFile(m.path); err != nil {
					m.got = []byte("unreadable")
				}
			}
		}
		x.final()
	})
}

// listen makes the far end of a connection.
func listen(r *rec.T, m *medium, network, dir string) (addr string, stop func()) {
	m.done = make(chan struct{})
	idle := func(c net.Conn, last time.Time, want func() bool) bool {
		lim := 3 * time.Second
		if want() {
			lim = 25 * time.Millisecond
		}
		return time.Since(last) > lim
	}
	var quit = make(chan struct{})
	over := func() bool {
		select {
		case <-quit:
			return true
		default:
			return false
		}
	}
	if network == "udp" || network == "unixgram" {
		addr = "127.0.0.1:0"
		if network == "unixgram" {
			addr = filepath.Join(dir, fmt.Sprint("s", r.N(1<<30)))
		}
		pc, err := net.ListenPacket(network, addr)
		if err != nil {
			panic(err)
		}
		if u, ok := pc.(*net.UDPConn); ok {
			u.SetReadBuffer(4 << 20)
		}
		go func() {
			defer close(m.done)
			defer pc.Close()
			last, buf := time.Now(), make([]byte, 1<<16)
			for {
				pc.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
				n, _, err := pc.ReadFrom(buf)
				if err == nil {
					m.packs = append(m.packs, append([]byte{}, buf[:n]...))
					last = time.Now()
				} else if over() && idle(nil, last, func() bool { return len(m.packs) >= m.want }) {
					return
				}
			}
		}()
		return pc.LocalAddr().String(), func() { close(quit); <-m.done }
	}
	addr = "127.0.0.1:0"
	if network == "unix" {
		addr = filepath.Join(dir, fmt.Sprint("s", r.N(1<<30)))
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		panic(err)
	}
	go func() {
		defer close(m.done)
		defer l.Close()
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		last, buf := time.Now(), make([]byte, 1<<16)
		for {
			c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
			n, err := c.Read(buf)
			if n > 0 {
				m.got = append(m.got, buf[:n]...)
				last = time.Now()
			}
			if err == io.EOF || err != nil && over() && idle(c, last, func() bool { return m.kind == "bytes" && len(m.got) >= m.want || m.kind == "syslog" && bytes.Count(m.got, []byte("\n")) >= m.want }) {
				return
			}
		}
	}()
	return l.Addr().String(), func() {
		close(quit)
		select {
		case <-m.done:
		case <-time.After(5 * time.Second):
			l.Close()
			<-m.done
		}
	}
}

func TestNet(t *testing.T) {
	rec.DrivePlain(t, func(r *rec.T) {
		dir, err := os.MkdirTemp("", "sinks")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		x := &run{r: r}
		r.Log(rec.Ev{"e": "Init"})
		f, newlines := formats(r)
		network := []string{"tcp", "unix", "udp", "unixgram"}[r.N(4)]
		m := &medium{kind: "bytes"}
		if network == "udp" || network == "unixgram" {
			m.kind = "packets"
		}
		sys := r.P(60)
		if sys {
			network = []string{"udp", "unixgram", "tcp"}[r.N(3)]
			m.kind, m.tag, m.fac = "syslog", []string{"app", "node-7", "x"}[r.N(3)], []int{0, 1, 3, 10, 16, 23}[r.N(6)]
			if network == "tcp" {
				f, newlines = []log.Format{bare{f: log.LogfmtFormat()}, log.JSONFormat(), plain("  ", " \n")}[r.N(3)], false
			}
		}
		x.ms = append(x.ms, m)
		addr, stop := listen(r, m, network, dir)
		bad, must := r.P(10), r.P(30)
		if bad {
			addr = []string{filepath.Join(dir, "nobody"), "127.0.0.1:0", "nonsense:port:3"}[map[string]int{"unix": 0, "unixgram": 0, "tcp": 1, "udp": 2}[network]]
		}
		x.opened(0, f, bad, must, func() (log.Handler, error) {
			prio := syslog.Priority(m.fac<<3 | r.N(8))
			switch {
			case sys && must:
				return log.Must.SyslogNetHandler(network, addr, prio, m.tag, f), nil
			case sys:
				return log.SyslogNetHandler(network, addr, prio, m.tag, f)
			case must:
				return log.Must.NetHandler(network, addr, f), nil
			}
			return log.NetHandler(network, addr, f)
		})
		if len(x.hs) > 0 {
			var wg sync.WaitGroup
			for g := 1 + r.N(3); g > 0; g-- {
				n := 1 + r.N(5)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for ; n > 0; n-- {
						x.log(0, newlines)
					}
				}()
			}
			wg.Wait()
		}
		stop()
		if sys && network == "tcp" {
			for len(m.got) > 0 {
				k := 0
				for k < len(m.got)-1 && m.got[k] != '\n' {
					k++
				}
				m.packs, m.got = append(m.packs, m.got[:k+1]), m.got[k+1:]
			}
		}
		x.final()
	})
}
