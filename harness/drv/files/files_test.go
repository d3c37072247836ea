// Package files runs the helpers for files, names, warnings and random bytes.
package files

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"

	"flychain/common"
	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	"verifharness/hx"
	"verifharness/rec"
)

func ws(r *rec.T) string {
	return []string{"", "", "", " ", "\n", "\n", "\n\n", "\r\n", "\t", " \n "}[r.N(10)]
}

func str(r *rec.T) string {
	s := "\""
	for k := r.N(4); k > 0; k-- {
		s += []string{"a", "é", "世", "😀", "\\n", "\\u00e9", "\\\"", "{", "0", ",", "\\ud800", "\xff"}[r.N(12)]
	}
	return s + "\""
}

func value(r *rec.T, depth int) string {
	switch n := r.N(9); {
	case n < 2 && depth > 0:
		var parts []string
		for k := r.N(4); k > 0; k-- {
			parts = append(parts, ws(r)+value(r, depth-1)+ws(r))
		}
		if len(parts) == 0 {
			return "[" + ws(r) + "]"
		}
		return "[" + strings.Join(parts, ",") + "]"
	case n < 5 && depth > 0:
		var parts []string
		for k := r.N(4); k > 0; k-- {
			key := str(r)
			if r.P(50) {
				key = []string{"\"A\"", "\"B\"", "\"C\"", "\"a\""}[r.N(4)]
			}
			parts = append(parts, ws(r)+key+ws(r)+":"+ws(r)+value(r, depth-1)+ws(r))
		}
		if len(parts) == 0 {
			return "{" + ws(r) + "}"
		}
		return "{" + strings.Join(parts, ",") + "}"
	case n == 5:
		return str(r)
	case n == 6:
		return []string{"true", "false", "null"}[r.N(3)]
	}
	return []string{"0", "-0", "7", "-12", "1.5", "0.25", "1e3", "2E-1", "10", "-1.0e+2"}[r.N(10)]
}

func doc(r *rec.T) string {
	s := ws(r) + value(r, 3) + ws(r)
	if r.P(60) {
		for k := 1 + r.N(2); k > 0; k-- {
			p := r.N(len(s) + 1)
			switch r.N(5) {
			case 0:
				s = s[:p]
			case 1:
				if p < len(s) {
					s = s[:p] + s[p+1:]
				}
			case 2, 3:
				s = s[:p] + []string{"\n", "x", ",", "}", "]", "\"", ":", "0", ".", "e", "-", "\\", "u", "\x01", "é", " \n/"}[r.N(16)] + s[p:]
			case 4:
				if p < len(s) {
					s = s[:p] + string(s[p]^1) + s[p+1:]
				}
			}
		}
	}
	return s
}

type typed struct {
	A int
	B []string
	C map[string]interface{}
}

// load reads a file that holds a text.
func load(r *rec.T, dir string) rec.Ev {
	d := doc(r)
	file := filepath.Join(dir, []string{"a.json", "b c.json", "%d.json", "ü"}[r.N(4)])
	os.WriteFile(file, []byte(d), 0600)
	ev := rec.Ev{"e": "Rec", "kind": "load", "doc": hx.Codes(d), "ok": 0, "want": 0, "same": 0, "line": -1, "named": 1}
	var err error
	if r.P(50) {
		var v json.RawMessage
		err = common.LoadJSON(file, &v)
		ev["want"] = 1
		ev["same"] = hx.Flag(string(v) == strings.Trim(d, " \t\r\n"))
	} else {
		var v, w typed
		err = common.LoadJSON(file, &v)
		werr := json.Unmarshal([]byte(d), &w)
		ev["want"] = hx.Flag(werr == nil)
		ev["same"] = hx.Flag(fmt.Sprint(v) == fmt.Sprint(w))
	}
	ev["ok"] = hx.Flag(err == nil)
	if err != nil {
		t := err.Error()
		p := strings.Index(t, file)
		ev["named"] = hx.Flag(p >= 0)
		var line int
		if n, _ := fmt.Sscanf(t[p+len(file):], ":%d:", &line); p >= 0 && n == 1 {
			ev["line"] = line
		}
	}
	return ev
}

// missing reads what is not a file.
func missing(r *rec.T, dir string) rec.Ev {
	v := json.RawMessage("1")
	p := filepath.Join(dir, "none", "x")
	if r.P(50) {
		p = dir
	}
	err := common.LoadJSON(p, &v)
	return rec.Ev{"e": "Rec", "kind": "missing", "gone": hx.Flag(p != dir), "ok": hx.Flag(err == nil), "notexist": hx.Flag(errors.Is(err, fs.ErrNotExist)), "kept": hx.Flag(string(v) == "1")}
}

func exist(r *rec.T, dir string) rec.Ev {
	p := filepath.Join(dir, fmt.Sprint("e", r.N(1000000), []string{"", ".txt", " x", "é"}[r.N(4)]))
	kind := r.N(9)
	want := 1
	switch kind {
	case 0, 1:
		os.WriteFile(p, []byte("x")[:r.N(2)], []os.FileMode{0600, 0}[r.N(2)])
	case 2:
		os.Mkdir(p, 0700)
	case 3:
		os.WriteFile(p+"t", nil, 0600)
		os.Symlink(p+"t", p)
	case 4:
		os.Symlink(p+"none", p)
		want = 0
	case 5:
		p = filepath.Join(p, "x")
		want = 0
	case 6:
		p = ""
		want = 0
	case 7:
		os.WriteFile(p, nil, 0600)
		os.Remove(p)
		want = 0
	case 8:
		p = p + "z"
		want = 0
	}
	return rec.Ev{"e": "Rec", "kind": "exist", "want": want, "out": hx.Flag(common.FileExist(p))}
}

func path(r *rec.T) string {
	s := ""
	for k := r.N(6); k > 0; k-- {
		s += []string{"/", "/", "a", "b", ".", "..", "../", "./", "..a", "a.", "//", " "}[r.N(12)]
	}
	return s
}

func abs(r *rec.T) rec.Ev {
	d, f := path(r), path(r)
	if r.P(30) {
		d = "/" + d
	}
	if r.P(20) {
		f = "/" + f
	}
	return rec.Ev{"e": "Rec", "kind": "abs", "dir": hx.Codes(d), "file": hx.Codes(f), "out": hx.Codes(common.AbsolutePath(d, f))}
}

func name(r *rec.T) rec.Ev {
	n, v := path(r), []string{"1.0", "", "2.3.4-beta+x", "%d", "v1"}[r.N(5)]
	return rec.Ev{"e": "Rec", "kind": "name", "name": n, "version": v, "out": common.MakeName(n, v), "os": runtime.GOOS, "go": runtime.Version()}
}

var only sync.Mutex

// capture runs f with one of the standard files replaced.
func capture(which **os.File, f func()) string {
	only.Lock()
	defer only.Unlock()
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := *which
	*which = wr
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(rd)
		done <- string(b)
	}()
	func() {
		defer func() { *which = old; wr.Close() }()
		f()
	}()
	return <-done
}

func warn(r *rec.T) rec.Ev {
	s := []string{"", "x", "use %d instead", "###", " two  blanks ", "100%", strings.Repeat("ab", r.N(60))}[r.N(7)]
	out := capture(&os.Stdout, func() { common.PrintDeprecationWarning(s) })
	return rec.Ev{"e": "Rec", "kind": "warn", "text": hx.Codes(s), "out": hx.Codes(out)}
}

func report(r *rec.T) rec.Ev {
	extra := []interface{}{}
	for k := r.N(4); k > 0; k-- {
		extra = append(extra, []interface{}{r.N(100), "%s", errors.New("x"), nil}[r.N(4)])
	}
	line := 0
	out := capture(&os.Stderr, func() { _, _, line, _ = runtime.Caller(0); common.Report(extra...) })
	want := fmt.Sprintln(extra...)
	at := fmt.Sprintf("files_test.go:%d\n", line)
	ls := strings.SplitAfter(out, "\n")
	return rec.Ev{"e": "Rec", "kind": "report", "extra": hx.Flag(len(ls) > 3 && strings.Contains(out, "\n"+want)), "site": hx.Flag(strings.Contains(out, at)),
		"stack": hx.Flag(strings.Contains(out, "goroutine ") && strings.Contains(out, "files.report")), "end": hx.Flag(strings.HasSuffix(out, "BUG! PLEASE REPORT ####\n"))}
}

func random(r *rec.T) rec.Ev {
	n := []int{0, 1, 2, 31, 32, 33, 100, 4096, 5000}[r.N(9)]
	viaReader := r.P(50)
	stuck, lens, lost := 0, 1, 1
	var first []byte
	changed := make([]bool, n)
	for k := 0; k < 24; k++ {
		var b []byte
		if viaReader {
			whole := bytes.Repeat([]byte{0xa5}, n+8)
			b = whole[4 : 4+n]
			m, err := randentropy.Reader.Read(b)
			if m != n || err != nil {
				lens = 0
			}
			if !bytes.Equal(whole[:4], []byte{0xa5, 0xa5, 0xa5, 0xa5}) || !bytes.Equal(whole[4+n:], []byte{0xa5, 0xa5, 0xa5, 0xa5}) {
				lost = 0
			}
		} else {
			b = randentropy.GetEntropyCSPRNG(n)
			if len(b) != n {
				lens = 0
				b = make([]byte, n)
			}
		}
		if first == nil {
			first = append([]byte{}, b...)
		}
		for j := range b {
			changed[j] = changed[j] || b[j] != first[j]
		}
	}
	for _, c := range changed {
		if !c {
			stuck++
		}
	}
	distinct := 1
	if n >= 16 { // chunks of one long draw differ
		b := randentropy.GetEntropyCSPRNG(n)
		seen := map[string]bool{}
		for j := 0; j+16 <= len(b); j += 16 {
			if seen[string(b[j:j+16])] {
				distinct = 0
			}
			seen[string(b[j:j+16])] = true
		}
	}
	h := sha3.NewKeccak256() // itself C19
	h.Write(first)
	if !bytes.Equal(randentropy.Sha3(first), h.Sum(nil)) {
		distinct = 0
	}
	return rec.Ev{"e": "Rec", "kind": "random", "n": n, "len": lens, "stuck": stuck, "kept": lost, "distinct": distinct}
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		dir := t.TempDir()
		for k := 0; k < 20; k++ {
			r.Log(load(r, dir))
			r.Log(abs(r))
			if k%4 == 0 {
				r.Log(missing(r, dir))
				r.Log(exist(r, dir))
				r.Log(name(r))
				r.Log(random(r))
			}
		}
		r.Log(warn(r))
		r.Log(report(r))
	})
}
