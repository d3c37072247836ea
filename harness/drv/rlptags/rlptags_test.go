// Package rlptags runs the interpretation of RLP struct tags.
package rlptags

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"flychain/rlp/rlpx"
	"verifharness/hx"
	"verifharness/rec"
)

func chain(t *rlpx.Type) []rec.Ev {
	out := []rec.Ev{}
	for ; t != nil; t = t.Elem {
		out = append(out, rec.Ev{"k": t.Kind.String(), "enc": hx.Flag(t.IsEncoder)})
	}
	return out
}

func typ(r *rec.T, depth int) *rlpx.Type {
	kinds := []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32,
		reflect.Float64, reflect.Complex64, reflect.String, reflect.Interface, reflect.Struct, reflect.Map, reflect.Func, reflect.Chan,
		reflect.Ptr, reflect.Ptr, reflect.Slice, reflect.Slice, reflect.Array, reflect.Array}
	n := len(kinds)
	if depth == 0 {
		n -= 6
	}
	k := kinds[r.N(n)]
	t := &rlpx.Type{Name: "T" + strconv.Itoa(r.N(9)), Kind: k, IsEncoder: r.P(15), IsDecoder: r.P(15)}
	if k == reflect.Ptr || k == reflect.Slice || k == reflect.Array {
		t.Elem = typ(r, depth-1)
	}
	return t
}

func value(r *rec.T, t *rlpx.Type) string {
	parts := []string{}
	for k := []int{0, 1, 1, 1, 1, 2, 2, 3}[r.N(8)]; k > 0; k-- {
		all := []string{"nil", "nilString", "nilList", "optional", "tail", "-", "", "optional", "tail"}
		p := all[r.N(len(all))]
		if p[:min(3, len(p))] == "nil" && t.Kind != reflect.Ptr && r.P(70) {
			p = "optional"
		}
		if p == "tail" && t.Kind != reflect.Slice && r.P(60) {
			p = "optional"
		}
		if r.P(4) {
			p = []string{"Nil", "nilstring", "nill", "omitempty", "opt", "tail ", "--", "nil nil", "rlp", "0", "optionals"}[r.N(11)]
		}
		if r.P(15) {
			p = []string{" ", "\t", "  "}[r.N(3)] + p
		}
		if r.P(15) {
			p += []string{" ", "\t", "\n"}[r.N(3)]
		}
		parts = append(parts, p)
	}
	if len(parts) == 0 && r.P(20) {
		return " "
	}
	return strings.Join(parts, ",")
}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		for k := 0; k < 10; k++ {
			one(r)
		}
	})
}

func one(r *rec.T) {
	var fields []rlpx.Field
	infos := []rec.Ev{}
	n := r.N(7)
	if r.P(2) {
		n = 7 + r.N(30)
	}
	calm := r.P(50)
	opt := n
	if calm {
		opt = r.N(n + 1)
	}
	for i := 0; i < n; i++ {
		f := rlpx.Field{Name: "F" + strconv.Itoa(i), Index: i, Exported: r.P(80), Type: *typ(r, 3)}
		v, has := value(r, &f.Type), r.P(60)
		if calm { // mostly acceptable structs
			v = []string{"", "", "-", "nil", "nilString", "nilList"}[r.N(6)]
			if f.Type.Kind != reflect.Ptr && strings.HasPrefix(v, "nil") {
				v = ""
			}
			if i >= opt {
				if v += ",optional"; r.P(10) {
					v = "optional, " + v
				}
			}
			if i == n-1 && r.P(50) {
				v = "tail"
				f.Type = rlpx.Type{Name: "S", Kind: reflect.Slice, Elem: typ(r, 1)}
			}
			v = strings.TrimPrefix(v, ",")
			has = true
		}
		if has {
			f.Tag = []string{"", `json:"x,tail" `}[r.N(2)] + "rlp:" + strconv.Quote(v) + []string{"", ` abi:"nil"`}[r.N(2)]
		} else {
			v = ""
			f.Tag = []string{"", `json:"optional"`, `xrlp:"tail"`}[r.N(3)]
		}
		fields = append(fields, f)
		infos = append(infos, rec.Ev{"name": f.Name, "exp": hx.Flag(f.Exported), "type": chain(&f.Type), "tag": hx.Codes(v)})
	}
	keep := fmt.Sprintf("%+v", fields)
	types := fields
	got, tags, err := rlpx.ProcessFields(fields)
	ev := rec.Ev{"e": "Rec", "fields": infos, "ok": hx.Flag(err == nil), "errfield": "", "named": 0, "argsok": hx.Flag(keep == fmt.Sprintf("%+v", fields))}
	out := []rec.Ev{}
	if err == nil {
		if len(got) != len(tags) {
			ev["argsok"] = 0
		} else {
			for i, f := range got {
				same := f.Index >= 0 && f.Index < len(types) && fmt.Sprintf("%+v", f) == fmt.Sprintf("%+v", types[f.Index])
				kind := ""
				if tags[i].NilOK {
					kind = map[int]string{0x80: "string", 0xC0: "list"}[int(tags[i].NilKind)]
				}
				out = append(out, rec.Ev{"name": f.Name, "same": hx.Flag(same), "nilok": hx.Flag(tags[i].NilOK), "kind": kind, "opt": hx.Flag(tags[i].Optional), "tail": hx.Flag(tags[i].Tail), "ign": hx.Flag(tags[i].Ignored)})
			}
		}
	} else {
		var te rlpx.TagError
		if errors.As(err, &te) {
			ev["errfield"] = te.Field
			te.StructType = "Str"
			ev["named"] = hx.Flag(strings.Contains(err.Error(), te.Field) && strings.Contains(te.Error(), "Str."+te.Field))
		}
		if len(got) > 0 || len(tags) > 0 {
			ev["argsok"] = 0
		}
	}
	ev["out"] = out
	r.Log(ev)
}
