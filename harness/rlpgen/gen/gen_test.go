// Package gen holds generated types and their generated methods.
package gen

import (
	"bytes"
	"io"
	"math/big"
	"reflect"
	"testing"

	"verifharness/hx"
	"verifharness/rec"
	"verifharness/rlpgen/rlp"
)

var (
	bigT  = reflect.TypeOf(big.Int{})
	rawT  = reflect.TypeOf(rlp.RawValue{})
	extT  = reflect.TypeOf(Ext{})
	bytes_ = reflect.TypeOf([]byte{})
)

func length(r *rec.T) int {
	switch r.N(12) {
	case 0:
		return 54 + r.N(4)
	case 1:
		if r.P(15) {
			return 254 + r.N(4)
		}
		return r.N(40)
	case 2, 3, 4:
		return 0
	}
	return r.N(4)
}

func content(r *rec.T, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 1, 127, 128, 255, byte(r.N(256))}[r.N(6)]
	}
	return b
}

func item(r *rec.T, depth int) []byte {
	w := &bytes.Buffer{}
	e := rlp.NewEncoderBuffer(w)
	if depth > 0 && r.P(40) {
		l := e.List()
		for k := r.N(4); k > 0; k-- {
			e.Write(item(r, depth-1))
		}
		e.ListEnd(l)
	} else {
		e.WriteBytes(content(r, length(r)))
	}
	e.Flush()
	return w.Bytes()
}

var zeroish int

// fill sets v to a random value.
func fill(r *rec.T, v reflect.Value, neg bool) {
	t := v.Type()
	zero := r.N(100) < zeroish
	switch {
	case t == bigT:
		if zero {
			return
		}
		x := new(big.Int).SetBytes(content(r, r.N([]int{3, 10, 60}[r.N(3)])))
		if neg && r.P(20) {
			x.Neg(x)
		}
		v.Set(reflect.ValueOf(*x))
		return
	case t == rawT:
		if !zero {
			v.SetBytes(item(r, 2))
		}
		return
	case t == bytes_:
		if !zero {
			v.SetBytes(content(r, length(r)))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(!zero && r.P(60))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !zero {
			n := r.Rng.Uint64() >> r.N(64)
			if r.P(20) {
				n = []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<64 - 1}[r.N(11)]
			}
			v.SetUint(n & (1<<t.Bits() - 1))
		}
	case reflect.String:
		if !zero {
			v.SetString(string(content(r, length(r))))
		}
	case reflect.Array:
		if !zero {
			reflect.Copy(v, reflect.ValueOf(content(r, t.Len())))
		}
	case reflect.Ptr:
		if !zero && r.P(75) {
			v.Set(reflect.New(t.Elem()))
			fill(r, v.Elem(), neg)
		}
	case reflect.Slice:
		if !zero {
			n := r.N(4)
			s := reflect.MakeSlice(t, n, n)
			for k := 0; k < n; k++ {
				fill(r, s.Index(k), neg)
			}
			v.Set(s)
		}
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			if takes(t.Field(k)) {
				fill(r, v.Field(k), neg)
			}
		}
	}
}

func takes(f reflect.StructField) bool { return f.IsExported() && f.Tag.Get("rlp") != "-" }

func empty() rec.Ev { return rec.Ev{"n": 0, "b": []int{}, "l": []rec.Ev{}, "neg": 0} }

func minimal(n uint64) []byte { return new(big.Int).SetUint64(n).Bytes() }

// tree describes v: n nil, b bytes, l elements, neg negative
func tree(v reflect.Value) rec.Ev {
	e := empty()
	t := v.Type()
	switch {
	case t == bigT:
		x := v.Interface().(big.Int)
		e["b"], e["neg"] = hx.Codes(x.Bytes()), hx.Flag(x.Sign() < 0)
		return e
	case t == extT:
		e["b"] = hx.Codes(v.Interface().(Ext).B)
		return e
	case t == rawT || t == bytes_:
		e["b"] = hx.Codes(v.Bytes())
		return e
	}
	switch t.Kind() {
	case reflect.Bool:
		e["b"] = []int{}
		if v.Bool() {
			e["b"] = []int{1}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		e["b"] = hx.Codes(minimal(v.Uint()))
	case reflect.String:
		e["b"] = hx.Codes(v.String())
	case reflect.Array:
		b := make([]byte, t.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		e["b"] = hx.Codes(b)
	case reflect.Ptr:
		if v.IsNil() {
			e["n"] = 1
			return e
		}
		return tree(v.Elem())
	case reflect.Slice:
		l := []rec.Ev{}
		for k := 0; k < v.Len(); k++ {
			l = append(l, tree(v.Index(k)))
		}
		e["l"] = l
	case reflect.Struct:
		l := []rec.Ev{}
		for k := 0; k < t.NumField(); k++ {
			if takes(t.Field(k)) {
				l = append(l, tree(v.Field(k)))
			} else {
				l = append(l, empty())
			}
		}
		e["l"] = l
	}
	return e
}

// node is an item as a tree, for damage to its structure
type node struct {
	list bool
	b    []byte
	kids []*node
}

func parse(b []byte) (*node, []byte) {
	s := rlp.NewStream(b)
	raw, err := s.Raw()
	if err != nil {
		return nil, nil
	}
	rest := b[len(raw):]
	s = rlp.NewStream(raw)
	if k, _, _ := s.Kind(); k != rlp.List {
		c, err := s.Bytes()
		if err != nil {
			return nil, nil
		}
		return &node{b: c}, rest
	}
	n, _ := s.List()
	body := raw[len(raw)-int(n):]
	out := &node{list: true}
	for len(body) > 0 {
		var k *node
		k, body = parse(body)
		if k == nil {
			return nil, nil
		}
		out.kids = append(out.kids, k)
	}
	return out, rest
}

func (n *node) enc(w rlp.EncoderBuffer) {
	if !n.list {
		w.WriteBytes(n.b)
		return
	}
	l := w.List()
	for _, k := range n.kids {
		k.enc(w)
	}
	w.ListEnd(l)
}

func (n *node) all() []*node {
	out := []*node{n}
	for _, k := range n.kids {
		out = append(out, k.all()...)
	}
	return out
}

func damage(r *rec.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n, _ := parse(b)
	if n != nil && r.P(70) {
		for c := 1 + r.N(2); c > 0; c-- {
			a := n.all()
			x := a[0]
			if r.P(60) {
				x = a[r.N(len(a))]
			}
			switch {
			case x.list && len(x.kids) > 0 && r.P(40): // too short
				x.kids = x.kids[:r.N(len(x.kids))]
			case x.list && r.P(40): // too long
				x.kids = append(x.kids, &node{b: content(r, r.N(3))})
			case x.list && len(x.kids) > 0 && r.P(60):
				k := r.N(len(x.kids))
				x.kids[k] = []*node{{}, {list: true}, {b: []byte{1}}, {b: content(r, r.N(10))}, {list: true, kids: []*node{{b: []byte{5}}}}}[r.N(5)]
			case !x.list:
				x.b = [][]byte{append([]byte{0}, x.b...), append(x.b, 7), {0}, {}, {2}, content(r, r.N(9))}[r.N(6)]
			default:
				x.list, x.kids = false, nil
			}
		}
		w := &bytes.Buffer{}
		e := rlp.NewEncoderBuffer(w)
		n.enc(e)
		e.Flush()
		return w.Bytes()
	}
	switch r.N(4) {
	case 0:
		if len(b) > 0 {
			b[r.N(len(b))] = byte(r.N(256))
		}
	case 1:
		b = b[:r.N(len(b)+1)]
	case 2:
		b = append(b, byte(r.N(256)))
	default:
		k := r.N(len(b) + 1)
		b = append(b[:k:k], append([]byte{byte(r.N(256))}, b[k:]...)...)
	}
	return b
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

var _ io.Writer = discard{}

func TestDrive(t *testing.T) {
	rec.DrivePure(t, func(r *rec.T) {
		k := r.Index % len(list)
		if r.Index >= 1<<30 {
			k = r.N(len(list))
		}
		zeroish = []int{0, 20, 60, 95}[r.Index/len(list)%4]
		obj := list[k].make()
		fill(r, reflect.ValueOf(obj).Elem(), r.P(10))
		ev := rec.Ev{"e": "Rec", "kind": "enc", "type": list[k].name, "v": tree(reflect.ValueOf(obj).Elem()), "ok": 0, "panic": 0, "out": []int{}}
		before := rec.Ev{"v": tree(reflect.ValueOf(obj).Elem())}
		w := &bytes.Buffer{}
		func() {
			defer func() {
				if x := recover(); x != nil {
					ev["panic"] = 1
				}
			}()
			err := obj.EncodeRLP(w)
			ev["ok"] = hx.Flag(err == nil)
			if err == nil {
				ev["out"] = hx.Codes(w.Bytes())
			} else if err != rlp.ErrNegativeBigInt {
				ev["ok"] = 2
			}
		}()
		ev["same"] = hx.Flag(reflect.DeepEqual(before["v"], tree(reflect.ValueOf(obj).Elem())))
		r.Log(ev)
		if ev["ok"] != 1 {
			return
		}
		for j := 0; j < 4; j++ {
			in := append([]byte{}, w.Bytes()...)
			if j > 0 {
				in = damage(r, in)
			}
			back := list[k].make()
			ev := rec.Ev{"e": "Rec", "kind": "dec", "type": list[k].name, "in": hx.Codes(in), "ok": 0, "panic": 0, "rest": 0}
			func() {
				defer func() {
					if x := recover(); x != nil {
						ev["panic"] = 1
					}
				}()
				s := rlp.NewStream(in)
				err := back.DecodeRLP(s)
				ev["ok"], ev["rest"] = hx.Flag(err == nil), s.Rest()
			}()
			ev["v"] = tree(reflect.ValueOf(back).Elem())
			r.Log(ev)
		}
	})
}
