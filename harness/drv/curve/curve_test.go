// Package curve runs the curve operations of package crypto on small and on the predefined curves.
package curve

import (
	"bytes"
	"errors"
	"io"
	"math/big"
	"testing"

	"flychain/crypto"
	"verifharness/hx"
	"verifharness/rec"
)

var primes = []int64{5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103}

type pt struct{ x, y int64 }

func points(p, b int64) []pt {
	out := []pt{{0, 0}}
	for x := int64(0); x < p; x++ {
		for y := int64(0); y < p; y++ {
			if (y*y-x*x*x-b)%p == 0 {
				out = append(out, pt{x, y})
			}
		}
	}
	return out
}

func small(p, b int64, g pt) *crypto.BitCurve {
	c := &crypto.BitCurve{P: big.NewInt(p), N: big.NewInt(1), B: big.NewInt(b), Gx: big.NewInt(g.x), Gy: big.NewInt(g.y)}
	c.BitSize = c.P.BitLen()
	return c
}

type big2 struct{ x, y *big.Int }

func b2(a pt) big2 { return big2{big.NewInt(a.x), big.NewInt(a.y)} }

func i64(x *big.Int) int64 {
	if x == nil || !x.IsInt64() {
		return -1
	}
	return x.Int64()
}

// intact compares the arguments of a call with what they were.
type intact struct {
	now  []*big.Int
	then []*big.Int
}

func guard(xs ...*big.Int) *intact {
	g := &intact{}
	for _, x := range xs {
		g.now, g.then = append(g.now, x), append(g.then, new(big.Int).Set(x))
	}
	return g
}

func (g *intact) ok() bool {
	for i := range g.now {
		if g.now[i].Cmp(g.then[i]) != 0 {
			return false
		}
	}
	return true
}

func params(c *crypto.BitCurve) []*big.Int { return []*big.Int{c.P, c.N, c.B, c.Gx, c.Gy} }

// row: everything that starts from one point of a small curve
func row(r *rec.T, p, b int64, pts []pt, a pt, ks [][]byte) {
	c := small(p, b, a)
	cg := guard(params(c)...)
	adds := [][]int64{}
	ok := true
	for _, q := range pts {
		A, Q := b2(a), b2(q)
		if a == q && r.P(50) {
			Q = A
		}
		g := guard(A.x, A.y, Q.x, Q.y)
		x, y := c.Add(A.x, A.y, Q.x, Q.y)
		ok = ok && g.ok()
		adds = append(adds, []int64{q.x, q.y, i64(x), i64(y)})
		if x != nil {
			x.SetInt64(77) // the result must not share with the arguments
			y.SetInt64(78)
			ok = ok && g.ok()
		}
	}
	A := b2(a)
	g := guard(A.x, A.y)
	x, y := c.Double(A.x, A.y)
	dbl := []int64{i64(x), i64(y)}
	muls := []rec.Ev{}
	for n, k := range ks {
		kk := append([]byte(nil), k...)
		if n%2 == 0 {
			x, y = c.ScalarMult(A.x, A.y, kk)
		} else {
			x, y = c.ScalarBaseMult(kk)
		}
		ok = ok && bytes.Equal(k, kk) && g.ok()
		muls = append(muls, rec.Ev{"k": hx.Codes(k), "r": []int64{i64(x), i64(y)}})
	}
	r.Log(rec.Ev{"e": "Rec", "kind": "small", "p": p, "b": b, "x": a.x, "y": a.y, "adds": adds, "dbl": dbl, "muls": muls, "argsok": hx.Flag(ok && g.ok() && cg.ok())})
}

func scalar(r *rec.T, n int) []byte {
	k := hx.Bytes(r, 1+r.N(n))
	if len(k) > 0 && r.P(30) {
		k = append(make([]byte, r.N(3)), k...)
	}
	return k
}

func evp(p big2) rec.Ev { return rec.Ev{"x": hx.Limbs(p.x), "y": hx.Limbs(p.y)} }

type script struct {
	chunks [][]byte
	pos    int
}

// Read gives the scripted bytes, then random looking ones.
func (s *script) Read(p []byte) (int, error) {
	for i := range p {
		if len(s.chunks) > 0 && len(s.chunks[0]) == 0 {
			s.chunks = s.chunks[1:]
		}
		if len(s.chunks) > 0 {
			p[i] = s.chunks[0][0]
			s.chunks[0] = s.chunks[0][1:]
		} else {
			s.pos = s.pos*1103515245 + 12345
			p[i] = byte(s.pos >> 16)
		}
	}
	return len(p), nil
}

func coord(r *rec.T, size int) *big.Int { return hx.Big(r, size) }

func encoding(r *rec.T) {
	var c *crypto.BitCurve
	if r.P(50) {
		c = []*crypto.BitCurve{crypto.S160(), crypto.S192(), crypto.S224(), crypto.S256()}[r.N(4)]
	} else {
		c = &crypto.BitCurve{P: big.NewInt(7), N: big.NewInt(1), B: big.NewInt(1), Gx: big.NewInt(1), Gy: big.NewInt(1), BitSize: 1 + r.N(80)}
	}
	w := (c.BitSize + 7) / 8
	x, y := coord(r, c.BitSize), coord(r, c.BitSize)
	g := guard(x, y)
	enc := c.Marshal(x, y)
	keep := append([]byte(nil), enc...)
	bx, by := c.Unmarshal(enc)
	back := bx != nil && by != nil && bx.Cmp(x) == 0 && by.Cmp(y) == 0 && bytes.Equal(enc, keep)
	r.Log(rec.Ev{"e": "Rec", "kind": "enc", "size": c.BitSize, "x": hx.Limbs(x), "y": hx.Limbs(y), "enc": hx.Codes(keep), "back": hx.Flag(back), "argsok": hx.Flag(g.ok())})
	d := hx.Bytes(r, []int{0, 1, w + 1, 2 * w, 2*w + 1, 2*w + 1, 2*w + 1, 2*w + 2, r.N(70)}[r.N(9)])
	if len(d) > 0 && r.P(70) {
		d[0] = 4
	}
	if len(d) > 0 && r.P(10) {
		d[0] = byte(r.N(8))
	}
	keep = append([]byte(nil), d...)
	x, y = c.Unmarshal(d)
	r.Log(rec.Ev{"e": "Rec", "kind": "dec", "size": c.BitSize, "d": hx.Codes(keep), "nil": hx.Flag(x == nil && y == nil), "x": hx.Limbs(x), "y": hx.Limbs(y),
		"argsok": hx.Flag(bytes.Equal(d, keep) && (x == nil) == (y == nil))})
}

func real(r *rec.T, heavy int) {
	n := []int{160, 192, 224, 256}[r.N(4)]
	c := map[int]*crypto.BitCurve{160: crypto.S160(), 192: crypto.S192(), 224: crypto.S224(), 256: crypto.S256()}[n]
	cg := guard(params(c)...)
	log := func(op string, ok bool, e rec.Ev) {
		e["e"], e["kind"], e["c"], e["op"], e["argsok"] = "Rec", "real", n, op, hx.Flag(ok && cg.ok())
		r.Log(e)
	}
	G := big2{c.Gx, c.Gy}
	pick := func() big2 { // a point of the curve
		if r.P(5) {
			return big2{new(big.Int), new(big.Int)}
		}
		if r.P(10) {
			return G
		}
		k := hx.Bytes(r, 1+r.N(n/8))
		k[len(k)-1] |= 1
		x, y := c.ScalarBaseMult(k)
		return big2{x, y}
	}
	P, Q := pick(), pick()
	switch r.N(6) {
	case 0:
		Q = big2{new(big.Int).Set(P.x), new(big.Int).Set(P.y)}
	case 1:
		Q = big2{new(big.Int).Set(P.x), new(big.Int).Sub(c.P, P.y)}
		if P.y.Sign() == 0 {
			Q.y.SetInt64(0)
		}
	}
	g := guard(P.x, P.y, Q.x, Q.y)
	x, y := c.Add(P.x, P.y, Q.x, Q.y)
	log("add", g.ok(), rec.Ev{"P": evp(P), "Q": evp(Q), "R": evp(big2{x, y})})
	x, y = c.Double(P.x, P.y)
	log("dbl", g.ok(), rec.Ev{"P": evp(P), "R": evp(big2{x, y})})
	var k []byte
	switch r.N(12) {
	case 0:
		k = scalar(r, 2)
	case 1, 2, 3:
		k = []byte{0, byte(r.N(256) >> r.N(7))}[r.N(2):]
	}
	if r.N(1000) < heavy {
		k = scalar(r, 34)
		if r.P(20) { // around the order
			k = new(big.Int).Add(c.N, big.NewInt(int64(r.N(5)-2))).Bytes()
		}
	}
	if len(bytes.Trim(k, "\x00")) > 0 {
		kk := append([]byte(nil), k...)
		if r.P(30) {
			P = G
			x, y = c.ScalarBaseMult(kk)
		} else {
			x, y = c.ScalarMult(P.x, P.y, kk)
		}
		log("mul", g.ok() && bytes.Equal(k, kk), rec.Ev{"P": evp(P), "k": hx.Codes(k), "R": evp(big2{x, y})})
	}
	X, Y := new(big.Int).Set(Q.x), new(big.Int).Set(Q.y)
	if r.P(60) {
		Y.SetBit(Y, r.N(n-40), uint(r.N(2)))
	}
	if Y.Cmp(c.P) < 0 {
		log("on", true, rec.Ev{"P": evp(big2{X, Y}), "on": hx.Flag(c.IsOnCurve(X, Y))})
	}
	if r.N(1000) < heavy/3 { // a key from an awkward random source: zero, the order
		zero := make([]byte, n/8)
		zero[1] = 0x42
		ord := c.N.Bytes()
		var s script
		for k := r.N(3); k > 0; k-- {
			if r.P(50) || len(ord) != n/8 {
				s.chunks = append(s.chunks, append([]byte(nil), zero...))
			} else {
				o := append([]byte(nil), ord...)
				o[1] ^= 0x42
				s.chunks = append(s.chunks, o)
			}
		}
		s.pos = r.N(250)
		priv, x, y, err := c.GenerateKey(&s)
		log("key", err == nil, rec.Ev{"P": evp(G), "k": hx.Codes(priv), "R": evp(big2{x, y})})
	}
}

type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errors.New("no entropy")
	}
	f.n--
	p[0] = 0
	return 1, nil
}

// smallKey: keys on curves of tiny order, where a random scalar is often a multiple of the order
func smallKey(r *rec.T, p, b int64, pts []pt) {
	if len(pts) < 2 {
		return
	}
	g := pts[1+r.N(len(pts)-1)]
	c := small(p, b, g)
	c.BitSize = 9 + r.N(16)
	s := &script{pos: r.N(256)}
	for k := r.N(6); k > 0; k-- {
		s.chunks = append(s.chunks, hx.Bytes(r, (c.BitSize+7)/8))
	}
	priv, x, y, err := c.GenerateKey(s)
	r.Log(rec.Ev{"e": "Rec", "kind": "skey", "p": p, "size": c.BitSize, "x": g.x, "y": g.y, "k": hx.Codes(priv), "r": []int64{i64(x), i64(y)}, "argsok": hx.Flag(err == nil)})
	var rd io.Reader = &failing{r.N(2)}
	if _, _, _, err := c.GenerateKey(rd); err == nil {
		r.Log(rec.Ev{"e": "Rec", "kind": "on", "p": 5, "b": 1, "on": [][]int{}, "argsok": 0})
	}
}

func TestDrive(t *testing.T) {
	np, heavy := rec.Env("VDRV_PRIMES", 9), rec.Env("VDRV_HEAVY", 20)
	type pb struct{ p, b int64 }
	var all []pb
	for _, p := range primes[:np] {
		for b := int64(1); b < p; b++ {
			all = append(all, pb{p, b})
		}
	}
	rec.DrivePure(t, func(r *rec.T) {
		if r.Index < len(all) { // every pair of points of this curve
			p, b := all[r.Index].p, all[r.Index].b
			pts := points(p, b)
			for _, a := range pts {
				ks := [][]byte{{1}, {2}, {3}, {byte(len(pts))}, {byte(len(pts) - 1)}, {0, byte(len(pts) + 1)}, scalar(r, 1), scalar(r, 2), scalar(r, 4), scalar(r, 40)}
				row(r, p, b, pts, a, ks)
			}
			c := small(p, b, pts[0])
			on := [][]int64{}
			for x := int64(0); x < p; x++ {
				for y := int64(0); y < p; y++ {
					on = append(on, []int64{x, y, int64(hx.Flag(c.IsOnCurve(big.NewInt(x), big.NewInt(y))))})
				}
			}
			r.Log(rec.Ev{"e": "Rec", "kind": "on", "p": p, "b": b, "on": on, "argsok": 1})
			smallKey(r, p, b, pts)
			return
		}
		if r.Index == len(all) {
			for _, n := range []int{160, 192, 224, 256} {
				c := map[int]*crypto.BitCurve{160: crypto.S160(), 192: crypto.S192(), 224: crypto.S224(), 256: crypto.S256()}[n]
				q := c.Params()
				r.Log(rec.Ev{"e": "Rec", "kind": "real", "op": "params", "c": n, "p": hx.Limbs(q.P), "n": hx.Limbs(q.N), "b": hx.Limbs(q.B), "gx": hx.Limbs(q.Gx), "gy": hx.Limbs(q.Gy), "size": q.BitSize,
					"argsok": hx.Flag(c.P.Cmp(q.P) == 0 && c.N.Cmp(q.N) == 0 && c.B.Cmp(q.B) == 0 && c.Gx.Cmp(q.Gx) == 0 && c.Gy.Cmp(q.Gy) == 0 && c.BitSize == q.BitSize)})
				x, y := c.ScalarBaseMult(c.N.Bytes())
				r.Log(rec.Ev{"e": "Rec", "kind": "real", "op": "order", "c": n, "k": hx.Codes(c.N.Bytes()), "P": evp(big2{c.Gx, c.Gy}), "R": evp(big2{x, y}), "argsok": 1})
			}
			return
		}
		if r.P(30) { // a larger field
			p := primes[r.N(len(primes))]
			b := 1 + int64(r.N(int(p-1)))
			pts := points(p, b)
			row(r, p, b, pts, pts[r.N(len(pts))], [][]byte{scalar(r, 2), scalar(r, 3), scalar(r, 33)})
			smallKey(r, p, b, pts)
		}
		encoding(r)
		real(r, heavy)
	})
}
