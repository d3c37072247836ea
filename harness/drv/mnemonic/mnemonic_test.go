// Package mnemonic runs the mnemonic encoding of package crypto.
package mnemonic

import (
	"encoding/hex"
	"math/big"
	"testing"

	"flychain/crypto"
	"verifharness/hx"
	"verifharness/rec"
)

func TestDrive(t *testing.T) {
	index := map[string]int{}
	for i, w := range crypto.MnemonicWords {
		index[w] = i
	}
	// the boundaries of the encoding of one group
	n := big.NewInt(1626)
	n2 := new(big.Int).Mul(n, n)
	rec.DrivePure(t, func(r *rec.T) {
		if r.Index == 0 {
			words := [][]int{}
			for _, w := range crypto.MnemonicWords {
				words = append(words, hx.Codes(w))
			}
			r.Log(rec.Ev{"e": "Rec", "op": "list", "words": words})
		}
		for k := 0; k < 8; k++ {
			var b []byte
			if r.P(25) { // any bytes
				b = hx.Bytes(r, 32)
			} else {
				for g := 0; g < 8; g++ { // groups around the boundaries
					x := new(big.Int)
					switch r.N(6) {
					case 0:
						x.Mul(n, big.NewInt(int64(r.N(2641000))))
					case 1:
						x.Mul(n2, big.NewInt(int64(r.N(1625))))
					case 2:
						x.SetInt64(int64(r.N(1 << 32)))
					case 3:
						x.SetInt64(1<<32 - 1 - int64(r.N(3000)))
					case 4:
						x.SetInt64(int64(r.N(3000)))
					default:
						x.Lsh(big.NewInt(1), uint(r.N(32)))
					}
					x.Add(x, big.NewInt(int64(r.N(3)-1)))
					x.And(x, big.NewInt(1<<32-1))
					b = append(b, x.FillBytes(make([]byte, 4))...)
				}
			}
			msg := hex.EncodeToString(b)
			words := crypto.MnemonicEncode(msg)
			idx := []int{}
			for _, w := range words {
				i, ok := index[w]
				if !ok {
					i = -1
				}
				idx = append(idx, i)
			}
			keep := append([]string(nil), words...)
			back := crypto.MnemonicDecode(words)
			same := true
			for i := range keep {
				same = same && keep[i] == words[i]
			}
			r.Log(rec.Ev{"e": "Rec", "op": "code", "msg": hx.Codes(msg), "idx": idx, "back": hx.Codes(back), "argsok": hx.Flag(same)})
		}
		// any words of the list whose numbers fit are the encoding of something
		var idx []int
		var ws []string
		for g := 0; g < 8; g++ {
			a, b, c := r.N(1626), r.N(1626), 0
			z := r.N(1624) // at most 1623 n^2 + ... : below 2^32
			c = (b + z) % 1626
			idx = append(idx, a, b, c)
			ws = append(ws, crypto.MnemonicWords[a], crypto.MnemonicWords[b], crypto.MnemonicWords[c])
		}
		back := crypto.MnemonicDecode(ws)
		ok := len(back) == 64
		again := []int{}
		if ok {
			for _, w := range crypto.MnemonicEncode(back) {
				i, has := index[w]
				if !has {
					i = -1
				}
				again = append(again, i)
			}
		}
		r.Log(rec.Ev{"e": "Rec", "op": "words", "idx": idx, "back": hx.Codes(back), "again": again})
	})
}
