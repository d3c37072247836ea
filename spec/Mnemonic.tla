------------------------------ MODULE Mnemonic ------------------------------
(* Mnemonic words: every group of 8 hexadecimal digits, a number x, becomes three words of a list of n distinct ones:   *)
(* the digits of x in base n, each but the first given relative to the word before it.                                  *)
EXTENDS Nat256, Text, FiniteSets, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
n == 1626
Words(x) ==     \* x: a number in base 4096
  LET a == DivMod(x, n) b == DivMod(a[1], n) c == DivMod(b[1], n)
      w1 == a[2] w2 == (b[2] + w1) % n w3 == (c[2] + w2) % n IN <<w1, w2, w3>>
Value(w) == Add(OfInt(w[1]), Add(Mul(OfInt(n), OfInt((w[2] - w[1] + n) % n)), Mul(OfInt(n * n), OfInt((w[3] - w[2] + n) % n))))
Group(s, g) == OfNibbles([k \in 1..8 |-> HexVal(s[8 * (g - 1) + k])])
Fits(s) == Len(s) = 64 /\ \A k \in 1..64 : s[k] \in (48..57) \cup (97..102)
CodeOk(e) == /\ e.argsok = 1 /\ Fits(e.msg) /\ Len(e.idx) = 24
             /\ \A g \in 1..8 : SubSeq(e.idx, 3 * g - 2, 3 * g) = Words(Group(e.msg, g))
             /\ e.back = e.msg
(* decoding words gives the number they stand for, and encoding that gives them again *)
WordsOk(e) == /\ Fits(e.back) /\ e.again = e.idx
              /\ \A g \in 1..8 : LET w == SubSeq(e.idx, 3 * g - 2, 3 * g) IN Group(e.back, g) = Value(w) /\ Words(Value(w)) = w
Good(e) == CASE e.op = "list" -> Len(e.words) = n /\ Cardinality({e.words[k] : k \in DOMAIN e.words}) = n
             [] e.op = "code" -> CodeOk(e)
             [] e.op = "words" -> WordsOk(e)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
