------------------------------- MODULE BigMath -------------------------------
(* The functions of package math on integers of any size.                                                             *)
EXTENDS Nat256, Text, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Num(neg, m) == [neg |-> IF m = <<>> THEN 0 ELSE neg, m |-> m]
Eq(x, y) == x.neg = y.neg /\ x.m = y.m
Le(x, y) == IF x.neg # y.neg THEN x.neg = 1 ELSE IF x.neg = 1 THEN Cmp(y.m, x.m) <= 0 ELSE Cmp(x.m, y.m) <= 0
Max(x, y) == IF Le(x, y) THEN y ELSE x
Min(x, y) == IF Le(x, y) THEN x ELSE y
(* reduction modulo 2^256 *)
Wrap(x) == LET l == Low256(x.m) IN IF x.neg = 1 /\ l # <<>> THEN Sub(Two(256), l) ELSE l
Signed(m) == IF Cmp(m, Two(255)) < 0 THEN Num(0, m) ELSE Num(1, Sub(Two(256), m))
RECURSIVE Trailing(_, _)
Trailing(m, n) == IF m = <<>> THEN 0 ELSE IF Bit(m, n) = 1 THEN n ELSE Trailing(m, n + 1)
PadTo(m, n) == BigEndian(m, IF ByteLen(m) > n THEN ByteLen(m) ELSE n)
Byte(m, pad, n) == IF n >= pad THEN 0 ELSE ByteAt(m, pad - 1 - n)
Pow1(a, n) == LET p == PowNat(a.m, n, <<1>>) IN Num(IF a.neg = 1 /\ (n % 2) = 1 THEN 1 ELSE 0, p)
(* text of integers *)
Prefixed(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
Sign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN 1 ELSE 0
DecVal(c) == IF c \in 48..57 THEN c - 48 ELSE -1
Parse(s) ==   \* <<accepted, value>>
  LET hex == Prefixed(s)
      sg == IF hex THEN 0 ELSE Sign(s)
      d == SubSeq(s, (IF hex THEN 3 ELSE 1) + sg, Len(s))
      v == [k \in DOMAIN d |-> IF hex THEN HexVal(d[k]) ELSE DecVal(d[k])]
      m == OfDigits(v, 1, IF hex THEN 16 ELSE 10, <<>>) IN
  IF s = <<>> THEN <<1, Num(0, <<>>)>>
  ELSE IF d = <<>> \/ (\E k \in DOMAIN v : v[k] < 0) THEN <<0, Num(0, <<>>)>>
  ELSE IF BitLen(m) > 256 THEN <<0, Num(0, <<>>)>>
  ELSE <<1, Num(IF sg = 1 /\ s[1] = 45 THEN 1 ELSE 0, m)>>
Dig(c) == IF c < 10 THEN 48 + c ELSE 87 + c
TextOf(x, base) == LET d == DigitsOf(x.m, base, <<>>) IN
                   (IF x.neg = 1 THEN <<45>> ELSE <<>>) \o (IF base = 16 THEN <<48, 120>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE [k \in DOMAIN d |-> Dig(d[k])])
Good(e) ==
  /\ e.argsok = 1 /\ e.panic = 0
  /\ CASE e.op = "Max" -> Eq(e.r, Max(e.x, e.y))
       [] e.op = "Min" -> Eq(e.r, Min(e.x, e.y))
       [] e.op = "FirstBitSet" -> e.n = Trailing(e.x.m, 0)
       [] e.op = "U256" -> Eq(e.r, Num(0, Wrap(e.x))) /\ e.same = 1
       [] e.op = "U256Bytes" -> e.b = BigEndian(Wrap(e.x), 32)
       [] e.op = "S256" -> Eq(e.r, Signed(e.x.m))
       [] e.op = "Padded" -> e.b = PadTo(e.x.m, e.n)
       [] e.op = "ReadBits" -> e.b = BigEndian(e.x.m, e.n)
       [] e.op = "Bytes" -> e.b = [k \in DOMAIN e.b |-> Byte(e.x.m, e.n, k - 1)]
       [] e.op = "Exp" -> e.r.neg = 0 /\ e.r.m = (LET p == PowMod(Low256(e.x.m), e.y.m, <<1>>) IN Wrap(Num(IF e.x.neg = 1 /\ Odd(e.y.m) THEN 1 ELSE 0, p)))
       [] e.op = "BigPow" -> Eq(e.r, Pow1(e.x, e.n))
       [] e.op = "Parse" -> LET p == TLCEval(Parse(e.s)) IN \A k \in DOMAIN e.rs : e.rs[k].ok = p[1] /\ (p[1] = 1 => Eq(e.rs[k].v, p[2]))
       [] e.op = "Print" -> /\ \A k \in DOMAIN e.dec : e.dec[k] = TextOf(e.x, 10)
                            /\ \A k \in DOMAIN e.hex : e.hex[k] = TextOf(e.x, 16)
       [] e.op = "Const" -> \A k \in DOMAIN e.cs : Eq(e.cs[k].v, Num(0, IF e.cs[k].minus1 = 1 THEN Sub(Two(e.cs[k].bit), <<1>>) ELSE IF e.cs[k].bit >= 0 THEN Two(e.cs[k].bit) ELSE OfInt(e.cs[k].n)))
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
