-------------------------------- MODULE Curve --------------------------------
(* Short Weierstrass curves y^2 = x^3 + b. Small fields: the affine group law on TLC integers. The predefined curves: *)
(* field elements as Nat256 numbers, p = 2^n - c, points in Jacobian coordinates, computed here independently.        *)
EXTENDS Nat256, Text, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
(* ---- small fields: points are pairs, infinity is <<0, 0>> ---- *)
Inf == <<0, 0>>
RECURSIVE Pw(_, _, _)
Pw(a, n, p) == IF n = 0 THEN 1 ELSE LET h == Pw(a, n \div 2, p) IN IF (n % 2) = 1 THEN (((h * h) % p) * a) % p ELSE (h * h) % p
Inv(a, p) == Pw(a % p, p - 2, p)
OnSmall(P, p, b) == ((P[2] * P[2]) % p) = (((((P[1] * P[1]) % p) * P[1]) + b) % p)
SAdd(P, Q, p) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ ((P[2] + Q[2]) % p) = 0 THEN Inf
  ELSE LET l == IF P = Q THEN (((3 * P[1] * P[1]) % p) * Inv(2 * P[2], p)) % p ELSE ((Q[2] - P[2] + p) * Inv(Q[1] - P[1] + p, p)) % p
           x == ((l * l) - P[1] - Q[1] + 2 * p) % p
       IN <<x, (((l * (P[1] - x + p)) % p) - P[2] + p) % p>>
RECURSIVE SMul(_, _, _, _)
SMul(bits, P, p, acc) == IF bits = <<>> THEN acc ELSE SMul(Tail(bits), P, p, TLCEval(LET d == SAdd(acc, acc, p) IN IF bits[1] = 1 THEN SAdd(d, P, p) ELSE d))
BitsOfBytes(k) == [j \in 1..(8 * Len(k)) |-> (k[((j - 1) \div 8) + 1] \div (2 ^ (7 - ((j - 1) % 8)))) % 2]
Known(k) == \E j \in DOMAIN k : k[j] # 0
SmallOk(e) ==
  LET P == <<e.x, e.y>> IN
  /\ \A j \in DOMAIN e.adds : LET a == e.adds[j] IN <<a[3], a[4]>> = SAdd(P, <<a[1], a[2]>>, e.p)
  /\ e.dbl = SAdd(P, P, e.p)
  /\ \A j \in DOMAIN e.muls : LET m == e.muls[j] IN Known(m.k) => m.r = SMul(BitsOfBytes(m.k), P, e.p, Inf)
OnOk(e) == \A j \in DOMAIN e.on : LET q == e.on[j] IN q[3] = (IF OnSmall(<<q[1], q[2]>>, e.p, e.b) THEN 1 ELSE 0)
(* ---- the predefined curves ---- *)
Shr(a, n) == LET q == n \div 12 r == n % 12 IN
             Norm([k \in 1..(IF Len(a) > q THEN Len(a) - q ELSE 0) |-> (a[k + q] \div (2 ^ r)) + ((D(a, k + q + 1) % (2 ^ r)) * (2 ^ (12 - r)))])
LowBits(a, n) == LET q == n \div 12 r == n % 12 IN Norm([k \in 1..(IF Len(a) < q + 1 THEN Len(a) ELSE q + 1) |-> IF k = q + 1 THEN a[k] % (2 ^ r) ELSE a[k]])
(* a field is a record [n, c, p] with p = 2^n - c *)
RECURSIVE Reduce(_, _)
Reduce(a, f) == LET hi == Shr(a, f.n) IN
                IF hi = <<>> THEN (IF Cmp(a, f.p) >= 0 THEN Sub(a, f.p) ELSE a)
                ELSE Reduce(TLCEval(Add(Mul(hi, f.c), LowBits(a, f.n))), f)
FMul(a, b, f) == TLCEval(Reduce(Mul(a, b), f))
FAdd(a, b, f) == TLCEval(LET s == Add(a, b) IN IF Cmp(s, f.p) >= 0 THEN Sub(s, f.p) ELSE s)
FSub(a, b, f) == TLCEval(IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(Add(a, f.p), b))
FDbl(a, f) == FAdd(a, a, f)
One == <<1>>
JInf == [x |-> One, y |-> One, z |-> <<>>]
JDbl(P, f) ==
  IF P.z = <<>> \/ P.y = <<>> THEN JInf
  ELSE LET y2 == FMul(P.y, P.y, f)  s == FDbl(FDbl(FMul(P.x, y2, f), f), f)
           m == LET x2 == FMul(P.x, P.x, f) IN FAdd(FDbl(x2, f), x2, f)
           x3 == FSub(FMul(m, m, f), FDbl(s, f), f)
           y4 == FMul(y2, y2, f)  y8 == FDbl(FDbl(FDbl(y4, f), f), f) IN
       TLCEval([x |-> x3, y |-> FSub(FMul(m, FSub(s, x3, f), f), y8, f), z |-> FDbl(FMul(P.y, P.z, f), f)])
(* Q affine: its z is one, or it is infinite *)
JAdd(P, Q, f) ==
  IF P.z = <<>> THEN Q ELSE IF Q.z = <<>> THEN P
  ELSE LET pz == FMul(P.z, P.z, f)
           u1 == P.x u2 == FMul(Q.x, pz, f)
           s1 == P.y s2 == FMul(Q.y, FMul(pz, P.z, f), f) IN
       IF u1 = u2 THEN (IF s1 = s2 THEN JDbl(P, f) ELSE JInf)
       ELSE LET h == FSub(u2, u1, f) r == FSub(s2, s1, f) h2 == FMul(h, h, f) h3 == FMul(h2, h, f) v == FMul(u1, h2, f)
                x3 == FSub(FSub(FMul(r, r, f), h3, f), FDbl(v, f), f) IN
            TLCEval([x |-> x3, y |-> FSub(FMul(r, FSub(v, x3, f), f), FMul(s1, h3, f), f), z |-> FMul(h, P.z, f)])
J(P) == IF P.x = <<>> /\ P.y = <<>> THEN JInf ELSE [x |-> P.x, y |-> P.y, z |-> One]
RECURSIVE JMul(_, _, _, _, _)
JMul(bits, k, P, f, acc) == IF k > Len(bits) THEN acc ELSE JMul(bits, k + 1, P, f, TLCEval(LET d == JDbl(acc, f) IN IF bits[k] = 1 THEN JAdd(d, P, f) ELSE d))
(* an affine result equals a Jacobian point *)
Same(a, P, f) == IF P.z = <<>> THEN a.x = <<>> /\ a.y = <<>>
                 ELSE LET z2 == FMul(P.z, P.z, f) IN /\ Cmp(a.x, f.p) < 0 /\ Cmp(a.y, f.p) < 0
                                                     /\ FMul(a.x, z2, f) = P.x /\ FMul(a.y, FMul(z2, P.z, f), f) = P.y
OnCurve(a, f, b) == FMul(a.y, a.y, f) = FAdd(FMul(FMul(a.x, a.x, f), a.x, f), b, f)
(* standard parameters (SEC 2) *)
Curves == [n \in {160, 192, 224, 256} |->
  LET cc == CASE n = 160 -> Add(Two(32), OfInt(21389)) [] n = 192 -> Add(Two(32), OfInt(4553)) [] n = 224 -> Add(Two(32), OfInt(6803)) [] OTHER -> Add(Two(32), OfInt(977)) IN
  [n |-> n, c |-> cc, p |-> Sub(Two(n), cc), b |-> IF n = 192 THEN <<3>> ELSE IF n = 224 THEN <<5>> ELSE <<7>>]]
F == TLCEval(Curves)
Std == TLCEval([n \in {160, 192, 224, 256} |->
  CASE n = 160 -> [gx |-> OfNibbles(<<3, 11, 4, 12, 3, 8, 2, 12, 14, 3, 7, 10, 10, 1, 9, 2, 10, 4, 0, 1, 9, 14, 7, 6, 3, 0, 3, 6, 15, 4, 15, 5, 13, 13, 4, 13, 7, 14, 11, 11>>), gy |-> OfNibbles(<<9, 3, 8, 12, 15, 9, 3, 5, 3, 1, 8, 15, 13, 12, 14, 13, 6, 11, 12, 2, 8, 2, 8, 6, 5, 3, 1, 7, 3, 3, 12, 3, 15, 0, 3, 12, 4, 15, 14, 14>>),
                n |-> OfNibbles(<<0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 11, 8, 15, 10, 1, 6, 13, 15, 10, 11, 9, 10, 12, 10, 1, 6, 11, 6, 11, 3>>)]
    [] n = 192 -> [gx |-> OfNibbles(<<13, 11, 4, 15, 15, 1, 0, 14, 12, 0, 5, 7, 14, 9, 10, 14, 2, 6, 11, 0, 7, 13, 0, 2, 8, 0, 11, 7, 15, 4, 3, 4, 1, 13, 10, 5, 13, 1, 11, 1, 14, 10, 14, 0, 6, 12, 7, 13>>), gy |-> OfNibbles(<<9, 11, 2, 15, 2, 15, 6, 13, 9, 12, 5, 6, 2, 8, 10, 7, 8, 4, 4, 1, 6, 3, 13, 0, 1, 5, 11, 14, 8, 6, 3, 4, 4, 0, 8, 2, 10, 10, 8, 8, 13, 9, 5, 14, 2, 15, 9, 13>>),
                n |-> OfNibbles(<<15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 14, 2, 6, 15, 2, 15, 12, 1, 7, 0, 15, 6, 9, 4, 6, 6, 10, 7, 4, 13, 14, 15, 13, 8, 13>>)]
    [] n = 224 -> [gx |-> OfNibbles(<<10, 1, 4, 5, 5, 11, 3, 3, 4, 13, 15, 0, 9, 9, 13, 15, 3, 0, 15, 12, 2, 8, 10, 1, 6, 9, 10, 4, 6, 7, 14, 9, 14, 4, 7, 0, 7, 5, 10, 9, 0, 15, 7, 14, 6, 5, 0, 14, 11, 6, 11, 7, 10, 4, 5, 12>>), gy |-> OfNibbles(<<7, 14, 0, 8, 9, 15, 14, 13, 7, 15, 11, 10, 3, 4, 4, 2, 8, 2, 12, 10, 15, 11, 13, 6, 15, 7, 14, 3, 1, 9, 15, 7, 12, 0, 11, 0, 11, 13, 5, 9, 14, 2, 12, 10, 4, 11, 13, 11, 5, 5, 6, 13, 6, 1, 10, 5>>),
                n |-> OfNibbles(<<0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 13, 12, 14, 8, 13, 2, 14, 12, 6, 1, 8, 4, 12, 10, 15, 0, 10, 9, 7, 1, 7, 6, 9, 15, 11, 1, 15, 7>>)]
    [] OTHER -> [gx |-> OfNibbles(<<7, 9, 11, 14, 6, 6, 7, 14, 15, 9, 13, 12, 11, 11, 10, 12, 5, 5, 10, 0, 6, 2, 9, 5, 12, 14, 8, 7, 0, 11, 0, 7, 0, 2, 9, 11, 15, 12, 13, 11, 2, 13, 12, 14, 2, 8, 13, 9, 5, 9, 15, 2, 8, 1, 5, 11, 1, 6, 15, 8, 1, 7, 9, 8>>), gy |-> OfNibbles(<<4, 8, 3, 10, 13, 10, 7, 7, 2, 6, 10, 3, 12, 4, 6, 5, 5, 13, 10, 4, 15, 11, 15, 12, 0, 14, 1, 1, 0, 8, 10, 8, 15, 13, 1, 7, 11, 4, 4, 8, 10, 6, 8, 5, 5, 4, 1, 9, 9, 12, 4, 7, 13, 0, 8, 15, 15, 11, 1, 0, 13, 4, 11, 8>>),
                n |-> OfNibbles(<<15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 14, 11, 10, 10, 14, 13, 12, 14, 6, 10, 15, 4, 8, 10, 0, 3, 11, 11, 15, 13, 2, 5, 14, 8, 12, 13, 0, 3, 6, 4, 1, 4, 1>>)]])
RealOk(e) ==
  LET f == F[e.c] IN
  CASE e.op = "params" -> /\ e.p = f.p /\ e.b = f.b /\ e.size = e.c /\ OnCurve([x |-> e.gx, y |-> e.gy], f, f.b)
                          /\ e.gx = Std[e.c].gx /\ e.gy = Std[e.c].gy /\ e.n = Std[e.c].n
    [] e.op = "order" -> Same([x |-> <<>>, y |-> <<>>], JMul(BitsOfBytes(e.k), 1, J(e.P), f, JInf), f) /\ e.R.x = <<>> /\ e.R.y = <<>>
    [] e.op = "add" -> Same(e.R, JAdd(J(e.P), J(e.Q), f), f)
    [] e.op = "dbl" -> Same(e.R, JDbl(J(e.P), f), f)
    [] e.op \in {"mul", "key"} -> /\ Same(e.R, JMul(BitsOfBytes(e.k), 1, J(e.P), f, JInf), f)
                                  /\ e.op = "key" => Len(e.k) = e.c \div 8 /\ (e.R.x # <<>> \/ e.R.y # <<>>)
    [] e.op = "on" -> e.on = (IF OnCurve(e.P, f, f.b) THEN 1 ELSE 0)
(* encoding: 4, then both coordinates in fixed width *)
EncOk(e) == LET w == (e.size + 7) \div 8  s == <<4>> \o BigEndian(e.x, w) \o BigEndian(e.y, w) IN
            /\ e.enc = s /\ e.back = 1
DecOk(e) == LET w == (e.size + 7) \div 8  d == e.d
                ok == Len(d) = 1 + 2 * w /\ d[1] = 4 IN
            IF ok THEN e.nil = 0 /\ BigEndian(e.x, w) = SubSeq(d, 2, w + 1) /\ BigEndian(e.y, w) = SubSeq(d, w + 2, 2 * w + 1) /\ ByteLen(e.x) <= w /\ ByteLen(e.y) <= w
            ELSE e.nil = 1
SKeyOk(e) == e.r = SMul(BitsOfBytes(e.k), <<e.x, e.y>>, e.p, Inf) /\ e.r # Inf /\ Len(e.k) = (e.size + 7) \div 8
Good(e) == /\ e.argsok = 1
           /\ CASE e.kind = "small" -> SmallOk(e) [] e.kind = "on" -> OnOk(e) [] e.kind = "real" -> RealOk(e)
                [] e.kind = "enc" -> EncOk(e) [] e.kind = "dec" -> DecOk(e) [] e.kind = "skey" -> SKeyOk(e)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
