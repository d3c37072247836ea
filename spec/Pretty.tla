------------------------------- MODULE Pretty --------------------------------
(* Printed sizes, durations and ages.                                                                                   *)
EXTENDS Nat256, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Dec(n) == IF n = <<>> THEN <<48>> ELSE LET d == DigitsOf(n, 10, <<>>) IN [k \in DOMAIN d |-> d[k] + 48]
DecInt(n) == Dec(OfInt(n))
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad(<<48>> \o s, w)
(* ---- sizes: m / 2^q bytes ---- *)
SizeUnits == <<<<66>>, <<75, 105, 66>>, <<77, 105, 66>>, <<71, 105, 66>>, <<84, 105, 66>>>>
Shift(n) == IF n = 0 THEN <<1>> ELSE Two(n)
Bin(e, u) == Shift(e.q + 10 * u)                       \* 1024^u bytes, in 2^-q bytes
(* how many units it exceeds *)
UnitOf(e) == IF Cmp(e.m, Bin(e, 4)) > 0 THEN 4 ELSE IF Cmp(e.m, Bin(e, 3)) > 0 THEN 3 ELSE IF Cmp(e.m, Bin(e, 2)) > 0 THEN 2 ELSE IF Cmp(e.m, Bin(e, 1)) > 0 THEN 1 ELSE 0
RECURSIVE Halve(_, _)
Halve(a, n) == IF n = 0 THEN a ELSE Halve(TLCEval(Half(a, 1, <<>>)), n - 1)
(* hundredths of a unit: a / 2^n rounded to the nearest, ties to even *)
Round(a, n) == LET w == Halve(a, n) rest == Sub(a, Mul(w, Shift(n))) c == Cmp(Add(rest, rest), Shift(n)) IN
               IF c > 0 \/ (c = 0 /\ Odd(w)) THEN Add(w, <<1>>) ELSE w
Cents(e) == Round(Mul(e.m, OfInt(100)), e.q + 10 * UnitOf(e))
Number(h) == LET q == DivMod(h, 100) IN Dec(q[1]) \o <<46>> \o Pad(DecInt(q[2]), 2)
SizeOk(e) == LET u == SizeUnits[UnitOf(e) + 1] n == TLCEval(Number(Cents(e))) IN e.out = n \o <<32>> \o u /\ e.term = n \o u
(* ---- durations ---- *)
(* digits of a fraction without trailing zeros, cut to three unless there are none *)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Cut(s) == LET t == Strip(s) IN IF t = <<>> THEN <<>> ELSE <<46>> \o (IF Len(t) > 3 THEN SubSeq(t, 1, 3) ELSE t)
Frac(n, p, w, unit) == LET q == DivMod(n, p) IN Dec(q[1]) \o Cut(Pad(DecInt(q[2]), w)) \o unit   \* n nanoseconds in units of p = 10^w
DurText(n) ==
  IF n = <<>> THEN <<48, 115>>
  ELSE IF Cmp(n, OfInt(1000)) < 0 THEN Dec(n) \o <<110, 115>>
  ELSE IF Cmp(n, OfInt(1000000)) < 0 THEN Frac(n, 1000, 3, <<194, 181, 115>>)
  ELSE IF Cmp(n, OfInt(1000000000)) < 0 THEN LET q == DivMod(n, 1000) r == DivMod(q[1], 1000) IN Dec(r[1]) \o Cut(Pad(DecInt(r[2]), 3) \o Pad(DecInt(q[2]), 3)) \o <<109, 115>>
  ELSE LET a == DivMod(n, 1000) b == DivMod(a[1], 1000) c == DivMod(b[1], 1000) \* c[1] whole seconds
           f == Cut(Pad(DecInt(c[2]), 3) \o Pad(DecInt(b[2]), 3) \o Pad(DecInt(a[2]), 3))
           s == DivMod(c[1], 60) m == DivMod(s[1], 60) IN
       (IF m[1] # <<>> THEN Dec(m[1]) \o <<104>> ELSE <<>>) \o (IF s[1] # <<>> THEN DecInt(m[2]) \o <<109>> ELSE <<>>) \o DecInt(s[2]) \o f \o <<115>>
DurOk(e) == e.out = (IF e.neg = 1 THEN <<45>> ELSE <<>>) \o DurText(e.d)
(* ---- ages: whole seconds as days and seconds; years have 360 days, months 30 ---- *)
Amounts(e) == LET y == e.days \div 360 r == e.days % 360 mo == r \div 30 r2 == r % 30 IN
              <<y, mo, r2 \div 7, r2 % 7, e.secs \div 3600, (e.secs \div 60) % 60, e.secs % 60>>
AgeSyms == <<<<121>>, <<109, 111>>, <<119>>, <<100>>, <<104>>, <<109>>, <<115>>>>
RECURSIVE AgeText(_, _, _)
AgeText(a, k, left) == IF k > 7 \/ left = 0 THEN <<>>
                       ELSE IF a[k] = 0 THEN AgeText(a, k + 1, left) ELSE DecInt(a[k]) \o AgeSyms[k] \o AgeText(a, k + 1, left - 1)
AgeOk(e) == e.out = (IF e.days = 0 /\ e.secs = 0 THEN <<48>> ELSE AgeText(Amounts(e), 1, 3))
Good(e) == CASE e.op = "size" -> SizeOk(e) [] e.op = "dur" -> DurOk(e) [] e.op = "age" -> AgeOk(e)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
