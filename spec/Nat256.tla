------------------------------- MODULE Nat256 -------------------------------
(* Natural numbers of any size as sequences of base 4096 digits, least significant first, without leading zeros, and  *)
(* integers as records [neg, m].                                                                                      *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE FiniteSetsExt
B == 4096
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
D(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfInt(n \div B)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpAt(a, b, k - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
(* carries: digits given by columns, each below 2^30 *)
RECURSIVE Carry(_, _, _, _)
Carry(col, k, c, acc) == IF k > Len(col) THEN (IF c = 0 THEN acc ELSE Carry(col, k, c \div B, Append(acc, c % B)))
                         ELSE LET v == col[k] + c IN Carry(col, k + 1, v \div B, Append(acc, v % B))
Carried(col) == Norm(Carry(col, 1, 0, <<>>))
Add(a, b) == Carried([k \in 1..MaxLen(a, b) |-> D(a, k) + D(b, k)])
RECURSIVE Borrow(_, _, _, _, _)
Borrow(a, b, k, c, acc) == IF k > Len(a) THEN acc
                           ELSE LET v == a[k] - D(b, k) - c IN Borrow(a, b, k + 1, IF v < 0 THEN 1 ELSE 0, Append(acc, IF v < 0 THEN v + B ELSE v))
Sub(a, b) == Norm(Borrow(a, b, 1, 0, <<>>))     \* a at least b
First(b, k) == IF k + 1 > Len(b) THEN k + 1 - Len(b) ELSE 1
MulTo(a, b, n) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carry(TLCEval([k \in 1..n |-> MapThenSumSet(LAMBDA j : a[j] * b[k + 1 - j], First(b, k)..(IF k < Len(a) THEN k ELSE Len(a)))]), 1, 0, <<>>)
Mul(a, b) == TLCEval(Norm(MulTo(a, b, Len(a) + Len(b))))
(* remainder modulo 2^256 = 4096^21 * 16 *)
Low256(a) == Norm([k \in 1..(IF Len(a) < 22 THEN Len(a) ELSE 22) |-> IF k = 22 THEN a[22] % 16 ELSE a[k]])
MulMod(a, b) == TLCEval(Low256(MulTo(a, b, IF Len(a) + Len(b) < 22 THEN Len(a) + Len(b) ELSE 22)))
Two(n) == [k \in 1..((n \div 12) + 1) |-> IF k = (n \div 12) + 1 THEN 2 ^ (n % 12) ELSE 0]
RECURSIVE Half(_, _, _)
Half(a, k, acc) == IF k > Len(a) THEN Norm(acc) ELSE Half(a, k + 1, Append(acc, (a[k] \div 2) + (IF (D(a, k + 1) % 2) = 1 THEN 2048 ELSE 0)))
Odd(a) == a # <<>> /\ (a[1] % 2) = 1
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
Bit(a, n) == (D(a, (n \div 12) + 1) \div (2 ^ (n % 12))) % 2
(* byte n, counted from the least significant *)
ByteAt(a, n) == LET q == ((8 * n) \div 12) + 1 r == (8 * n) % 12 IN
                IF r = 0 THEN D(a, q) % 256 ELSE IF r = 4 THEN D(a, q) \div 16 ELSE (D(a, q) \div 256) + 16 * (D(a, q + 1) % 16)
ByteLen(a) == (BitLen(a) + 7) \div 8
BigEndian(a, n) == [k \in 1..n |-> ByteAt(a, n - k)]
(* text *)
RECURSIVE OfDigits(_, _, _, _)
OfDigits(d, k, base, acc) == IF k > Len(d) THEN acc ELSE OfDigits(d, k + 1, base, TLCEval(Carried([j \in 1..(Len(acc) + 1) |-> base * D(acc, j) + (IF j = 1 THEN d[k] ELSE 0)])))
(* hexadecimal digits, most significant first: three to a digit of base 4096 *)
OfNibbles(d) == LET N(k) == IF k >= Len(d) THEN 0 ELSE d[Len(d) - k] IN Norm([j \in 1..((Len(d) + 2) \div 3) |-> N(3 * j - 3) + 16 * N(3 * j - 2) + 256 * N(3 * j - 1)])
RECURSIVE DivSmall(_, _, _, _, _)
DivSmall(a, k, r, n, acc) == IF k = 0 THEN <<Norm(acc), r>> ELSE LET v == r * B + a[k] IN DivSmall(a, k - 1, v % n, n, <<v \div n>> \o acc)
DivMod(a, n) == TLCEval(DivSmall(a, Len(a), 0, n, <<>>))
RECURSIVE DigitsOf(_, _, _)
DigitsOf(a, base, acc) == IF a = <<>> THEN acc ELSE LET q == DivMod(a, base) IN DigitsOf(q[1], base, <<q[2]>> \o acc)
(* powers *)
RECURSIVE PowMod(_, _, _), PowNat(_, _, _)
PowMod(b, e, acc) == IF e = <<>> THEN acc ELSE PowMod(IF Len(e) = 1 /\ e[1] = 1 THEN b ELSE MulMod(b, b), TLCEval(Half(e, 1, <<>>)), IF Odd(e) THEN MulMod(acc, b) ELSE acc)
PowNat(b, n, acc) == IF n = 0 THEN acc ELSE PowNat(b, n - 1, Mul(acc, b))
=============================================================================
