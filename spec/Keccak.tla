------------------------------- MODULE Keccak -------------------------------
(* The Keccak sponge function (original padding 0x01), from the Keccak specification. A state is a sequence of 25     *)
(* lanes (lane x + 5y at position x + 5y + 1), a lane a sequence of four 16-bit words, least significant first.       *)
EXTENDS Integers, Sequences, Bitwise, TLC
Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(n) == Pow[n + 1]
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
(* rotation towards the most significant bit *)
RotW(a, k, r) == ((a[(k % 4) + 1] * P2(r)) % 65536) + (a[((k + 3) % 4) + 1] \div P2(16 - r))
Rot(a, n) == LET q == (n \div 16) r == n % 16 IN
             <<RotW(a, 4 - q, r), RotW(a, 5 - q, r), RotW(a, 6 - q, r), RotW(a, 7 - q, r)>>
AndNot(a, b) == <<(65535 - a[1]) & b[1], (65535 - a[2]) & b[2], (65535 - a[3]) & b[3], (65535 - a[4]) & b[4]>>
Zero == <<0, 0, 0, 0>>
(* rotation offsets: the specification's walk (x,y) -> (y, 2x+3y) with triangular numbers *)
RECURSIVE Walk(_, _, _, _)
Walk(x, y, t, acc) == IF t = 24 THEN acc
                      ELSE Walk(y, (2 * x + 3 * y) % 5, t + 1, [acc EXCEPT ![x + 5 * y + 1] = (((t + 1) * (t + 2)) \div 2) % 64])
Offsets == TLCEval(Walk(1, 0, 0, [k \in 1..25 |-> 0]))
(* round constants: the specification's linear feedback shift register x^8 + x^6 + x^5 + x^4 + 1 *)
Lfsr(b) == IF b >= 128 THEN ((2 * b) ^^ 369) % 256 ELSE 2 * b
RECURSIVE RcBits(_, _)
RcBits(n, b) == IF n = 0 THEN <<>> ELSE <<b % 2>> \o RcBits(n - 1, Lfsr(b))
RcStream == TLCEval(RcBits(168, 1))
RC == TLCEval([r \in 1..24 |-> [w \in 1..4 |-> LET S(j) == IF RcStream[7 * (r - 1) + j + 1] = 1 THEN (LET p == 2 ^ j - 1 IN IF p \div 16 = w - 1 THEN P2(p % 16) ELSE 0) ELSE 0
                                       IN S(0) + S(1) + S(2) + S(3) + S(4) + S(5) + S(6)]])
L(s, x, y) == s[(x % 5) + 5 * (y % 5) + 1]
Range25 == 1..25
Theta(s) == LET c == TLCEval([x \in 1..5 |-> X2(X2(X2(X2(L(s, x - 1, 0), L(s, x - 1, 1)), L(s, x - 1, 2)), L(s, x - 1, 3)), L(s, x - 1, 4))])
                d == TLCEval([x \in 1..5 |-> X2(c[((x + 3) % 5) + 1], Rot(c[(x % 5) + 1], 1))]) IN
            [k \in Range25 |-> X2(s[k], d[((k - 1) % 5) + 1])]
(* rho and pi: lane (x,y) rotated goes to (y, 2x+3y); lane (X,Y) comes from x = X+3Y, y = X *)
RhoPi(s) == [k \in Range25 |-> LET X == (k - 1) % 5 Y == (k - 1) \div 5 from == ((X + 3 * Y) % 5) + 5 * X + 1 IN Rot(s[from], Offsets[from])]
Chi(s) == [k \in Range25 |-> LET x == (k - 1) % 5 y == (k - 1) \div 5 IN X2(s[k], AndNot(L(s, x + 1, y), L(s, x + 2, y)))]
Iota(s, r) == [s EXCEPT ![1] = X2(@, RC[r])]
Round(s, r) == TLCEval(Iota(TLCEval(Chi(TLCEval(RhoPi(TLCEval(Theta(s)))))), r))
RECURSIVE Rounds(_, _)
Rounds(s, r) == IF r > 24 THEN s ELSE Rounds(Round(s, r), r + 1)
KeccakF(s) == Rounds(TLCEval(s), 1)
(* the sponge *)
LaneOf(b, p) == <<b[p] + 256 * b[p + 1], b[p + 2] + 256 * b[p + 3], b[p + 4] + 256 * b[p + 5], b[p + 6] + 256 * b[p + 7]>>
AbsorbBlock(s, b, p, rate) == KeccakF([k \in Range25 |-> IF k <= rate \div 8 THEN X2(s[k], LaneOf(b, p + 8 * (k - 1))) ELSE s[k]])
RECURSIVE Absorb(_, _, _, _)
Absorb(s, b, p, rate) == IF p > Len(b) THEN s ELSE Absorb(TLCEval(AbsorbBlock(s, b, p, rate)), b, p + rate, rate)
Pad(m, rate) == LET n == rate - (Len(m) % rate) IN
                m \o [k \in 1..n |-> (IF k = 1 THEN 1 ELSE 0) + (IF k = n THEN 128 ELSE 0)]
ByteOf(s, k) == LET w == s[(k \div 8) + 1][((k % 8) \div 2) + 1] IN IF (k % 2) = 0 THEN w % 256 ELSE w \div 256
EmptyState == [k \in Range25 |-> Zero]
(* digest of n bytes (n at most the rate) *)
Squeeze(s, n) == [k \in 1..n |-> ByteOf(s, k - 1)]
Digest(m, n) == LET rate == 200 - 2 * n  p == TLCEval(Pad(m, rate))  s == TLCEval(Absorb(EmptyState, p, 1, rate)) IN [k \in 1..n |-> ByteOf(s, k - 1)]
=============================================================================
