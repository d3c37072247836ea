------------------------------- MODULE ByteOps -------------------------------
(* Byte-string helpers: pad, trim, copy, hex.                                                                         *)
EXTENDS Hex, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Zeros(n) == [k \in 1..n |-> 0]
NonZero(b) == {k \in DOMAIN b : b[k] # 0}
TrimL(b) == LET N == NonZero(b) IN IF N = {} THEN <<>> ELSE SubSeq(b, CHOOSE k \in N : \A j \in 1..(k - 1) : b[j] = 0, Len(b))
TrimR(b) == LET N == NonZero(b) IN IF N = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE k \in N : \A j \in (k + 1)..Len(b) : b[j] = 0)
Left(b, n) == IF n <= Len(b) THEN b ELSE Zeros(n - Len(b)) \o b
Right(b, n) == IF n <= Len(b) THEN b ELSE b \o Zeros(n - Len(b))
Crop(b, n) == IF n < Len(b) THEN SubSeq(b, Len(b) - n + 1, Len(b)) ELSE b
Even(d) == IF (Len(d) % 2) = 1 THEN <<48>> \o d ELSE d
Pairs(d) == [k \in 1..(Len(d) \div 2) |-> 16 * HexVal(d[2 * k - 1]) + HexVal(d[2 * k])]
Digits(b) == SubSeq(EncBytes(b), 3, 2 + 2 * Len(b))
Good(e) ==
  LET s == e.in  plain == AllHex(s) /\ (Len(s) % 2) = 0 IN
  /\ e.panic = 0 /\ e.memok = 1
  /\ e.op # "ParseHexOrString" => e.err = ""
  /\ CASE e.op = "LeftPad" -> e.out = Left(s, e.n)
       [] e.op = "RightPad" -> e.out = Right(s, e.n)
       [] e.op = "TrimLeft" -> e.out = TrimL(s)
       [] e.op = "TrimRight" -> e.out = TrimR(s)
       [] e.op = "Copy" -> e.out = s
       [] e.op = "Bytes2Hex" -> e.out = Digits(s)
       [] e.op = "FromHex" -> AllHex(Body(s)) => e.out = Pairs(Even(Body(s)))
       [] e.op = "Hex2Bytes" -> plain => e.out = Pairs(s)
       [] e.op = "Hex2BytesFixed" -> Len(e.out) = e.n /\ (plain => e.out = Crop(Left(Pairs(s), e.n), e.n))
       [] e.op = "ParseHexOrString" ->
            LET E == BytesErrs(s, FALSE, TRUE) IN
            IF E = {} THEN e.err = "" /\ e.out = Pairs(Body(s))
            ELSE IF E = {"NoPrefix"} THEN e.err = "" /\ e.out = s ELSE e.err \in E
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
