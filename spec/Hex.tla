-------------------------------- MODULE Hex --------------------------------
(* The grammar of hexadecimal text: reasons to reject a string, the value of an accepted one, the one encoding.      *)
EXTENDS Text
HasPrefix(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
Body(s) == IF HasPrefix(s) THEN SubSeq(s, 3, Len(s)) ELSE s
AllHex(d) == \A k \in DOMAIN d : IsHex(d[k])
If(c, e) == IF c THEN {e} ELSE {}
(* reasons to reject *)
BytesErrs(s, text, prefixed) ==
  IF s = <<>> THEN If(~text, "Empty")
  ELSE IF prefixed /\ ~HasPrefix(s) THEN {"NoPrefix"}
  ELSE LET d == Body(s) IN If(Len(d) % 2 = 1, "Odd") \cup If(~AllHex(d), "Syntax")
FixedErrs(s, n, prefixed) ==
  BytesErrs(s, TRUE, prefixed) \cup If((s = <<>> \/ ~prefixed \/ HasPrefix(s)) /\ Len(Body(s)) # 2 * n, "Length")
NumErrs(s, text, max, range) ==
  IF s = <<>> THEN If(~text, "Empty")
  ELSE IF ~HasPrefix(s) THEN {"NoPrefix"}
  ELSE LET d == Body(s) IN
       IF d = <<>> THEN {"EmptyNum"}
       ELSE If(Len(d) > 1 /\ d[1] = 48, "LeadZero") \cup If(~AllHex(d), "Syntax") \cup If(Len(d) > max, range)
(* values *)
BytesVal(s) == LET d == Body(s) IN [k \in 1..Len(d) \div 2 |-> 16 * HexVal(d[2 * k - 1]) + HexVal(d[2 * k])]
NumVal(s) == LET d == Body(s) IN IF d = <<48>> THEN <<>> ELSE [k \in DOMAIN d |-> HexVal(d[k])]
Quoted2(s) == Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34
Inner(s) == SubSeq(s, 2, Len(s) - 1)
JSON(s, E(_)) == IF Quoted2(s) THEN E(Inner(s)) ELSE {"NonString"}
(* the encoding *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EncBytes(b) == <<48, 120>> \o [k \in 1..2 * Len(b) |-> HexDigit(IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16)]
EncNum(n) == <<48, 120>> \o (IF n = <<>> THEN <<48>> ELSE [k \in DOMAIN n |-> HexDigit(n[k])])
=============================================================================
