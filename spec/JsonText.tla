------------------------------ MODULE JsonText ------------------------------
(* JSON texts: a parser, byte by byte.                                                                              *)
EXTENDS Text
(* parser: every function returns [p: position after the value, or 0 for a syntax error; v: the value] *)
Fail == [p |-> 0, v |-> [t |-> "none", b |-> <<>>, m |-> <<>>]]
Ok(p, v) == [p |-> p, v |-> v]
RECURSIVE Ws(_, _)
Ws(s, p) == IF p <= Len(s) /\ s[p] \in {32, 9, 10, 13} THEN Ws(s, p + 1) ELSE p
JEsc == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
RECURSIVE JStr(_, _, _)
JStr(s, p, acc) ==   \* p: inside the quotes
  IF p > Len(s) THEN Fail
  ELSE IF s[p] = 34 THEN Ok(p + 1, [t |-> "str", b |-> acc, m |-> <<>>])
  ELSE IF s[p] < 32 THEN Fail
  ELSE IF s[p] # 92 THEN JStr(s, p + 1, Append(acc, s[p]))
  ELSE IF p = Len(s) THEN Fail
  ELSE IF s[p + 1] \in DOMAIN JEsc THEN JStr(s, p + 2, Append(acc, JEsc[s[p + 1]]))
  ELSE IF s[p + 1] = 117 THEN
     LET h == HexNum(s, p + 2, 4) IN
     IF h < 0 THEN Fail
     ELSE IF h \in 55296..56319 THEN LET l == IF At(s, p + 6, <<92, 117>>) THEN HexNum(s, p + 8, 4) ELSE -1 IN
          IF l \in 56320..57343 THEN JStr(s, p + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + (l - 56320))) ELSE Fail
     ELSE IF h \in 56320..57343 THEN Fail
     ELSE JStr(s, p + 6, acc \o Utf8(h))
  ELSE Fail
RECURSIVE DigitsTo(_, _)
DigitsTo(s, p) == IF p <= Len(s) /\ s[p] \in 48..57 THEN DigitsTo(s, p + 1) ELSE p
JNum(s, p0) == LET a == IF p0 <= Len(s) /\ s[p0] = 45 THEN p0 + 1 ELSE p0
                   b == IF a <= Len(s) /\ s[a] = 48 THEN a + 1 ELSE DigitsTo(s, a)
                   c == IF b <= Len(s) /\ s[b] = 46 THEN (IF DigitsTo(s, b + 1) > b + 1 THEN DigitsTo(s, b + 1) ELSE 0) ELSE b
                   e0 == IF c > 0 /\ c <= Len(s) /\ s[c] \in {69, 101} THEN (IF c + 1 <= Len(s) /\ s[c + 1] \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
                   d == IF e0 = 0 THEN c ELSE IF DigitsTo(s, e0) > e0 THEN DigitsTo(s, e0) ELSE 0 IN
               IF b = a \/ c = 0 \/ d = 0 THEN Fail ELSE Ok(d, [t |-> "num", b |-> SubSeq(s, p0, d - 1), m |-> <<>>])
RECURSIVE JVal(_, _), JArr(_, _, _), JObj(_, _, _)
JVal(s, p) == IF p > Len(s) THEN Fail
              ELSE CASE s[p] = 34 -> JStr(s, p + 1, <<>>)
                     [] s[p] = 91 -> LET q == Ws(s, p + 1) IN
                                     IF q <= Len(s) /\ s[q] = 93 THEN Ok(q + 1, [t |-> "arr", b |-> <<>>, m |-> <<>>]) ELSE JArr(s, q, <<>>)
                     [] s[p] = 123 -> LET q == Ws(s, p + 1) IN
                                      IF q <= Len(s) /\ s[q] = 125 THEN Ok(q + 1, [t |-> "obj", b |-> <<>>, m |-> <<>>]) ELSE JObj(s, q, <<>>)
                     [] s[p] \in 48..57 \cup {45} -> JNum(s, p)
                     [] At(s, p, <<116, 114, 117, 101>>) -> Ok(p + 4, [t |-> "true", b |-> <<>>, m |-> <<>>])
                     [] At(s, p, <<110, 117, 108, 108>>) -> Ok(p + 4, [t |-> "null", b |-> <<>>, m |-> <<>>])
                     [] At(s, p, <<102, 97, 108, 115, 101>>) -> Ok(p + 5, [t |-> "false", b |-> <<>>, m |-> <<>>])
                     [] OTHER -> Fail
JArr(s, p, acc) == LET x == JVal(s, p) q == Ws(s, x.p) IN
                   IF x.p = 0 \/ q > Len(s) THEN Fail
                   ELSE IF s[q] = 93 THEN Ok(q + 1, [t |-> "arr", b |-> <<>>, m |-> Append(acc, x.v)])
                   ELSE IF s[q] = 44 THEN JArr(s, Ws(s, q + 1), Append(acc, x.v)) ELSE Fail
JObj(s, p, acc) == IF p > Len(s) \/ s[p] # 34 THEN Fail
                   ELSE LET k == JStr(s, p + 1, <<>>) c == Ws(s, k.p) IN
                        IF k.p = 0 \/ c > Len(s) \/ s[c] # 58 THEN Fail
                        ELSE LET x == JVal(s, Ws(s, c + 1)) q == Ws(s, x.p) mem == Append(acc, [k |-> k.v.b, v |-> x.v]) IN
                             IF x.p = 0 \/ q > Len(s) THEN Fail
                             ELSE IF s[q] = 125 THEN Ok(q + 1, [t |-> "obj", b |-> <<>>, m |-> mem])
                             ELSE IF s[q] = 44 THEN JObj(s, Ws(s, q + 1), mem) ELSE Fail
=============================================================================
