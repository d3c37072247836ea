-------------------------------- MODULE Text --------------------------------
(* Byte strings (sequences of 0..255), UTF-8, hexadecimal digits and Go-style quoting.                              *)
EXTENDS Integers, Sequences
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
IsHex(c) == HexVal(c) >= 0
RECURSIVE HexNum(_, _, _)
(* value of n hex digits from position p on, -1 if they are not there *)
HexNum(s, p, n) == IF n = 0 THEN 0
                   ELSE IF p + n - 1 > Len(s) \/ ~IsHex(s[p + n - 1]) THEN -1
                   ELSE LET h == HexNum(s, p, n - 1) IN IF h < 0 THEN -1 ELSE 16 * h + HexVal(s[p + n - 1])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Sub(s, p, n) == SubSeq(s, p, p + n - 1)
At(s, p, w) == p + Len(w) - 1 <= Len(s) /\ Sub(s, p, Len(w)) = w
Escapes == [c \in {97, 98, 102, 110, 114, 116, 118, 92, 34} |->
             CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c]
(* does a quoted string whose remainder starts at p decode to w from position k on? the position after it, or 0 *)
RECURSIVE Quoted(_, _, _, _)
Quoted(s, p, w, k) ==
  IF p > Len(s) THEN 0
  ELSE IF s[p] = 34 THEN IF k = Len(w) + 1 THEN p + 1 ELSE 0
  ELSE IF s[p] = 92 THEN
    IF p = Len(s) THEN 0
    ELSE IF s[p + 1] \in DOMAIN Escapes THEN IF k <= Len(w) /\ w[k] = Escapes[s[p + 1]] THEN Quoted(s, p + 2, w, k + 1) ELSE 0
    ELSE IF s[p + 1] = 120 THEN LET h == HexNum(s, p + 2, 2) IN IF k <= Len(w) /\ w[k] = h THEN Quoted(s, p + 4, w, k + 1) ELSE 0
    ELSE IF s[p + 1] = 117 THEN LET h == HexNum(s, p + 2, 4) IN
         IF h >= 0 /\ At(w, k, Utf8(h)) THEN Quoted(s, p + 6, w, k + Len(Utf8(h))) ELSE 0
    ELSE IF s[p + 1] = 85 THEN LET h == IF HexNum(s, p + 2, 4) < 0 \/ HexNum(s, p + 2, 4) > 16 THEN -1 ELSE HexNum(s, p + 2, 8) IN
         IF h >= 0 /\ At(w, k, Utf8(h)) THEN Quoted(s, p + 10, w, k + Len(Utf8(h))) ELSE 0
    ELSE 0
  ELSE IF s[p] < 32 \/ s[p] = 127 THEN 0
  ELSE IF k <= Len(w) /\ w[k] = s[p] THEN Quoted(s, p + 1, w, k + 1) ELSE 0
(* a key or string value: bare when it is safe, quoted otherwise; the position after it, or 0 *)
Unsafe(w) == \E k \in DOMAIN w : w[k] <= 34 \/ w[k] > 126 \/ w[k] = 61
Token(s, p, w) == IF p <= Len(s) /\ s[p] = 34 THEN Quoted(s, p + 1, w, 1)
                  ELSE IF ~Unsafe(w) /\ At(s, p, w) THEN p + Len(w) ELSE 0
RECURSIVE Spaces(_, _)
Spaces(s, p) == IF p <= Len(s) /\ s[p] = 32 THEN Spaces(s, p + 1) ELSE p
(* decimal text of a number given by its digits, with commas once it has six *)
Digit(d) == [k \in DOMAIN d |-> d[k] + 48]
RECURSIVE Commas(_)
Commas(d) == IF Len(d) <= 3 THEN Digit(d) ELSE Commas(SubSeq(d, 1, Len(d) - 3)) \o <<44>> \o Digit(SubSeq(d, Len(d) - 2, Len(d)))
IntText(v) == (IF v.neg = 1 THEN <<45>> ELSE <<>>) \o (IF Len(v.d) >= 6 THEN Commas(v.d) ELSE Digit(v.d))
=============================================================================
