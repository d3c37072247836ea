------------------------------- MODULE LogText -------------------------------
(* The text formats of log records: what one line must look like, read from left to right.                          *)
EXTENDS Text, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
ErrKey == <<76, 79, 71, 49, 53, 95, 69, 82, 82, 79, 82>>
Aligned == <<<<67, 82, 73, 84, 32>>, <<69, 82, 82, 79, 82>>, <<87, 65, 82, 78, 32>>, <<73, 78, 70, 79, 32>>, <<68, 69, 66, 85, 71>>, <<84, 82, 65, 67, 69>>>>
Short == <<<<99, 114, 105, 116>>, <<101, 114, 111, 114>>, <<119, 97, 114, 110>>, <<105, 110, 102, 111>>, <<100, 98, 117, 103>>, <<116, 114, 99, 101>>>>
Value(s, p, v) == IF v.t = "int" THEN IF At(s, p, IntText(v)) THEN p + Len(IntText(v)) ELSE 0 ELSE Token(s, p, v.b)
(* ESC [ digits m, or 0 *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, p) == IF p <= Len(s) /\ s[p] \in 48..57 THEN DigitsEnd(s, p + 1) ELSE p
Colour(s, p) == IF At(s, p, <<27, 91>>) /\ DigitsEnd(s, p + 2) > p + 2 /\ DigitsEnd(s, p + 2) <= Len(s) /\ s[DigitsEnd(s, p + 2)] = 109
                THEN DigitsEnd(s, p + 2) + 1 ELSE 0
Plain == <<27, 91, 48, 109>>
Key(s, p, w, c) == IF c THEN LET a == Colour(s, p) IN
                             IF a = 0 THEN 0 ELSE LET b == Token(s, a, w) IN IF b > 0 /\ At(s, b, Plain) THEN b + 4 ELSE 0
                   ELSE Token(s, p, w)
(* whatever stands for a value when its key is no string: up to the next space or the end of the quotes *)
RECURSIVE AnyEnd(_, _, _)
AnyEnd(s, p, q) == IF p > Len(s) THEN 0 ELSE IF s[p] = 10 THEN p
                   ELSE IF s[p] = 92 /\ q THEN AnyEnd(s, p + 2, q) ELSE IF s[p] = 34 THEN AnyEnd(s, p + 1, ~q)
                   ELSE IF s[p] = 32 /\ ~q THEN p ELSE AnyEnd(s, p + 1, q)
(* key=value pairs from position p on, to the end of the line *)
RECURSIVE Pairs(_, _, _, _, _)
Pairs(s, p, ps, k, c) ==
  IF k > Len(ps) THEN p = Len(s) /\ s[p] = 10
  ELSE LET a == Key(s, p, IF ps[k].ks = 1 THEN ps[k].k ELSE ErrKey, c) IN
       /\ a > 0 /\ a <= Len(s) /\ s[a] = 61
       /\ LET b == IF ps[k].ks = 1 THEN Value(s, a + 1, ps[k].v) ELSE AnyEnd(s, a + 1, FALSE) IN
          /\ b > 0
          /\ IF k = Len(ps) THEN Pairs(s, b, ps, k + 1, c)
             ELSE Spaces(s, b) > b /\ Pairs(s, Spaces(s, b), ps, k + 1, c)
Str(b) == [t |-> "str", b |-> b]
LogfmtOk(e) == Pairs(e.out, 1, <<[ks |-> 1, k |-> e.keys[1], v |-> Str(e.time)], [ks |-> 1, k |-> e.keys[2], v |-> Str(Short[e.lvl + 1])],
                       [ks |-> 1, k |-> e.keys[3], v |-> Str(e.msg)]>> \o e.pairs, 1, FALSE)
UnsafeMsg(w) == \E k \in DOMAIN w : (w[k] < 32 /\ w[k] \notin {10, 13}) \/ w[k] > 126 \/ w[k] = 61
Msg(s, p, w) == IF UnsafeMsg(w) THEN IF p <= Len(s) /\ s[p] = 34 THEN Quoted(s, p + 1, w, 1) ELSE 0
                ELSE IF At(s, p, w) THEN p + Len(w) ELSE 0
TermOk(e) ==
  LET s == e.out c == e.color = 1
      a == IF c THEN LET x == Colour(s, 1) IN IF x > 0 /\ At(s, x, Aligned[e.lvl + 1] \o Plain) THEN x + 9 ELSE 0
           ELSE IF At(s, 1, Aligned[e.lvl + 1]) THEN 6 ELSE 0
      head == <<91>> \o e.time \o (IF e.origin = 1 THEN <<124>> \o e.loc ELSE <<>>) \o <<93>>
      b == IF a > 0 /\ At(s, a, head) THEN a + Len(head) ELSE 0
      tps == [k \in DOMAIN e.pairs |-> [ks |-> e.pairs[k].ks, k |-> e.pairs[k].k, v |-> e.pairs[k].tv]] IN
  /\ b > 0 /\ b <= Len(s) /\ s[b] = 32
  (* padding follows the origin; the message may itself begin with spaces *)
  /\ \E m \in (b + 1)..(IF e.origin = 1 THEN Spaces(s, b) ELSE b + 1) :
       LET d == Msg(s, m, e.msg) IN
       /\ d > 0
       /\ \E q \in d..Spaces(s, d) : (e.pairs # <<>> => q > d) /\ Pairs(s, q, tps, 1, c)
Good(e) == /\ e.panic = 0
           /\ CASE e.kind = "int" -> e.out = IntText(e.v)
                [] e.kind = "logfmt" -> LogfmtOk(e)
                [] e.kind = "term" -> TermOk(e)
Init == i = 0
Next == /\ i < Len(Recs) /\ i' = i + 1
        /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
