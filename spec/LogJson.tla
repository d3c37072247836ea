------------------------------- MODULE LogJson -------------------------------
(* JSON log records: the output is parsed (JsonText), and its members compared with what the record holds.  *)
EXTENDS JsonText, TLC, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
----------------------------------------------------------------------------
ErrKey == <<76, 79, 71, 49, 53, 95, 69, 82, 82, 79, 82>>
Short == <<<<99, 114, 105, 116>>, <<101, 114, 111, 114>>, <<119, 97, 114, 110>>, <<105, 110, 102, 111>>, <<100, 98, 117, 103>>, <<116, 114, 99, 101>>>>
RangeOf(s) == {s[k] : k \in DOMAIN s}
(* names that are not UTF-8 may collide once replacement characters stand in; otherwise every name occurs once *)
Names(e, o, want) == {x.k : x \in RangeOf(o)} = want /\ (e.lossykeys = 1 \/ Len(o) = Cardinality(want))
Is(v, j) == v.t = j.t /\ v.b = j.b
StrIs(v, b) == v.t = "str" /\ v.b = b
(* the values that may stand under key k: those of the pairs with that key, else the record's own *)
Fixed(e) == [k \in {e.keys[1], e.keys[2], e.keys[3]} |-> IF k = e.keys[3] THEN e.msg ELSE IF k = e.keys[2] THEN Short[e.lvl + 1] ELSE e.time]
NonStr(e) == \E n \in DOMAIN e.pairs : e.pairs[n].ks = 0
PlainOk(e, o) ==
  LET want == {e.pairs[n].k : n \in DOMAIN e.pairs} \cup DOMAIN Fixed(e) \cup (IF NonStr(e) THEN {ErrKey} ELSE {}) IN
  /\ Names(e, o, want)
  /\ \A x \in RangeOf(o) : LET k == x.k v == x.v IN
       \/ \E n \in DOMAIN e.pairs : e.pairs[n].k = k /\ Is(v, e.pairs[n].j)
       \/ k \in DOMAIN Fixed(e) /\ (\A n \in DOMAIN e.pairs : e.pairs[n].k # k) /\ StrIs(v, Fixed(e)[k])
       \/ k = ErrKey /\ NonStr(e) /\ v.t = "str"
Text1(v, w) == IF w.t = "int" THEN v.b = IntText(w)
               ELSE Token(v.b, 1, w.b) = Len(v.b) + 1
OrderedOk(e, o) ==
  LET want == DOMAIN Fixed(e) \cup {e.keys[4]} \cup (IF NonStr(e) THEN {ErrKey} ELSE {}) IN
  /\ Names(e, o, want)
  /\ \A x \in {y \in RangeOf(o) : y.k # e.keys[4]} : LET k == x.k v == x.v IN
       \/ k \in DOMAIN Fixed(e) /\ StrIs(v, Fixed(e)[k])
       \/ k = ErrKey /\ NonStr(e) /\ v.t = "str"
  /\ LET c == (CHOOSE x \in RangeOf(o) : x.k = e.keys[4]).v IN
     /\ c.t = "arr" /\ Len(c.m) = 2 * Len(e.pairs)
     /\ \A n \in DOMAIN e.pairs : /\ StrIs(c.m[2 * n - 1], e.pairs[n].k)
                                  /\ c.m[2 * n].t = "str" /\ (e.pairs[n].lossy = 0 => Text1(c.m[2 * n], e.pairs[n].tv))
Unmarshallable(e) == e.badtime = 1 \/ (e.kind = "json" /\ \E n \in DOMAIN e.pairs : e.pairs[n].j.t = "bad")
Good(e) ==
  LET s == e.out x == JVal(s, 1) IN
  /\ e.panic = 0 /\ x.p > 0 /\ x.v.t = "obj"
  /\ IF e.line = 1 THEN x.p = Len(s) /\ s[x.p] = 10 ELSE x.p = Len(s) + 1
  /\ e.pretty = 0 => \A k \in 1..x.p - 1 : s[k] # 10
  /\ Unmarshallable(e) \/ (IF e.kind = "json" THEN PlainOk(e, x.v.m) ELSE OrderedOk(e, x.v.m))
Init == i = 0
Next == /\ i < Len(Recs) /\ i' = i + 1
        /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
