----------------------------- MODULE BlockParam ------------------------------
(* Parameters that name a block: by number, by a name that stands for a special number, or by its hash.                  *)
EXTENDS JsonText, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
No == <<>>
Zeros(n) == [k \in 1..n |-> 0]
Doc(d) == LET x == JVal(d, Ws(d, 1)) IN IF x.p > 0 /\ Ws(d, x.p) = Len(d) + 1 THEN x.v ELSE Fail.v
(* numbers are 16 hexadecimal digits, in two-complement form *)
Special(n) == [k \in 1..16 |-> IF k < 16 THEN 15 ELSE 16 - n]
Names == << <<"earliest", Zeros(16)>>, <<"latest", Special(1)>>, <<"pending", Special(2)>>, <<"finalized", Special(3)>>, <<"safe", Special(4)>> >>
Letters == [a |-> 97, d |-> 100, e |-> 101, f |-> 102, g |-> 103, i |-> 105, l |-> 108, n |-> 110, p |-> 112, r |-> 114, s |-> 115, t |-> 116, z |-> 122]
Spelled(w) == CASE w = "earliest" -> <<"e", "a", "r", "l", "i", "e", "s", "t">> [] w = "latest" -> <<"l", "a", "t", "e", "s", "t">>
               [] w = "pending" -> <<"p", "e", "n", "d", "i", "n", "g">> [] w = "finalized" -> <<"f", "i", "n", "a", "l", "i", "z", "e", "d">>
               [] w = "safe" -> <<"s", "a", "f", "e">>
NameBytes == [k \in DOMAIN Names |-> LET s == Spelled(Names[k][1]) IN [j \in DOMAIN s |-> Letters[s[j]]]]
Nib(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Hex(b) == Len(b) >= 2 /\ b[1] = 48 /\ b[2] \in {120, 88} /\ \A k \in 3..Len(b) : Nib(b[k]) >= 0
Nibs(b) == [k \in 1..(Len(b) - 2) |-> Nib(b[k + 2])]
(* the number a text stands for; No: none *)
Number(b) == IF \E k \in DOMAIN NameBytes : NameBytes[k] = b THEN Names[CHOOSE k \in DOMAIN NameBytes : NameBytes[k] = b][2]
             ELSE LET n == IF Hex(b) THEN Nibs(b) ELSE <<>> IN
                  IF n # <<>> /\ Len(n) <= 16 /\ (Len(n) = 1 \/ n[1] # 0) /\ (Len(n) = 16 => n[1] < 8) THEN Zeros(16 - Len(n)) \o n ELSE No
Hash(b) == IF Hex(b) /\ Len(b) = 66 THEN Nibs(b) ELSE No
(* ---- reading ---- *)
NumOk(e) == LET v == TLCEval(Doc(e.doc)) n == IF v.t = "str" THEN Number(v.b) ELSE No IN
            /\ (e.ok = 1) = (n # No) /\ e.val = (IF n # No THEN n ELSE e.old) /\ e.same = 1
(* called with a text itself: white space around it and one pair of quotes are taken off *)
White == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(b) == IF b # <<>> /\ b[1] \in White THEN TrimL(Tail(b)) ELSE b
TrimR(b) == IF b # <<>> /\ b[Len(b)] \in White THEN TrimR(SubSeq(b, 1, Len(b) - 1)) ELSE b
Unquote(b) == IF Len(b) >= 2 /\ b[1] = 34 /\ b[Len(b)] = 34 THEN SubSeq(b, 2, Len(b) - 1) ELSE b
RawOk(e) == LET n == Number(Unquote(TrimR(TrimL(e.doc)))) IN
            /\ (e.ok = 1) = (n # No) /\ e.val = (IF n # No THEN n ELSE e.old) /\ e.same = 1
Key(m, k) == {j \in DOMAIN m : m[j].k = k}
KNumber == <<98, 108, 111, 99, 107, 78, 117, 109, 98, 101, 114>>
KHash == <<98, 108, 111, 99, 107, 72, 97, 115, 104>>
KCanon == <<114, 101, 113, 117, 105, 114, 101, 67, 97, 110, 111, 110, 105, 99, 97, 108>>
None == [t |-> "null", b |-> <<>>, m |-> <<>>]
Member(v, k) == IF Key(v.m, k) = {} THEN None ELSE v.m[CHOOSE j \in Key(v.m, k) : TRUE].v
Bad == [ok |-> FALSE, num |-> No, hash |-> No, canon |-> 0]
Ref(v) ==
  CASE v.t = "str" -> (IF Len(v.b) = 66 THEN (IF Hash(v.b) # No THEN [ok |-> TRUE, num |-> No, hash |-> Hash(v.b), canon |-> 0] ELSE Bad)
                       ELSE IF Number(v.b) # No THEN [ok |-> TRUE, num |-> Number(v.b), hash |-> No, canon |-> 0] ELSE Bad)
    [] v.t = "obj" -> (LET n == Member(v, KNumber) h == Member(v, KHash) c == Member(v, KCanon) IN
                       IF /\ n.t \in {"null", "str"} /\ h.t \in {"null", "str"} /\ c.t \in {"null", "true", "false"}
                          /\ (n.t = "str" => Number(n.b) # No) /\ (h.t = "str" => Hash(h.b) # No) /\ ~(n.t = "str" /\ h.t = "str")
                       THEN [ok |-> TRUE, num |-> (IF n.t = "str" THEN Number(n.b) ELSE No), hash |-> (IF h.t = "str" THEN Hash(h.b) ELSE No),
                             canon |-> (IF c.t = "true" THEN 1 ELSE 0)]
                       ELSE Bad)
    [] OTHER -> Bad
RefOk(e) == LET x == TLCEval(Ref(Doc(e.doc))) IN
            /\ (e.ok = 1) = x.ok /\ (e.ok = 1 => (e.num = x.num /\ e.hash = x.hash /\ e.canon = x.canon)) /\ e.kept = 1
(* ---- writing ---- *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Lead(_)
Lead(n) == IF Len(n) > 1 /\ n[1] = 0 THEN Lead(Tail(n)) ELSE n
Low(n) == <<48, 120>> \o [k \in DOMAIN n |-> HexDigit(n[k])]
TextOf(n) == IF \E k \in DOMAIN Names : Names[k][2] = n THEN NameBytes[CHOOSE k \in DOMAIN Names : Names[k][2] = n] ELSE Low(Lead(n))
OutOk(e) == /\ e.ok = 1 /\ LET v == Doc(e.doc) IN v.t = "str" /\ v.b = TextOf(e.val)
OutRefOk(e) ==
  LET v == TLCEval(Doc(e.doc))
      want == (IF e.num # No THEN {<<KNumber, "str", TextOf(e.num)>>} ELSE {}) \cup (IF e.hash # No THEN {<<KHash, "str", Low(e.hash)>>} ELSE {})
              \cup (IF e.canon = 1 THEN {<<KCanon, "true", <<>>>>} ELSE {}) IN
  /\ e.ok = 1 /\ v.t = "obj" /\ Len(v.m) = Cardinality(want) /\ {<<v.m[k].k, v.m[k].v.t, v.m[k].v.b>> : k \in DOMAIN v.m} = want
Good(e) == CASE e.kind = "num" -> NumOk(e) [] e.kind = "raw" -> RawOk(e) [] e.kind = "ref" -> RefOk(e) [] e.kind = "out" -> OutOk(e) [] e.kind = "outref" -> OutRefOk(e) [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
