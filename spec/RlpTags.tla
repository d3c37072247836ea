------------------------------- MODULE RlpTags -------------------------------
(* RLP struct tags: which fields of a struct take part, with what meaning, and which structs are rejected.              *)
EXTENDS Text, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
RECURSIVE Split(_, _, _, _)
Split(s, k, cur, acc) == IF k > Len(s) THEN Append(acc, cur)
                         ELSE IF s[k] = 44 THEN Split(s, k + 1, <<>>, Append(acc, cur)) ELSE Split(s, k + 1, Append(cur, s[k]), acc)
Blank == {32, 9, 10, 11, 12, 13}
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[1] \in Blank THEN Trim(Tail(s)) ELSE IF s[Len(s)] \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Word == [nil |-> <<110, 105, 108>>, nilString |-> <<110, 105, 108, 83, 116, 114, 105, 110, 103>>, nilList |-> <<110, 105, 108, 76, 105, 115, 116>>,
         optional |-> <<111, 112, 116, 105, 111, 110, 97, 108>>, tail |-> <<116, 97, 105, 108>>, ign |-> <<45>>, empty |-> <<>>]
(* the words of a field's tag: names of Word, or "unknown" *)
Parts(f) == LET p == Split(f.tag, 1, <<>>, <<>>) IN
            [k \in DOMAIN p |-> LET w == Trim(p[k]) IN IF \E n \in DOMAIN Word : Word[n] = w THEN CHOOSE n \in DOMAIN Word : Word[n] = w ELSE "unknown"]
Has(f, w) == \E k \in DOMAIN Parts(f) : Parts(f)[k] = w
NilWords == {"nil", "nilString", "nilList"}
HasNil(f) == \E w \in NilWords : Has(f, w)
Uints == {"uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
DefaultKind(t) == IF t[1].k \in Uints \cup {"string", "bool"} THEN "string"
                  ELSE IF t[1].k \in {"slice", "array"} /\ t[2].k = "uint8" /\ t[2].enc = 0 THEN "string" ELSE "list"
(* the last nil word decides *)
Kind(f) == IF ~HasNil(f) THEN ""
           ELSE LET p == Parts(f) k == CHOOSE k \in DOMAIN p : p[k] \in NilWords /\ \A m \in (k + 1)..Len(p) : p[m] \notin NilWords IN
                CASE p[k] = "nil" -> DefaultKind(Tail(f.type)) [] p[k] = "nilString" -> "string" [] OTHER -> "list"
Exported(fs) == SelectSeq(fs, LAMBDA f : f.exp = 1)
Faulty(fs, n) ==     \* the n-th exported field has a tag that is wrong by itself or by its place
  LET f == fs[n] IN \/ Has(f, "unknown")
                    \/ HasNil(f) /\ f.type[1].k # "ptr"
                    \/ Has(f, "tail") /\ (n # Len(fs) \/ f.type[1].k # "slice" \/ Has(f, "optional"))
Opt(f) == Has(f, "optional") \/ Has(f, "tail")
Good(e) ==
  LET fs == Exported(e.fields)
      keep == SelectSeq(fs, LAMBDA f : ~Has(f, "ign"))
      bad == {fs[n].name : n \in {n \in DOMAIN fs : Faulty(fs, n)}} \cup {keep[n].name : n \in {n \in DOMAIN keep : ~Opt(keep[n]) /\ \E m \in 1..(n - 1) : Opt(keep[m])}} IN
  /\ e.argsok = 1
  /\ IF bad # {} THEN e.ok = 0 /\ e.errfield \in bad /\ e.named = 1
     ELSE /\ e.ok = 1 /\ Len(e.out) = Len(keep)
          /\ \A n \in DOMAIN keep : LET f == keep[n] o == e.out[n] IN
               /\ o.name = f.name /\ o.same = 1 /\ o.ign = 0
               /\ o.nilok = (IF HasNil(f) THEN 1 ELSE 0) /\ o.kind = Kind(f)
               /\ o.opt = (IF Has(f, "optional") THEN 1 ELSE 0) /\ o.tail = (IF Has(f, "tail") THEN 1 ELSE 0)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
