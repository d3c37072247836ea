-------------------------------- MODULE Solc --------------------------------
(* The combined output of the Solidity compiler: what each contract must be parsed into.                                *)
EXTENDS JsonText, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
K == [contracts |-> <<99, 111, 110, 116, 114, 97, 99, 116, 115>>,
      version |-> <<118, 101, 114, 115, 105, 111, 110>>,
      abi |-> <<97, 98, 105>>,
      dev |-> <<100, 101, 118, 100, 111, 99>>,
      user |-> <<117, 115, 101, 114, 100, 111, 99>>,
      bin |-> <<98, 105, 110>>,
      rt |-> <<98, 105, 110, 45, 114, 117, 110, 116, 105, 109, 101>>,
      srcmap |-> <<115, 114, 99, 109, 97, 112>>,
      srcmaprt |-> <<115, 114, 99, 109, 97, 112, 45, 114, 117, 110, 116, 105, 109, 101>>,
      meta |-> <<109, 101, 116, 97, 100, 97, 116, 97>>,
      hashes |-> <<104, 97, 115, 104, 101, 115>>]
Bad == [p |-> 0, v |-> Fail.v]
Text(s) == LET x == JVal(s, Ws(s, 1)) IN IF x.p > 0 /\ Ws(s, x.p) = Len(s) + 1 THEN x ELSE Bad
Null == [t |-> "null", b |-> <<>>, m |-> <<>>]
(* the member called k, null if there is none *)
Mem(o, k) == IF \E n \in DOMAIN o.m : o.m[n].k = k THEN o.m[CHOOSE n \in DOMAIN o.m : o.m[n].k = k].v ELSE Null
RECURSIVE Twice(_)
Twice(v) == CASE v.t = "obj" -> (\E a, b \in DOMAIN v.m : a # b /\ v.m[a].k = v.m[b].k) \/ (\E a \in DOMAIN v.m : Twice(v.m[a].v))
              [] v.t = "arr" -> \E a \in DOMAIN v.m : Twice(v.m[a])
              [] OTHER -> FALSE
(* equal values, whatever the order of members *)
RECURSIVE Same(_, _)
Same(v, w) == /\ v.t = w.t /\ v.b = w.b /\ Len(v.m) = Len(w.m)
              /\ v.t = "arr" => \A n \in DOMAIN v.m : Same(v.m[n], w.m[n])
              /\ v.t = "obj" => \A n \in DOMAIN v.m : \E k \in DOMAIN w.m : w.m[k].k = v.m[n].k /\ Same(v.m[n].v, w.m[k].v)
Docs == {K.abi, K.dev, K.user}
Strs == {K.bin, K.rt, K.srcmap, K.srcmaprt, K.meta}
StrOrNull(v) == v.t \in {"str", "null"}
MapOrNull(v) == v.t \in {"obj", "null"}
(* every member has the type it must have, whichever the format *)
Shape(o) == /\ o.t = "obj" /\ StrOrNull(Mem(o, K.version)) /\ MapOrNull(Mem(o, K.contracts))
            /\ \A n \in DOMAIN Mem(o, K.contracts).m : LET c == Mem(o, K.contracts).m[n].v IN
                 /\ MapOrNull(c) /\ (\A s \in Strs : StrOrNull(Mem(c, s)))
                 /\ MapOrNull(Mem(c, K.hashes)) /\ \A h \in DOMAIN Mem(c, K.hashes).m : StrOrNull(Mem(c, K.hashes).m[h].v)
NewFormat(cs) == \E n \in DOMAIN cs : \E d \in Docs : ~StrOrNull(Mem(cs[n].v, d))
Doc(c, d, new) == IF new THEN Mem(c, d) ELSE Text(Mem(c, d).b).v
DocsOk(c, new) == new \/ \A d \in Docs : Mem(c, d).t = "str" /\ Text(Mem(c, d).b).p > 0
Matches(e, o, name, c, new) ==
  /\ o.name = name /\ o.args = e.args /\ o.lang = "Solidity"
  /\ o.code = <<48, 120>> \o Mem(c, K.bin).b /\ o.rt = <<48, 120>> \o Mem(c, K.rt).b
  /\ o.srcmap.t = "str" /\ o.srcmap.b = Mem(c, K.srcmap).b /\ o.srcmaprt = Mem(c, K.srcmaprt).b /\ o.meta = Mem(c, K.meta).b
  /\ LET h == Mem(c, K.hashes) IN
       /\ Len(o.hashes) = Len(h.m)
       /\ \A n \in DOMAIN h.m : \E k \in DOMAIN o.hashes : o.hashes[k].k = h.m[n].k /\ o.hashes[k].v.b = h.m[n].v.b
  /\ Same(Doc(c, K.abi, new), o.abi) /\ Same(Doc(c, K.dev, new), o.dev) /\ Same(Doc(c, K.user, new), o.user)
Rejected(e) == e.ok = 0 /\ e.nil = 1
Good(e) ==
  LET x == Text(e.in) IN
  /\ e.panic = 0 /\ e.argsok = 1
  /\ IF x.p = 0 THEN Rejected(e)
     ELSE IF Twice(x.v) THEN TRUE      \* outside the format
     ELSE IF ~Shape(x.v) THEN Rejected(e)
     ELSE LET cs == Mem(x.v, K.contracts).m new == e.which = "v8" \/ NewFormat(cs) IN
          IF ~new /\ \E n \in DOMAIN cs : \E d \in Docs : Mem(cs[n].v, d).t = "str" /\ Text(Mem(cs[n].v, d).b).p > 0 /\ Twice(Text(Mem(cs[n].v, d).b).v) THEN TRUE
          ELSE IF \E n \in DOMAIN cs : ~DocsOk(cs[n].v, new) THEN Rejected(e)
          ELSE e.ok = 1 /\ Len(e.out) = Len(cs) /\ \A n \in DOMAIN cs : \E k \in DOMAIN e.out : Matches(e, e.out[k], cs[n].k, cs[n].v, new)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
