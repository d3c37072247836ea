------------------------------- MODULE RlpGen -------------------------------
(* Generated RLP code: which struct types are supported, the encoding of a value, and what a decoder must make of any *)
(* input. A type is [k, n, e, fs]; a value is [n: 1 for a nil pointer, b: bytes of a leaf (integers big-endian and    *)
(* minimal), l: elements, neg: 1 for a negative number].                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
(* ---- types ---- *)
Takes(f) == f.exp = 1 /\ f.ign = 0
RECURSIVE Ok(_)
Ok(t) == CASE t.k \in {"bool", "uint", "string", "bytes", "barray", "big", "bigptr", "raw", "ext"} -> TRUE
           [] t.k \in {"ptr", "slice"} -> Ok(t.e[1])
           [] t.k = "struct" -> \A k \in DOMAIN t.fs : Takes(t.fs[k]) => (t.fs[k].tail = 0 /\ t.fs[k].unknown = 0 /\ Ok(t.fs[k].t))
           [] OTHER -> FALSE
(* the empty value written for a nil pointer to t *)
NilOf(t) == IF t.k \in {"bool", "uint", "string", "bytes", "barray", "raw"} THEN 128 ELSE 192
NilKind(t, nil) == IF nil = "nilString" THEN 128 ELSE IF nil = "nilList" THEN 192 ELSE NilOf(t)
(* ---- encoding ---- *)
RECURSIVE BE(_)
BE(n) == IF n = 0 THEN <<>> ELSE BE(n \div 256) \o <<n % 256>>
Header(base, n) == IF n < 56 THEN <<base + n>> ELSE LET s == BE(n) IN <<base + 55 + Len(s)>> \o s
Str(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE Header(128, Len(b)) \o b
List(b) == Header(192, Len(b)) \o b
RECURSIVE Zero(_, _), Enc(_, _, _), Bad(_, _)
Zero(t, v) == CASE t.k \in {"bool", "uint", "string", "bytes", "raw", "big"} -> v.b = <<>>
                [] t.k = "barray" -> \A k \in DOMAIN v.b : v.b[k] = 0
                [] t.k \in {"ptr", "bigptr", "ext"} -> v.n = 1
                [] t.k = "slice" -> v.l = <<>>
                [] t.k = "struct" -> \A k \in DOMAIN t.fs : Takes(t.fs[k]) => Zero(t.fs[k].t, v.l[k])
LastOpt(t, v) == LET S == {k \in DOMAIN t.fs : Takes(t.fs[k]) /\ t.fs[k].opt = 1 /\ ~Zero(t.fs[k].t, v.l[k])} IN
                 IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Written(t, v) == LET last == TLCEval(LastOpt(t, v)) IN {k \in DOMAIN t.fs : Takes(t.fs[k]) /\ (t.fs[k].opt = 0 \/ k <= last)}
Enc(t, v, nil) ==
  CASE t.k \in {"bool", "uint", "string", "bytes", "barray", "big"} -> Str(v.b)
    [] t.k = "raw" -> v.b
    [] t.k = "bigptr" -> IF v.n = 1 THEN <<128>> ELSE Str(v.b)
    [] t.k = "ext" -> IF v.n = 1 THEN <<192>> ELSE List(Str(v.b))
    [] t.k = "ptr" -> IF v.n = 1 THEN <<NilKind(t.e[1], nil)>> ELSE Enc(t.e[1], v, "")
    [] t.k = "slice" -> List(Flatten([k \in DOMAIN v.l |-> Enc(t.e[1], v.l[k], "")]))
    [] t.k = "struct" -> LET W == TLCEval(Written(t, v)) IN
                         List(Flatten([k \in DOMAIN t.fs |-> IF k \in W THEN Enc(t.fs[k].t, v.l[k], t.fs[k].nil) ELSE <<>>]))
(* a negative number where it would be written *)
Bad(t, v) == CASE t.k = "big" -> v.neg = 1
               [] t.k = "bigptr" -> v.n = 0 /\ v.neg = 1
               [] t.k = "ptr" -> v.n = 0 /\ Bad(t.e[1], v)
               [] t.k = "slice" -> \E k \in DOMAIN v.l : Bad(t.e[1], v.l[k])
               [] t.k = "struct" -> \E k \in Written(t, v) : Bad(t.fs[k].t, v.l[k])
               [] OTHER -> FALSE
(* ---- decoding: positions count bytes taken; a result is [ok, v, p]; q: see Known ---- *)
V(n, b, l) == [n |-> n, b |-> b, l |-> l, neg |-> 0]
Fail == [ok |-> FALSE, v |-> V(0, <<>>, <<>>), p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
RECURSIVE Num(_, _, _)
Num(b, k, acc) == IF k > Len(b) \/ acc > 100000 THEN acc ELSE Num(b, k + 1, 256 * acc + b[k])
NoItem == [k |-> "none", from |-> 0, to |-> 0]
(* the next item after position p, within the first `end` bytes: content is from+1 .. to *)
Item(b, p, end) ==
  IF p >= end THEN NoItem
  ELSE LET c == b[p + 1] IN
    IF c < 128 THEN [k |-> "byte", from |-> p, to |-> p + 1]
    ELSE LET kind == IF c < 192 THEN "string" ELSE "list"
             s == (c - 128) % 64 IN
      IF s <= 55 THEN (IF p + 1 + s > end THEN NoItem ELSE [k |-> kind, from |-> p + 1, to |-> p + 1 + s])
      ELSE LET n == s - 55 IN
        IF p + 1 + n > end THEN NoItem
        ELSE LET size == Num(SubSeq(b, p + 2, p + 1 + n), 1, 0) IN
             IF b[p + 2] = 0 \/ size < 56 \/ p + 1 + n + size > end THEN NoItem ELSE [k |-> kind, from |-> p + 1 + n, to |-> p + 1 + n + size]
Content(b, it) == SubSeq(b, it.from + 1, it.to)
IsStr(b, it) == it.k = "byte" \/ (it.k = "string" /\ ~(it.to = it.from + 1 /\ b[it.to] < 128))
RECURSIVE Dec(_, _, _, _, _, _), Elems(_, _, _, _, _, _), Fields(_, _, _, _, _, _, _), ZeroV(_)
ZeroV(t) == CASE t.k \in {"bool", "uint", "string", "bytes", "raw", "big"} -> V(0, <<>>, <<>>)
              [] t.k = "barray" -> V(0, [k \in 1..t.n |-> 0], <<>>)
              [] t.k \in {"ptr", "bigptr", "ext"} -> V(1, <<>>, <<>>)
              [] t.k = "struct" -> V(0, <<>>, [k \in DOMAIN t.fs |-> IF Takes(t.fs[k]) THEN ZeroV(t.fs[k].t) ELSE V(0, <<>>, <<>>)])
              [] OTHER -> V(0, <<>>, <<>>)
Dec(q, t, nil, b, p, end) ==
  LET it == TLCEval(Item(b, p, end)) IN
  IF it.k = "none" THEN Fail
  ELSE LET c == TLCEval(IF it.k # "list" THEN Content(b, it) ELSE <<>>) IN
  CASE t.k = "raw" -> Got(V(0, SubSeq(b, p + 1, it.to), <<>>), it.to)
    [] t.k = "ptr" -> IF nil # "" /\ it.to = it.from /\ it.k = (IF NilKind(t.e[1], nil) = 128 THEN "string" ELSE "list")
                      THEN Got(V(1, <<>>, <<>>), IF q = 1 THEN p ELSE it.to) ELSE Dec(q, t.e[1], "", b, p, end)
    [] t.k \in {"string", "bytes"} -> IF IsStr(b, it) THEN Got(V(0, c, <<>>), it.to) ELSE Fail
    [] t.k = "barray" -> IF IsStr(b, it) /\ Len(c) = t.n THEN Got(V(0, c, <<>>), it.to) ELSE Fail
    [] t.k \in {"big", "bigptr"} -> IF IsStr(b, it) /\ (c = <<>> \/ c[1] # 0) THEN Got(V(0, c, <<>>), it.to) ELSE Fail
    [] t.k = "uint" -> IF IsStr(b, it) /\ Len(c) <= t.n /\ (c = <<>> \/ c[1] # 0) THEN Got(V(0, c, <<>>), it.to) ELSE Fail
    [] t.k = "bool" -> IF IsStr(b, it) /\ c \in {<<>>, <<1>>} THEN Got(V(0, c, <<>>), it.to) ELSE Fail
    [] t.k = "ext" -> IF it.k # "list" THEN Fail
                      ELSE LET x == TLCEval(Item(b, it.from, it.to)) IN
                           IF x.k \in {"none", "list"} \/ ~IsStr(b, x) \/ x.to # it.to THEN Fail ELSE Got(V(0, Content(b, x), <<>>), it.to)
    [] t.k = "slice" -> IF it.k # "list" THEN Fail ELSE Elems(q, t.e[1], b, it.from, it.to, <<>>)
    [] t.k = "struct" -> IF it.k # "list" THEN Fail ELSE Fields(q, t, 1, b, it.from, it.to, <<>>)
Elems(q, t, b, p, end, acc) == IF p = end THEN Got(V(0, <<>>, acc), end)
                            ELSE LET x == TLCEval(Dec(q, t, "", b, p, end)) IN IF x.ok THEN Elems(q, t, b, x.p, end, Append(acc, x.v)) ELSE Fail
Fields(q, t, k, b, p, end, acc) ==
  IF k > Len(t.fs) THEN (IF p = end THEN Got(V(0, <<>>, acc), end) ELSE Fail)
  ELSE LET f == t.fs[k] IN
    IF ~Takes(f) THEN Fields(q, t, k + 1, b, p, end, Append(acc, V(0, <<>>, <<>>)))
    ELSE IF p = end /\ f.opt = 1 THEN Fields(q, t, k + 1, b, p, end, Append(acc, ZeroV(f.t)))
    ELSE LET x == TLCEval(Dec(q, f.t, f.nil, b, p, end)) IN IF x.ok THEN Fields(q, t, k + 1, b, x.p, end, Append(acc, x.v)) ELSE Fail
(* ---- records ---- *)
Decodes(e, q) == LET x == TLCEval(Dec(q, e.t, "", e.in, 0, Len(e.in))) IN
                 IF x.ok THEN e.ok = 1 /\ e.v = x.v /\ e.rest = Len(e.in) - x.p ELSE e.ok = 0
(* the known finding: the empty value that stands for a nil pointer is not taken from the input (q = 1) *)
Known(e) == e.kind = "dec" /\ e.panic = 0 /\ Decodes(e, 1)
Good(e) ==
  /\ e.panic = 0
  /\ CASE e.kind = "gen" -> e.ok = (IF Ok(e.t) THEN 1 ELSE 0) /\ e.same = 1 /\ e.agree = 1
       [] ~Ok(e.t) -> TRUE
       [] e.kind = "enc" -> /\ e.same = 1
                            /\ IF Bad(e.t, e.v) THEN e.ok = 0 ELSE e.ok = 1 /\ e.out = Enc(e.t, e.v, "")
       [] e.kind = "dec" -> Decodes(e, 0)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i') \o (IF Known(Recs[i']) THEN " nil pointer not taken from the input" ELSE ""))
Spec == Init /\ [][Next]_i
=============================================================================
