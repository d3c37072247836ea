------------------------------- MODULE RpcMsg --------------------------------
(* JSON-RPC messages: what a text is, how calls are answered, and the answers to a batch.                                *)
EXTENDS JsonText, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
S == [jsonrpc |-> <<106, 115, 111, 110, 114, 112, 99>>, id |-> <<105, 100>>, method |-> <<109, 101, 116, 104, 111, 100>>, params |-> <<112, 97, 114, 97, 109, 115>>,
      result |-> <<114, 101, 115, 117, 108, 116>>, error |-> <<101, 114, 114, 111, 114>>, code |-> <<99, 111, 100, 101>>, message |-> <<109, 101, 115, 115, 97, 103, 101>>, data |-> <<100, 97, 116, 97>>,
      v2 |-> <<50, 46, 48>>, sub |-> <<95, 115, 117, 98, 115, 99, 114, 105, 98, 101>>, unsub |-> <<95, 117, 110, 115, 117, 98, 115, 99, 114, 105, 98, 101>>,
      rpcerr |-> <<106, 115, 111, 110, 45, 114, 112, 99, 32, 101, 114, 114, 111, 114, 32>>, m0 |-> <<116, 104, 101, 32, 109, 101, 116, 104, 111, 100, 32>>, m0b |-> <<32, 100, 111, 101, 115, 32, 110, 111, 116, 32, 101, 120, 105, 115, 116, 47, 105, 115, 32, 110, 111, 116, 32, 97, 118, 97, 105, 108, 97, 98, 108, 101>>,
      m1 |-> <<110, 111, 32, 34>>, m1b |-> <<34, 32, 115, 117, 98, 115, 99, 114, 105, 112, 116, 105, 111, 110, 32, 105, 110, 32>>,
      m1c |-> <<32, 110, 97, 109, 101, 115, 112, 97, 99, 101>>, late |-> <<114, 101, 113, 117, 101, 115, 116, 32, 116, 105, 109, 101, 100, 32, 111, 117, 116>>]
Doc(d) == LET x == JVal(d, Ws(d, 1)) IN IF x.p > 0 /\ Ws(d, x.p) = Len(d) + 1 THEN x.v ELSE Fail.v
Has(v, k) == \E j \in DOMAIN v.m : v.m[j].k = k
Get(v, k) == v.m[CHOOSE j \in DOMAIN v.m : v.m[j].k = k].v
Null(v) == v.t = "null"
Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
Num(n) == IF n < 0 THEN <<45>> \o DecOf(-n) ELSE DecOf(n)
(* ---- what a message is ---- *)
TextOr(v, k) == IF Has(v, k) /\ ~Null(Get(v, k)) THEN Get(v, k).b ELSE <<>>
TextAt(v, k) == Has(v, k) => Get(v, k).t \in {"str", "null"}
Err(v) == IF Has(v, S.error) THEN Get(v, S.error) ELSE [t |-> "null", b |-> <<>>, m |-> <<>>]
Readable(v) == /\ TextAt(v, S.jsonrpc) /\ TextAt(v, S.method) /\ Err(v).t \in {"obj", "null"}
               /\ Err(v).t = "obj" => (TextAt(Err(v), S.message) /\ (Has(Err(v), S.code) => Get(Err(v), S.code).t \in {"num", "null"}))
RECURSIVE Before(_)
Before(s) == IF s = <<>> \/ s[1] = 95 THEN <<>> ELSE <<s[1]>> \o Before(Tail(s))
ClassOk(e) ==
  LET v == TLCEval(Doc(e.doc)) m == TextOr(v, S.method) vers == TextOr(v, S.jsonrpc) = S.v2
      valid == Has(v, S.id) /\ Get(v, S.id).t \notin {"obj", "arr"}
      flag(b) == IF b THEN 1 ELSE 0
      er == Err(v) msg == TextOr(er, S.message) code == IF Has(er, S.code) /\ ~Null(Get(er, S.code)) THEN Get(er, S.code).b ELSE <<48>> IN
  /\ (e.ok = 1) = Readable(v)
  /\ e.ok = 1 =>
     /\ e.kinds = << flag(vers /\ ~Has(v, S.id) /\ m # <<>>), flag(vers /\ valid /\ m # <<>>),
                     flag(vers /\ valid /\ m = <<>> /\ ~Has(v, S.params) /\ (Has(v, S.result) \/ ~Null(er))),
                     flag(Ends(m, S.sub)), flag(Ends(m, S.unsub)) >>
     /\ e.ns = Before(m)
     /\ ~Null(er) => /\ Num(e.code) = code /\ e.err = (IF msg = <<>> THEN S.rpcerr \o code ELSE msg)
                     /\ Doc(e.data) = (IF Has(er, S.data) THEN Get(er, S.data) ELSE Doc(<<110, 117, 108, 108>>))
(* ---- answers ---- *)
Codes == <<-32601, -32601, -32700, -32600, -32700, -32602>>
Members(v, K) == v.t = "obj" /\ Len(v.m) = Cardinality(K) /\ {v.m[k].k : k \in DOMAIN v.m} = K
StrIs(v, s) == v.t = "str" /\ v.b = s
IntIs(v, n) == v.t = "num" /\ v.b = Num(n)
ErrorIs(v, n, s, any, K) == Members(v, {S.code, S.message} \cup K) /\ IntIs(Get(v, S.code), n) /\ IF any THEN Get(v, S.message).t = "str" ELSE StrIs(Get(v, S.message), s)
ReplyOk(e) ==
  LET v == TLCEval(Doc(e.doc)) want == TLCEval(Doc(e.want))
      n == CASE e.ek \in 0..5 -> Codes[e.ek + 1] [] e.ek \in {6, 8, 10} -> e.code [] e.ek \in {7, 9} -> -32000 [] e.ek = 20 -> -32603
      s == CASE e.ek = 0 -> S.m0 \o e.a \o S.m0b [] e.ek = 1 -> S.m1 \o e.b \o S.m1b \o e.a \o S.m1c [] OTHER -> e.a IN
  /\ Members(v, {S.jsonrpc, S.id, IF e.err = 1 THEN S.error ELSE S.result}) /\ StrIs(Get(v, S.jsonrpc), S.v2) /\ Get(v, S.id) = Doc(e.id) /\ e.same = 1
  /\ IF e.err = 0 THEN Get(v, S.result) = want
     ELSE /\ ErrorIs(Get(v, S.error), n, s, e.ek = 20, IF e.hasdata = 1 THEN {S.data} ELSE {})
          /\ e.hasdata = 1 => Get(Get(v, S.error), S.data) = want
(* ---- batches ---- *)
ItemOk(v, x) == /\ Members(v, {S.jsonrpc, S.id, IF x.k > 0 THEN S.result ELSE S.error}) /\ StrIs(Get(v, S.jsonrpc), S.v2)
                /\ IF x.id = <<>> THEN FALSE ELSE Get(v, S.id) = Doc(x.id)
                /\ IF x.k > 0 THEN IntIs(Get(v, S.result), x.k) ELSE ErrorIs(Get(v, S.error), -32002, S.late, FALSE, {})
WriteOk(w, resp, late) == /\ w.err = late
                          /\ LET v == TLCEval(Doc(w.doc)) IN v.t = "arr" /\ Len(v.m) = Len(resp) /\ \A k \in DOMAIN resp : ItemOk(v.m[k], resp[k])
RECURSIVE Timed(_, _, _)
Timed(ids, p, resp) == IF p > Len(ids) THEN resp ELSE Timed(ids, p + 1, IF ids[p] = <<>> THEN resp ELSE Append(resp, [id |-> ids[p], k |-> 0]))
RECURSIVE Run(_, _, _)
Run(e, k, s) ==
  IF k > Len(e.ops) THEN s.ok /\ Len(e.writes) = s.n
  ELSE LET o == e.ops[k]
           out(resp, late) == IF s.wrote \/ resp = <<>> THEN [s EXCEPT !.wrote = TRUE]
                              ELSE [s EXCEPT !.wrote = TRUE, !.n = s.n + 1, !.ok = s.ok /\ Len(e.writes) > s.n /\ WriteOk(e.writes[s.n + 1], resp, late)]
           t == CASE o.op = "next" -> [s EXCEPT !.ok = s.ok /\ o.res = (IF s.p > Len(e.ids) THEN 0 ELSE s.p)]
                  [] o.op = "push" -> [s EXCEPT !.p = s.p + 1, !.resp = IF o.res > 0 THEN Append(@, [id |-> e.ids[s.p], k |-> o.res]) ELSE @]
                  [] o.op = "finish" -> out(s.resp, 0)
                  [] o.op = "timeout" -> out(Timed(e.ids, s.p, s.resp), 1) IN
       t.ok /\ t.n = o.writes /\ Run(e, k + 1, TLCEval(t))
BatchOk(e) == Run(e, 1, [p |-> 1, resp |-> <<>>, wrote |-> FALSE, n |-> 0, ok |-> TRUE])
HttpOk(e) == e.out = (IF e.body = <<>> THEN e.status ELSE e.status \o <<58, 32>> \o e.body)
Good(e) == CASE e.kind = "class" -> ClassOk(e) [] e.kind = "reply" -> ReplyOk(e) [] e.kind = "batch" -> BatchOk(e) [] e.kind = "http" -> HttpOk(e) [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
