------------------------------ MODULE Handlers ------------------------------
(* What a composition of handlers prescribes for a record: which leaves get it, with which context, in which order, *)
(* and what the composition returns. A record is shared by all parts that see it: notes added on the way stay.      *)
(* Each VRECS record holds a composition, the records logged through it and what was observed.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
RangeOf(s) == {s[k] : k \in DOMAIN s}
V(x) == [k |-> "v", v |-> x]
(* context elements: v value, z lazy not evaluated yet, b lazy that cannot be evaluated, e error note *)
Force(ctx) == [k \in DOMAIN ctx |-> IF k % 2 = 0 /\ ctx[k].k = "z" THEN V(ctx[k].v)
                                    ELSE IF k % 2 = 0 /\ ctx[k].k = "b" THEN [k |-> "e", v |-> ""] ELSE ctx[k]]
ForceAll(ctx) == IF \E k \in DOMAIN ctx : k % 2 = 0 /\ ctx[k].k = "b"
                 THEN Force(ctx) \o <<V("s:LOG15_ERROR"), V("s:bad lazy")>> ELSE Force(ctx)
FirstKey(ctx, name) == LET S == {k \in DOMAIN ctx : k % 2 = 1 /\ ctx[k] = V(name)} IN
                       IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
MatchP(h, n, r, ctx) == CASE h.key = "L" -> r.lvl = h.val
                          [] h.key \in {"M", "T"} -> n = h.val
                          [] OTHER -> LET k == FirstKey(ctx, h.name) IN k > 0 /\ ctx[k + 1] = V(h.want)
Res(out, ret, ctx) == [out |-> out, ret |-> ret, ctx |-> ctx]
Panics(x) == x.ret \notin {"nil"} /\ \E id \in 0..200 : x.ret = "panic: leaf" \o ToString(id)
RECURSIVE Eval(_, _, _, _), Multi(_, _, _, _), Failover(_, _, _, _, _)
Eval(h, n, r, ctx) ==
  CASE h.t = "discard" -> Res(<<>>, "nil", ctx)
    [] h.t = "leaf" -> Res(<<[leaf |-> h.id, ctx |-> ctx]>>, IF n \in RangeOf(h.panics) THEN "panic: " \o h.err
                                                                ELSE IF n \in RangeOf(h.fails) THEN h.err ELSE "nil", ctx)
    [] h.t = "stream" -> LET c == ForceAll(ctx) IN
                         Res(<<[leaf |-> h.id, ctx |-> c]>>, IF n \in RangeOf(h.fails) THEN h.err ELSE "nil", c)
    [] h.t = "filter" -> IF n \in RangeOf(h.pass) THEN Eval(h.c, n, r, ctx) ELSE Res(<<>>, "nil", ctx)
    [] h.t = "lvl" -> IF r.lvl <= h.n THEN Eval(h.c, n, r, ctx) ELSE Res(<<>>, "nil", ctx)
    [] h.t = "match" -> IF MatchP(h, n, r, ctx) THEN Eval(h.c, n, r, ctx) ELSE Res(<<>>, "nil", ctx)
    [] h.t = "sync" -> Eval(h.c, n, r, ctx)
    [] h.t = "async" -> LET x == Eval(h.c, n, r, ctx) IN Res(x.out, "nil", x.ctx)
    [] h.t = "lazy" -> Eval(h.c, n, r, ForceAll(ctx))
    [] h.t = "note" -> Eval(h.c, n, r, ctx \o <<V(h.key), V(h.val)>>)
    [] h.t = "multi" -> Multi(h.cs, n, r, ctx)
    [] h.t = "failover" -> Failover(h, 1, n, r, ctx)
Multi(hs, n, r, ctx) == IF hs = <<>> THEN Res(<<>>, "nil", ctx)
                        ELSE LET x == Eval(Head(hs), n, r, ctx) IN IF Panics(x) THEN x
                             ELSE LET y == Multi(Tail(hs), n, r, x.ctx) IN Res(x.out \o y.out, y.ret, y.ctx)
Failover(h, k, n, r, ctx) ==
  LET x == Eval(h.cs[k], n, r, ctx)
      noted == x.ctx \o <<V(h.keys[k]), V("err:" \o x.ret)>> IN
  IF x.ret = "nil" \/ Panics(x) THEN x
  ELSE IF k = Len(h.cs) THEN Res(x.out, x.ret, noted)
  ELSE LET y == Failover(h, k + 1, n, r, noted) IN Res(x.out \o y.out, y.ret, y.ctx)

(* leaves below a synchronising handler *)
RECURSIVE Synced(_, _)
Synced(h, in) == CASE h.t = "leaf" -> IF in THEN {h.id} ELSE {}
                   [] h.t = "stream" -> {h.id}
                   [] h.t = "discard" -> {}
                   [] h.t = "sync" -> Synced(h.c, TRUE)
                   [] h.t \in {"multi", "failover"} -> UNION {Synced(h.cs[k], in) : k \in DOMAIN h.cs}
                   [] OTHER -> Synced(h.c, in)
Norm(ctx) == [k \in DOMAIN ctx |-> IF ctx[k].k \in {"z", "b"} THEN [k |-> "z", v |-> ""] ELSE ctx[k]]
Got(e, n) == SelectSeq(e.out, LAMBDA o : o.rec = n)
Leaves(s, id) == SelectSeq(s, LAMBDA o : o.leaf = id)
Same(want, got, r) == Len(want) = Len(got) /\ \A k \in DOMAIN want :
  /\ want[k].leaf = got[k].leaf /\ got[k].lvl = r.lvl /\ got[k].msg = r.msg /\ got[k].ctx = Norm(want[k].ctx)
Good(e) ==
  /\ \A n \in DOMAIN e.recs :
       LET x == Eval(e.tree, n, e.recs[n], e.recs[n].ctx) g == Got(e, n) IN
       /\ e.rets[n] = x.ret
       /\ IF e.async THEN \A id \in {o.leaf : o \in RangeOf(x.out) \cup RangeOf(g)} : Same(Leaves(x.out, id), Leaves(g, id), e.recs[n])
                     ELSE Same(x.out, g, e.recs[n])
  (* nothing else arrives anywhere, and each leaf gets the records in order unless they were logged concurrently *)
  /\ \A k \in DOMAIN e.out : e.out[k].rec \in DOMAIN e.recs
  /\ ~e.conc => \A a, b \in DOMAIN e.out : (a < b /\ e.out[a].leaf = e.out[b].leaf) => e.out[a].rec <= e.out[b].rec
  /\ \A k \in DOMAIN e.over : e.over[k] \notin Synced(e.tree, FALSE)
  /\ \A k \in DOMAIN e.written : LET l == Leaves(e.out, e.written[k].id) IN
       e.written[k].recs = e.written[k].pre \o [j \in DOMAIN l |-> l[j].rec]
Want(e) == [n \in DOMAIN e.recs |-> LET x == Eval(e.tree, n, e.recs[n], e.recs[n].ctx) IN <<x.ret, x.out>>]
Init == i = 0
Next == /\ i < Len(Recs) /\ i' = i + 1
        /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i') \o " " \o ToString(Want(Recs[i'])))
Spec == Init /\ [][Next]_i
=============================================================================
