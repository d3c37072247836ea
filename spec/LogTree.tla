------------------------------ MODULE LogTree ------------------------------
(* Loggers: each has a context, fixed when it is made, and refers either to a leaf handler of its own or, until it  *)
(* gets one, to whatever its parent refers to at the time a record is written. Writing a record walks up that chain.*)
(* Values are strings (encoded by the driver); the pairs of a context map come in any order.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          ctx,      \* logger -> list of contributions, oldest first: [seq, pairs]
          ref,      \* logger -> leaf number, or minus the logger it follows, or 0: nothing configured
          pend,     \* pending log operation -> [at: logger being consulted or leaf reached, ...the call]
          sets      \* pending SetHandler operation -> [l, leaf]
vars == <<tid, i, ctx, ref, pend, sets>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
Empty == [x \in {} |-> 0]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ ctx = [x \in {1} |-> <<>>] /\ ref = [x \in {1} |-> 0]
        /\ pend = Empty /\ sets = Empty

ErrKey == "s:LOG15_ERROR"
ErrNote == "s:Normalized odd number of arguments by adding nil"
(* what the arguments of a call contribute: a sequence of values, or (a single context map) a set of pairs *)
Part(e) == IF e.map = 1 THEN [m |-> TRUE, v |-> e.pairs]
           ELSE [m |-> FALSE, v |-> IF Len(e.args) % 2 = 1 THEN e.args \o <<"nil", ErrKey, ErrNote>> ELSE e.args]
Size(p) == IF p.m THEN 2 * Len(p.v) ELSE Len(p.v)
RECURSIVE Matches(_, _, _)
(* got from position k on consists of the contributions ps in order *)
Matches(ps, got, k) ==
  IF ps = <<>> THEN k = Len(got) + 1
  ELSE LET p == Head(ps) n == Size(p) IN
       /\ k + n <= Len(got) + 1
       /\ IF p.m THEN {<<got[k + 2 * j - 2], got[k + 2 * j - 1]>> : j \in 1..Len(p.v)} = {<<p.v[j][1], p.v[j][2]>> : j \in 1..Len(p.v)}
                 ELSE \A j \in 1..n : got[k + j - 1] = p.v[j]
       /\ Matches(Tail(ps), got, k + n)

Step(e) ==
  \/ e.e = "Fresh" /\ UNCHANGED <<ctx, ref, pend, sets>>
  \/ /\ e.e = "New" /\ e.before = e.after
     /\ ctx' = Put(ctx, e.id, Append(ctx[e.p], Part(e))) /\ ref' = Put(ref, e.id, 0 - e.p) /\ UNCHANGED <<pend, sets>>
  \/ /\ e.e = "SetCall" /\ sets' = Put(sets, e.o, [l |-> e.l, leaf |-> e.leaf]) /\ UNCHANGED <<ctx, ref, pend>>
  \/ /\ e.e = "SetRet" /\ e.o \notin DOMAIN sets /\ UNCHANGED <<ctx, ref, pend, sets>>
  \/ /\ e.e = "SetGet" /\ ref' = [ref EXCEPT ![e.l] = ref[e.m]] /\ UNCHANGED <<ctx, pend, sets>>
  \/ /\ e.e = "LogCall"
     /\ pend' = Put(pend, e.o, [at |-> 0 - e.l, lvl |-> e.lvl, msg |-> e.msg, parts |-> Append(ctx[e.l], Part(e))])
     /\ UNCHANGED <<ctx, ref, sets>>
  \/ /\ e.e = "Deliver" /\ e.o \in DOMAIN pend
     /\ LET p == pend[e.o] IN p.at = e.leaf /\ p.at > 0 /\ p.lvl = e.lvl /\ p.msg = e.msg /\ Matches(p.parts, e.ctx, 1)
     /\ pend' = Del(pend, {e.o}) /\ UNCHANGED <<ctx, ref, sets>>
  \/ /\ e.e = "LogRet" /\ e.before = e.after
     /\ e.o \in DOMAIN pend => pend[e.o].at = 0   \* nothing configured: nothing delivered
     /\ pend' = Del(pend, {e.o}) /\ UNCHANGED <<ctx, ref, sets>>
(* a pending SetHandler takes effect; a pending record goes one step up *)
SetNow(o) == ref' = [ref EXCEPT ![sets[o].l] = sets[o].leaf] /\ sets' = Del(sets, {o}) /\ UNCHANGED <<ctx, pend>>
Walk(o) == pend[o].at < 0 /\ pend' = [pend EXCEPT ![o].at = ref[0 - pend[o].at]] /\ UNCHANGED <<ctx, ref, sets>>
Accept == i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<ctx, ref, pend, sets>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ \E o \in DOMAIN sets : SetNow(o) /\ i' = i
           \/ \E o \in DOMAIN pend : Walk(o) /\ i' = i
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
