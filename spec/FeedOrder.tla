----------------------------- MODULE FeedOrder -----------------------------
(* Sends take effect in one total order ord, consistent with real time (a Send enters ord between its call and   *)
(* its return or first receive); every channel receives values in that order, and a channel with a single         *)
(* subscription receives a contiguous piece of it.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i, called, ord, last
vars == <<tid, i, called, ord, last>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Single(c) == Cardinality({s \in DOMAIN T.subch : T.subch[s] + 1 = c}) = 1
In(v) == \E k \in DOMAIN ord : ord[k] = v
Pos(v) == CHOOSE k \in DOMAIN ord : ord[k] = v
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ called = {} /\ ord = <<>>
        /\ last = [c \in DOMAIN Traces[tid].caps |-> 0]
Step(e) ==
  \/ e.e = "SendCall" /\ called' = called \cup {e.v} /\ UNCHANGED <<ord, last>>
  \/ e.e = "SendRet" /\ In(e.v) /\ UNCHANGED <<called, ord, last>>
  \/ /\ e.e = "RecvRet" /\ In(e.v)
     /\ IF Single(e.c) THEN last[e.c] = 0 \/ Pos(e.v) = last[e.c] + 1
                       ELSE Pos(e.v) >= last[e.c]
     /\ last' = [last EXCEPT ![e.c] = Pos(e.v)] /\ UNCHANGED <<called, ord>>
(* the order is extended only when the next event needs it: completeness is kept because the order matters only   *)
(* from then on                                                                                                    *)
Extend == /\ Ev[i].e \in {"SendRet", "RecvRet"} /\ ~In(Ev[i].v)
          /\ \E v \in called : ~In(v) /\ ord' = Append(ord, v)
          /\ UNCHANGED <<tid, i, called, last>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>)
          /\ i' = i + 1 /\ UNCHANGED <<tid, called, ord, last>>
Next == /\ TLCGet(tid) = 0
        /\ \/ i <= Len(Ev) /\ (Extend \/ (i' = i + 1 /\ tid' = tid /\ Step(Ev[i])))
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
