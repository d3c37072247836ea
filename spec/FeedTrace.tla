------------------------------ MODULE FeedTrace ------------------------------
(* Accepts recorded histories of the real feeds. One initial state per recorded history; a history is          *)
(* accepted iff some interleaving of internal steps explains all of its events in order.                        *)
EXTENDS Feed, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i
tvars == <<fvars, tid, i>>

ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)

Ev == Traces[tid].ev
PadC(q, d, D) == [x \in D |-> IF x \in DOMAIN q THEN q[x] ELSE d]

Init == /\ tid \in DOMAIN Traces /\ i = 1
        /\ FeedInit([s \in Subs |-> IF s \in DOMAIN Traces[tid].subch THEN Traces[tid].subch[s] + 1 ELSE 1],
                    [c \in Chans |-> IF c \in DOMAIN Traces[tid].caps THEN Traces[tid].caps[c] ELSE 0])

Consume ==
  /\ i <= Len(Ev)
  /\ i' = i + 1
  /\ LET e == Ev[i] IN
     \/ e.e = "SubCall" /\ SubCall(e.s)
     \/ e.e = "SubRet" /\ SubRet(e.s)
     \/ e.e = "UnsubCall" /\ UnsubCall(e.s)
     \/ e.e = "UnsubRet" /\ UnsubRet(e.s, e.closed)
     \/ e.e = "SendCall" /\ SendCall(e.v)
     \/ e.e = "SendRet" /\ SendRet(e.v, e.n)
     \/ e.e = "RecvCall" /\ RecvCall(e.c)
     \/ e.e = "RecvRet" /\ RecvRet(e.c, e.v)
     \/ e.e = "Quiesce" /\ Quiet /\ UNCHANGED fvars

Accept == /\ i = Len(Ev) + 1
          /\ TLCSet(tid, 1)
          /\ PrintT(<<"ACC", tid>>)
          /\ UNCHANGED <<fvars, i>>

Next == /\ TLCGet(tid) = 0
        /\ tid' = tid
        /\ \/ Internal /\ i' = i
           \/ Consume
           \/ Accept
Spec == Init /\ [][Next]_tvars
=============================================================================
