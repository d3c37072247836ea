----------------------------- MODULE FeedTyped -----------------------------
(* The dynamically typed feed: the abstract feed of Feed.tla plus the element type. The first Send or Subscribe   *)
(* that takes effect fixes the type; every other type, and every channel argument that cannot be sent to, is       *)
(* rejected by a panic and has no effect on anything.                                                              *)
(* Trace header: sty[s] type of each subscription's channel (0: not a usable channel), vty[v] type of each value   *)
(* (0: an untyped nil).                                                                                            *)
EXTENDS Feed, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i, etype
tvars == <<fvars, tid, i, etype>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
STy(s) == IF s \in DOMAIN T.sty THEN T.sty[s] ELSE 0
VTy(v) == IF v \in DOMAIN T.vty THEN T.vty[v] ELSE 0
Fits(ty) == ty # 0 /\ etype \in {0, ty}
Wrong(ty) == ty = 0 \/ etype \notin {0, ty}

Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ etype = 0
        /\ FeedInit([s \in Subs |-> IF s \in DOMAIN Traces[tid].subch THEN Traces[tid].subch[s] + 1 ELSE 1],
                    [c \in Chans |-> IF c \in DOMAIN Traces[tid].caps THEN Traces[tid].caps[c] ELSE 0])

SubReject(s) == /\ sub[s] = "subbing" /\ Wrong(STy(s)) /\ sub' = [sub EXCEPT ![s] = "rejected"]
                /\ UNCHANGED <<chanOf, caps, scall, ucall, buf, rcv, snd, res, run, pend, got, etype>>
SubPanic(s) == /\ scall[s] = 1 /\ sub[s] = "rejected" /\ scall' = [scall EXCEPT ![s] = 0]
               /\ UNCHANGED <<chanOf, caps, sub, ucall, buf, rcv, snd, res, run, pend, got, etype>>
SendReject(v) == /\ snd[v] = "called" /\ Wrong(VTy(v)) /\ snd' = [snd EXCEPT ![v] = "rejected"]
                 /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res, run, pend, got, etype>>
SendPanic(v) == /\ snd[v] = "rejected" /\ snd' = [snd EXCEPT ![v] = "returned"]
                /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res, run, pend, got, etype>>
TInternal == \/ \E s \in Subs : \/ SubEffect(s) /\ Fits(STy(s)) /\ etype' = STy(s)
                                \/ SubReject(s)
                                \/ (UnsubEffect(s) \/ Join(s) \/ Deliver(s)) /\ UNCHANGED etype
             \/ \E v \in Vals : (SendBegin(v) /\ Fits(VTy(v)) /\ etype' = VTy(v)) \/ SendReject(v)
             \/ SendEnd /\ UNCHANGED etype
TQuiet == Quiet /\ \A v \in Vals : snd[v] # "rejected"   \* a rejected Send may at most wait for the Send in effect
Consume ==
  /\ i <= Len(Ev) /\ i' = i + 1
  /\ LET e == Ev[i] IN
     \/ /\ \/ e.e = "SubCall" /\ SubCall(e.s)
           \/ e.e = "SubRet" /\ sub[e.s] # "rejected" /\ SubRet(e.s)
           \/ e.e = "UnsubCall" /\ UnsubCall(e.s)
           \/ e.e = "UnsubRet" /\ UnsubRet(e.s, e.closed)
           \/ e.e = "SendCall" /\ SendCall(e.v)
           \/ e.e = "SendRet" /\ SendRet(e.v, e.n)
           \/ e.e = "RecvCall" /\ RecvCall(e.c)
           \/ e.e = "RecvRet" /\ RecvRet(e.c, e.v)
           \/ e.e = "Quiesce" /\ TQuiet /\ UNCHANGED fvars
        /\ UNCHANGED etype
     \/ e.e = "SubPanic" /\ SubPanic(e.s)
     \/ e.e = "SendPanic" /\ SendPanic(e.v)
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<fvars, i, etype>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ TInternal /\ i' = i
           \/ Consume
           \/ Accept
Spec == Init /\ [][Next]_tvars
=============================================================================
