---------------------------- MODULE FeedCancel ----------------------------
(* What cancelling promises, independent of how deliveries are counted. Deterministic: every recorded history   *)
(* is read event by event. rel[s]: "none" "sub" "on" "off" (a cancel has returned); fin[c]: what may still       *)
(* arrive on a channel all of whose subscriptions are cancelled (contents of its buffer plus receivers that were *)
(* already waiting); 99 means unlimited.                                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i, rel, ucall, fin, rcv, before, scall, snd
vars == <<tid, i, rel, ucall, fin, rcv, before, scall, snd>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Vals == 1..12
NoLimit == 99
T == Traces[tid]
Ev == T.ev
Ch(s) == T.subch[s] + 1
Subs == DOMAIN T.subch
Chans == DOMAIN T.caps

Init == /\ tid \in DOMAIN Traces /\ i = 1
        /\ rel = [s \in DOMAIN Traces[tid].subch |-> "none"] /\ ucall = [s \in DOMAIN Traces[tid].subch |-> 0]
        /\ scall = [s \in DOMAIN Traces[tid].subch |-> 0]
        /\ fin = [c \in DOMAIN Traces[tid].caps |-> NoLimit] /\ rcv = [c \in DOMAIN Traces[tid].caps |-> 0]
        /\ before = [v \in Vals |-> {}] /\ snd = [v \in Vals |-> "idle"]

(* a subscription may be served by Send v only if it was not cancelled before v was called *)
MayServe(s, v) == rel[s] # "none" /\ s \notin before[v]
Over(c, r) == \A s \in Subs : Ch(s) = c => r[s] \in {"off"}

Step(e) ==
  \/ /\ e.e = "SubCall" /\ rel[e.s] = "none"
     /\ rel' = [rel EXCEPT ![e.s] = "sub"] /\ scall' = [scall EXCEPT ![e.s] = 1]
     /\ fin' = [fin EXCEPT ![Ch(e.s)] = NoLimit]
     /\ UNCHANGED <<ucall, rcv, before, snd>>
  \/ /\ e.e = "SubRet"
     /\ scall' = [scall EXCEPT ![e.s] = 0]
     /\ rel' = [rel EXCEPT ![e.s] = IF @ = "sub" THEN "on" ELSE @]
     /\ UNCHANGED <<ucall, rcv, before, snd, fin>>
  \/ /\ e.e = "UnsubCall" /\ ucall' = [ucall EXCEPT ![e.s] = @ + 1] /\ UNCHANGED <<rel, fin, rcv, before, scall, snd>>
  \/ /\ e.e = "UnsubRet" /\ e.closed = 1
     /\ ucall' = [ucall EXCEPT ![e.s] = @ - 1]
     /\ rel' = [rel EXCEPT ![e.s] = "off"]
     /\ LET c == Ch(e.s) IN
        fin' = IF rel[e.s] # "off" /\ Over(c, rel') THEN [fin EXCEPT ![c] = T.caps[c] + rcv[c]] ELSE fin
     /\ UNCHANGED <<rcv, before, scall, snd>>
  \/ /\ e.e = "SendCall" /\ before' = [before EXCEPT ![e.v] = {s \in Subs : rel[s] = "off"}]
     /\ snd' = [snd EXCEPT ![e.v] = "called"]
     /\ UNCHANGED <<rel, ucall, fin, rcv, scall>>
  \/ /\ e.e = "SendRet" /\ snd' = [snd EXCEPT ![e.v] = "returned"] /\ UNCHANGED <<rel, ucall, fin, rcv, before, scall>>
  \/ /\ e.e = "RecvCall" /\ rcv' = [rcv EXCEPT ![e.c] = @ + 1] /\ UNCHANGED <<rel, ucall, fin, before, scall, snd>>
  \/ /\ e.e = "RecvRet" /\ rcv[e.c] > 0
     /\ \E s \in Subs : Ch(s) = e.c /\ MayServe(s, e.v)
     /\ fin[e.c] > 0
     /\ fin' = [fin EXCEPT ![e.c] = IF @ = NoLimit THEN @ ELSE @ - 1]
     /\ rcv' = [rcv EXCEPT ![e.c] = @ - 1] /\ UNCHANGED <<rel, ucall, before, scall, snd>>
  (* nothing can move any more: every cancel and every subscribe has returned, and Sends are stuck only if some  *)
  (* subscription that is not cancelled has a channel nobody is waiting on                                        *)
  \/ /\ e.e = "Quiesce"
     /\ \A s \in Subs : ucall[s] = 0 /\ scall[s] = 0
     /\ (\E v \in Vals : snd[v] = "called") => \E s \in Subs : rel[s] \in {"sub", "on"} /\ rcv[Ch(s)] = 0
     /\ UNCHANGED <<rel, ucall, fin, rcv, before, scall, snd>>

Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>)
          /\ i' = i + 1 /\ UNCHANGED <<tid, rel, ucall, fin, rcv, before, scall, snd>>
Next == \/ /\ i <= Len(Ev) /\ i' = i + 1 /\ tid' = tid /\ Step(Ev[i])
        \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
