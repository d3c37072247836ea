------------------------------ MODULE TypeMux ------------------------------
(* The type multiplexer. A Post owes (must) one delivery to every subscription of its type that was open when it    *)
(* was called, and may serve subscriptions made meanwhile; closing a subscription (by Unsubscribe or Stop) releases *)
(* Posts from it. From the call of Stop until its return Posts and Subscribes may see either outcome.               *)
(* Receives are labelled with what they will return (RecvCall.r: a Post, 0 for "closed", -1 if they never return),  *)
(* which makes the hand-over deterministic; the only free internal step is the moment a subscription closes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          st,             \* "none" "open" "closed"
          scall, ucall, qst,
          want,           \* what the waiting receiver will get: -2 nobody waits, -1 waits forever
          handed,         \* the hand-over to the waiting receiver has happened
          post, must, got,\* "idle" "called" "returned"; what each Post owes; whom it has served
          phase, stops    \* "on" "stopping" "stopped"; pending Stop calls
vars == <<tid, i, st, scall, ucall, qst, want, handed, post, must, got, phase, stops>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Subs == DOMAIN T.types
Posts == DOMAIN T.vty
Types(s) == {T.types[s][k] : k \in DOMAIN T.types[s]}
Match(p, s) == T.vty[p] \in Types(s)

Init == /\ tid \in DOMAIN Traces /\ i = 1
        /\ LET S == DOMAIN Traces[tid].types  P == DOMAIN Traces[tid].vty IN
           /\ st = [s \in S |-> "none"] /\ scall = [s \in S |-> 0] /\ ucall = [s \in S |-> 0] /\ qst = [s \in S |-> "idle"]
           /\ want = [s \in S |-> -2] /\ handed = [s \in S |-> FALSE]
           /\ post = [p \in P |-> "idle"] /\ must = [p \in P |-> {}] /\ got = [p \in P |-> {}]
        /\ phase = "on" /\ stops = 0

Deliverable(s) == /\ want[s] > 0 /\ ~handed[s] /\ st[s] = "open"
                  /\ post[want[s]] = "called" /\ Match(want[s], s) /\ s \notin got[want[s]]
Deliver(s) == /\ Deliverable(s)
              /\ handed' = [handed EXCEPT ![s] = TRUE]
              /\ must' = [must EXCEPT ![want[s]] = @ \ {s}] /\ got' = [got EXCEPT ![want[s]] = @ \cup {s}]
              /\ UNCHANGED <<st, scall, ucall, qst, want, post, phase, stops>>
Close(s) == /\ st[s] = "open" /\ (ucall[s] > 0 \/ phase # "on")
            /\ st' = [st EXCEPT ![s] = "closed"]
            /\ must' = [p \in Posts |-> must[p] \ {s}]
            /\ UNCHANGED <<scall, ucall, qst, want, handed, post, got, phase, stops>>

Quiet == /\ \A s \in Subs : scall[s] = 0 /\ ucall[s] = 0 /\ qst[s] = "idle"
         /\ stops = 0
         /\ \A p \in Posts : post[p] = "called" => \E s \in Subs : st[s] = "open" /\ Match(p, s) /\ s \notin got[p] /\ want[s] = -2
         /\ \A s \in Subs : want[s] # -2 => /\ st[s] # "closed"   \* a receiver that still waits has nothing to receive;
                                           /\ (handed[s] => post[want[s]] = "called")  \* the Post may be waiting elsewhere

Step(e) ==
  \/ /\ e.e = "SubCall" /\ st[e.s] = "none"
     /\ st' = [st EXCEPT ![e.s] = IF phase = "stopped" THEN "closed" ELSE "open"] /\ scall' = [scall EXCEPT ![e.s] = 1]
     /\ UNCHANGED <<ucall, qst, want, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "SubRet" /\ scall' = [scall EXCEPT ![e.s] = 0]
     /\ UNCHANGED <<st, ucall, qst, want, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "UnsubCall" /\ ucall' = [ucall EXCEPT ![e.s] = @ + 1]
     /\ must' = [p \in Posts |-> must[p] \ {e.s}]   \* a Post may find it removed, another one still deliver
     /\ UNCHANGED <<st, scall, qst, want, handed, post, got, phase, stops>>
  \/ /\ e.e = "UnsubRet" /\ st[e.s] = "closed" /\ ucall' = [ucall EXCEPT ![e.s] = @ - 1]
     /\ UNCHANGED <<st, scall, qst, want, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "ClosedCall" /\ qst[e.s] = "idle" /\ qst' = [qst EXCEPT ![e.s] = st[e.s]]
     /\ UNCHANGED <<st, scall, ucall, want, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "ClosedRet" /\ qst' = [qst EXCEPT ![e.s] = "idle"]
     /\ IF e.b = 1 THEN st[e.s] = "closed" \/ ucall[e.s] > 0 \/ phase # "on" ELSE qst[e.s] # "closed"
     /\ UNCHANGED <<st, scall, ucall, want, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "PostCall" /\ post[e.v] = "idle" /\ post' = [post EXCEPT ![e.v] = "called"]
     /\ must' = [must EXCEPT ![e.v] = {s \in Subs : phase = "on" /\ st[s] = "open" /\ scall[s] = 0 /\ ucall[s] = 0 /\ Match(e.v, s)}]
     /\ UNCHANGED <<st, scall, ucall, qst, want, handed, got, phase, stops>>
  \/ /\ e.e = "PostRet" /\ post[e.v] = "called"
     /\ \/ e.ok = 1 /\ must[e.v] = {}
        \/ e.ok = 0 /\ phase # "on" /\ got[e.v] = {}
     /\ post' = [post EXCEPT ![e.v] = "returned"]
     /\ UNCHANGED <<st, scall, ucall, qst, want, handed, must, got, phase, stops>>
  \/ /\ e.e = "RecvCall" /\ want' = [want EXCEPT ![e.s] = e.r] /\ handed' = [handed EXCEPT ![e.s] = FALSE]
     /\ UNCHANGED <<st, scall, ucall, qst, post, must, got, phase, stops>>
  \/ /\ e.e = "RecvRet" /\ want' = [want EXCEPT ![e.s] = -2]
     /\ IF e.v = 0 THEN st[e.s] = "closed" ELSE handed[e.s] /\ e.t = T.vty[e.v]
     /\ UNCHANGED <<st, scall, ucall, qst, handed, post, must, got, phase, stops>>
  \/ /\ e.e = "StopCall" /\ stops' = stops + 1 /\ phase' = IF phase = "on" THEN "stopping" ELSE phase
     /\ must' = [p \in Posts |-> {}]
     /\ UNCHANGED <<st, scall, ucall, qst, want, handed, post, got>>
  \/ /\ e.e = "StopRet" /\ stops' = stops - 1 /\ phase' = "stopped"
     /\ \A s \in Subs : st[s] = "open" => scall[s] = 1
     /\ st' = [s \in Subs |-> IF st[s] = "open" THEN "closed" ELSE st[s]]
     /\ must' = [p \in Posts |-> {}]
     /\ UNCHANGED <<scall, ucall, qst, want, handed, post, got>>
  \/ e.e = "Quiesce" /\ Quiet /\ UNCHANGED <<st, scall, ucall, qst, want, handed, post, must, got, phase, stops>>

Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1
          /\ UNCHANGED <<st, scall, ucall, qst, want, handed, post, must, got, phase, stops>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ IF \E s \in Subs : Deliverable(s)
           THEN (\E s \in Subs : Deliver(s)) /\ i' = i
           ELSE \/ (\E s \in Subs : Close(s)) /\ i' = i
                \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
                \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
