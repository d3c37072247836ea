------------------------------- MODULE Scope -------------------------------
(* A subscription scope: the set of tracked wrappers, emptied and closed for good by Close.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          tst,      \* per subscription: "none" "calling" "in" "refused" "out"
          icancel,  \* cancel calls of the underlying subscription: 0 none, 1 running, 2 one has returned
          wun,      \* pending wrapper cancels
          closed, owed, clo,  \* scope closed; tracked when it closed; pending Close calls
          cnt       \* pending Count calls: op -> the answer still to be seen, -1 once it has been
vars == <<tid, i, tst, icancel, wun, closed, owed, clo, cnt>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Subs == 1..T.n
Tracked == {s \in Subs : tst[s] = "in"}
Init == /\ tid \in DOMAIN Traces /\ i = 1
        /\ LET S == 1..Traces[tid].n IN
           /\ tst = [s \in S |-> "none"] /\ icancel = [s \in S |-> 0] /\ wun = [s \in S |-> 0]
        /\ closed = FALSE /\ owed = {} /\ clo = 0 /\ cnt = [o \in {} |-> 0]

TrackEffect(s) == /\ tst[s] = "calling" /\ tst' = [tst EXCEPT ![s] = IF closed THEN "refused" ELSE "in"]
                  /\ UNCHANGED <<icancel, wun, closed, owed, clo, cnt>>
Leave(s) == /\ tst[s] = "in" /\ wun[s] > 0 /\ tst' = [tst EXCEPT ![s] = "out"]
            /\ UNCHANGED <<icancel, wun, closed, owed, clo, cnt>>
CloseEffect == /\ clo > 0 /\ ~closed /\ closed' = TRUE /\ owed' = Tracked
               /\ tst' = [s \in Subs |-> IF tst[s] = "in" THEN "out" ELSE tst[s]]
               /\ UNCHANGED <<icancel, wun, clo, cnt>>
CountEffect(o) == /\ cnt[o] = Cardinality(Tracked) /\ cnt' = [cnt EXCEPT ![o] = -1]
                  /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo>>
Quiet == /\ clo = 0 /\ DOMAIN cnt = {} /\ \A s \in Subs : wun[s] = 0 /\ tst[s] # "calling" /\ icancel[s] # 1
Step(e) ==
  \/ /\ e.e = "TrackCall" /\ tst[e.s] = "none" /\ tst' = [tst EXCEPT ![e.s] = "calling"] /\ UNCHANGED <<icancel, wun, closed, owed, clo, cnt>>
  \/ /\ e.e = "TrackRet" /\ (IF e.ok = 1 THEN tst[e.s] \in {"in", "out"} /\ e.same = 1 ELSE tst[e.s] = "refused")
     /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo, cnt>>
  \/ /\ e.e = "WUnsubCall" /\ wun' = [wun EXCEPT ![e.s] = @ + 1] /\ UNCHANGED <<tst, icancel, closed, owed, clo, cnt>>
  \/ /\ e.e = "WUnsubRet" /\ tst[e.s] = "out" /\ icancel[e.s] = 2 /\ wun' = [wun EXCEPT ![e.s] = @ - 1]
     /\ UNCHANGED <<tst, icancel, closed, owed, clo, cnt>>
  (* the underlying subscription is cancelled only for a wrapper cancel or by a Close that found it tracked *)
  \/ /\ e.e = "InnerCall" /\ (wun[e.s] > 0 \/ (clo > 0 /\ (tst[e.s] = "in" \/ e.s \in owed)))
     /\ icancel' = [icancel EXCEPT ![e.s] = IF @ = 2 THEN 2 ELSE 1] /\ UNCHANGED <<tst, wun, closed, owed, clo, cnt>>
  \/ /\ e.e = "InnerRet" /\ icancel' = [icancel EXCEPT ![e.s] = 2] /\ UNCHANGED <<tst, wun, closed, owed, clo, cnt>>
  \/ /\ e.e = "CloseCall" /\ clo' = clo + 1 /\ UNCHANGED <<tst, icancel, wun, closed, owed, cnt>>
  \/ /\ e.e = "CloseRet" /\ closed /\ (\A s \in owed : icancel[s] = 2) /\ clo' = clo - 1
     /\ UNCHANGED <<tst, icancel, wun, closed, owed, cnt>>
  \/ /\ e.e = "CountCall" /\ cnt' = cnt @@ (e.o :> e.n) /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo>>
  \/ /\ e.e = "CountRet" /\ cnt[e.o] = -1 /\ cnt' = [o \in DOMAIN cnt \ {e.o} |-> cnt[o]]
     /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo>>
  \/ e.e = "Quiesce" /\ Quiet /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo, cnt>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1
          /\ UNCHANGED <<tst, icancel, wun, closed, owed, clo, cnt>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ IF \E o \in DOMAIN cnt : cnt[o] = Cardinality(Tracked)
           THEN i' = i /\ \E o \in DOMAIN cnt : CountEffect(o)   \* has no side effect: as soon as possible
           ELSE
           \/ /\ i' = i
              /\ \/ \E s \in Subs : TrackEffect(s) \/ Leave(s)
                 \/ CloseEffect
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
