----------------------------- MODULE Producer -----------------------------
(* A subscription made from a producer function.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          made,          \* NewSubscription has been called
          prod, perr,    \* "idle" "running" "waiting" (for the cancel signal) "returned"; its error (0: none)
          canceller,     \* the Unsubscribe call that took effect as the cancel (0: none)
          fin, val,      \* outcome decided and error channel closed; error still to be read (0: none)
          ucalls, reads  \* pending Unsubscribe calls; pending reads
vars == <<tid, i, made, prod, perr, canceller, fin, val, ucalls, reads>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ made = FALSE /\ prod = "idle" /\ perr = 0 /\ canceller = 0
        /\ fin = FALSE /\ val = 0 /\ ucalls = {} /\ reads = {}

Cancel(k) == /\ k \in ucalls /\ canceller = 0 /\ ~fin /\ canceller' = k
             /\ UNCHANGED <<made, prod, perr, fin, val, ucalls, reads>>
Settle == /\ prod = "returned" /\ ~fin /\ fin' = TRUE
          /\ val' = IF canceller = 0 THEN perr ELSE 0
          /\ UNCHANGED <<made, prod, perr, canceller, ucalls, reads>>
Quiet == /\ prod # "idle" /\ (prod = "returned" => fin)
         /\ (prod = "waiting" => canceller = 0)
         /\ \A k \in ucalls : k = canceller /\ ~fin
         /\ reads # {} => ~fin
Step(e) ==
  \/ /\ e.e = "NewCall" /\ ~made /\ made' = TRUE /\ UNCHANGED <<prod, perr, canceller, fin, val, ucalls, reads>>
  \/ e.e = "NewRet" /\ UNCHANGED <<made, prod, perr, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "ProdStart" /\ made /\ prod = "idle" /\ prod' = "running" /\ UNCHANGED <<made, perr, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "ProdWait" /\ prod = "running" /\ prod' = "waiting" /\ UNCHANGED <<made, perr, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "ProdCancelled" /\ prod = "waiting" /\ canceller # 0 /\ prod' = "running" /\ UNCHANGED <<made, perr, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "ProdTimeout" /\ prod = "waiting" /\ prod' = "running" /\ UNCHANGED <<made, perr, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "ProdReturn" /\ prod = "running" /\ prod' = "returned" /\ perr' = e.err /\ UNCHANGED <<made, canceller, fin, val, ucalls, reads>>
  \/ /\ e.e = "UnsubCall" /\ ucalls' = ucalls \cup {e.o} /\ UNCHANGED <<made, prod, perr, canceller, fin, val, reads>>
  \/ /\ e.e = "UnsubRet" /\ ucalls' = ucalls \ {e.o} /\ (fin \/ (canceller # 0 /\ canceller # e.o))
     /\ UNCHANGED <<made, prod, perr, canceller, fin, val, reads>>
  \/ /\ e.e = "ErrCall" /\ reads' = reads \cup {<<e.o, e.r>>} /\ UNCHANGED <<made, prod, perr, canceller, fin, val, ucalls>>
  \/ /\ e.e = "ErrRet" /\ reads' = reads \ {<<e.o, e.v>>} /\ fin
     (* closed is seen once the error, if any, has been taken: by another read that may not have reported it yet *)
     /\ IF e.v > 0 THEN e.v = val /\ val' = 0
                   ELSE e.v = 0 /\ (val = 0 \/ \E q \in reads : q[2] = val) /\ UNCHANGED val
     /\ UNCHANGED <<made, prod, perr, canceller, fin, ucalls>>
  \/ e.e = "Quiesce" /\ Quiet /\ UNCHANGED <<made, prod, perr, canceller, fin, val, ucalls, reads>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1
          /\ UNCHANGED <<made, prod, perr, canceller, fin, val, ucalls, reads>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ (Settle \/ \E k \in ucalls : Cancel(k)) /\ i' = i
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
