------------------------------- MODULE Resub -------------------------------
(* A resubscribing subscription. Deterministic: every event is checked against the state it leaves.               *)
(* Times are in microseconds; Tol absorbs the scheduler's own delays.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          ph,        \* "ready" (may connect) "connecting" "live" "ended" (cleanly) "off" (cancel has returned)
          cur,       \* the running connect call or the live inner subscription
          lastErr,   \* error of the last failed inner subscription
          failed,    \* the last connect call failed: a wait is due
          tcall, tret, wait, slow,  \* start and end of the last connect call, last wait, an attempt took longer than max
          open,      \* inner subscriptions obtained, neither ended nor cancelled
          owed,      \* inner subscriptions obtained, not yet cancelled
          ucalls, closed, rd  \* pending cancels; error channel seen closed; readers
vars == <<tid, i, ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls, closed, rd>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Max == T.max
Tol == 500
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ ph = "ready" /\ cur = 0 /\ lastErr = 0 /\ failed = FALSE
        /\ tcall = 0 /\ tret = 0 /\ wait = 0 /\ slow = FALSE /\ open = {} /\ owed = {}
        /\ ucalls = {} /\ closed = FALSE /\ rd = {}

(* the pause before a connect call that follows a failed one *)
WaitOK(w) == /\ w <= Max + Tol
             /\ w > 0
             /\ (wait > 0 /\ ~slow) => (w >= wait + Tol \/ w >= Max - Tol)
Cancelled == ucalls # {} \/ ph = "off"

Step(e) ==
  \/ /\ e.e = "FnCall" /\ ph = "ready" /\ open = {}   \* one live inner subscription at most
     /\ T.witherr = 1 => e.last = lastErr
     /\ failed => WaitOK(e.t - tret)
     /\ wait' = IF failed THEN e.t - tret ELSE 0
     /\ ph' = "connecting" /\ cur' = e.k /\ tcall' = e.t
     /\ UNCHANGED <<lastErr, failed, tret, slow, open, owed, ucalls, closed, rd>>
  \/ /\ e.e = "CtxDone" /\ ph = "connecting" /\ cur = e.k /\ Cancelled
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls, closed, rd>>
  \/ /\ e.e = "FnRet" /\ ph = "connecting" /\ cur = e.k
     /\ tret' = e.t /\ slow' = (e.t - tcall > Max - Tol)
     /\ IF e.ok = 1 THEN ph' = "live" /\ failed' = FALSE /\ open' = open \cup {e.k} /\ owed' = owed \cup {e.k}
                    ELSE ph' = "ready" /\ failed' = TRUE /\ UNCHANGED <<open, owed>>
     /\ UNCHANGED <<cur, lastErr, tcall, wait, ucalls, closed, rd>>
  \/ /\ e.e = "InnerEnd"
     /\ IF ph = "live" /\ e.k = cur /\ e.k \in open
        THEN ph' = (IF e.err = 0 THEN "ended" ELSE "ready") /\ lastErr' = e.err
        ELSE UNCHANGED <<ph, lastErr>>
     /\ open' = open \ {e.k}
     /\ UNCHANGED <<cur, failed, tcall, tret, wait, slow, owed, ucalls, closed, rd>>
  (* an inner subscription is given up when it has ended or because of a cancel *)
  \/ /\ e.e = "InnerUnsub" /\ (e.k \notin open \/ Cancelled)
     /\ open' = open \ {e.k} /\ owed' = owed \ {e.k}
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, ucalls, closed, rd>>
  \/ /\ e.e = "UnsubCall" /\ ucalls' = ucalls \cup {e.o}
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, closed, rd>>
  \/ /\ e.e = "UnsubRet" /\ ph # "connecting" /\ owed = {} /\ ucalls' = ucalls \ {e.o} /\ ph' = "off"
     /\ UNCHANGED <<cur, lastErr, failed, tcall, tret, wait, slow, open, owed, closed, rd>>
  \/ /\ e.e = "ErrCall" /\ rd' = rd \cup {e.o}
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls, closed>>
  (* the error channel never carries a value; it closes after a clean end or a cancel *)
  \/ /\ e.e = "ErrRet" /\ e.v = 0 /\ rd' = rd \ {e.o} /\ closed' = TRUE /\ ph # "connecting"
     /\ (ph = "ended" \/ Cancelled)
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls>>
  \/ /\ e.e = "Quiesce" /\ ucalls = {}
     /\ (ph \in {"ended", "off"} => rd = {})
     /\ ph # "ready"    \* it would have connected again by now
     /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls, closed, rd>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1
          /\ UNCHANGED <<ph, cur, lastErr, failed, tcall, tret, wait, slow, open, owed, ucalls, closed, rd>>
Next == /\ tid' = tid
        /\ \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
