------------------------------ MODULE SysTimer ------------------------------
(* The system clock's timers. A history is folded over the state of its timers: exactly where instants are virtual, by  *)
(* lower bounds where they are real (an operation happens somewhere in t0..t1, in microseconds).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Max(a, b) == IF a > b THEN a ELSE b
(* a timer: pending until due; started: a real timer that was due when it could not be stopped any more; full: its value *)
(* waits in the channel                                                                                                  *)
New(k, due) == [kind |-> k, pending |-> TRUE, started |-> FALSE, due |-> due, full |-> FALSE]
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
No == [ok |-> FALSE, tm |-> <<>>]
Yes(tm) == [ok |-> TRUE, tm |-> tm]
(* ---- exact time ---- *)
(* what has become of the channel timers by time t *)
Settle(tm, t) == [k \in DOMAIN tm |-> IF tm[k].kind # "func" /\ tm[k].pending /\ tm[k].due <= t THEN [tm[k] EXCEPT !.pending = FALSE, !.full = TRUE] ELSE tm[k]]
Late(tm, t) == \E k \in DOMAIN tm : tm[k].kind = "func" /\ tm[k].pending /\ tm[k].due < t
Exact(tm0, e) ==
  LET tm == Settle(tm0, e.t0) IN
  IF Late(tm, e.t0) THEN No
  ELSE CASE e.op = "arm" -> IF e.t1 = e.t0 THEN Yes(Put(tm, e.id, New(e.kind, e.t0 + Max(e.d, 0)))) ELSE No
         [] e.op = "fire" -> IF tm[e.id].pending /\ tm[e.id].due = e.t0 THEN Yes([tm EXCEPT ![e.id].pending = FALSE]) ELSE No
         [] e.op = "stop" -> IF e.res = (IF tm[e.id].pending THEN 1 ELSE 0) /\ e.t1 = e.t0 THEN Yes([tm EXCEPT ![e.id].pending = FALSE]) ELSE No
         [] e.op = "reset" -> IF e.t1 = e.t0 THEN Yes([tm EXCEPT ![e.id].pending = TRUE, ![e.id].due = e.t0 + Max(e.d, 0)]) ELSE No
         [] e.op = "poll" -> IF e.got = (IF tm[e.id].full THEN 1 ELSE 0) THEN Yes([tm EXCEPT ![e.id].full = FALSE]) ELSE No
         [] e.op = "sleep" -> IF e.t1 = e.t0 + e.d THEN Yes(tm) ELSE No
         [] e.op = "end" -> IF \E k \in DOMAIN tm : tm[k].pending THEN No ELSE Yes(tm)
(* ---- real time ---- *)
Live(tm, e) ==
  CASE e.op = "arm" -> Yes(Put(tm, e.id, New(e.kind, e.t0 + Max(e.d, 0))))
    [] e.op = "fire" -> IF (tm[e.id].pending \/ tm[e.id].started) /\ e.t0 >= tm[e.id].due THEN Yes([tm EXCEPT ![e.id].pending = FALSE, ![e.id].started = FALSE]) ELSE No
    [] e.op = "stop" -> LET x == tm[e.id] IN
                        IF e.res = 1 THEN (IF x.pending THEN Yes([tm EXCEPT ![e.id].pending = FALSE]) ELSE No)
                        ELSE IF ~x.pending THEN Yes(tm)
                        ELSE IF e.t1 >= x.due THEN Yes([tm EXCEPT ![e.id].pending = FALSE, ![e.id].started = TRUE]) ELSE No
    [] e.op = "reset" -> Yes([tm EXCEPT ![e.id].pending = TRUE, ![e.id].due = e.t0 + Max(e.d, 0)])
    [] e.op = "poll" -> IF e.got = 0 THEN Yes(tm)
                        ELSE IF (tm[e.id].pending \/ tm[e.id].started) /\ e.v >= tm[e.id].due /\ e.v <= e.t1 THEN Yes([tm EXCEPT ![e.id].pending = FALSE, ![e.id].started = FALSE]) ELSE No
    [] e.op = "sleep" -> IF e.t1 >= e.t0 + e.d THEN Yes(tm) ELSE No
    [] e.op = "end" -> IF \E k \in DOMAIN tm : tm[k].pending \/ tm[k].started THEN No ELSE Yes(tm)
RECURSIVE Fold(_, _, _, _)
Fold(ev, k, tm, exact) == IF k > Len(ev) THEN TRUE
                          ELSE LET r == TLCEval(IF exact THEN Exact(tm, ev[k]) ELSE Live(tm, ev[k])) IN r.ok /\ Fold(ev, k + 1, r.tm, exact)
(* ---- an alarm in real time: the times it was set for, how often it was heard, and whether it still has to be ---- *)
RECURSIVE Alarm(_, _, _, _, _)
Alarm(ev, k, at, heard, owed) ==
  IF k > Len(ev) THEN TRUE
  ELSE LET e == ev[k] IN
       CASE e.op = "sched" -> Alarm(ev, k + 1, Append(at, e.d), heard, TRUE)
         [] e.op = "astop" -> Alarm(ev, k + 1, SelectSeq(at, LAMBDA d : d <= e.t1), heard, FALSE)
         [] e.op = "apoll" -> IF e.got = 0 THEN e.res = 0 /\ Alarm(ev, k + 1, at, heard, owed)
                              ELSE Cardinality({j \in DOMAIN at : at[j] <= e.t1}) > heard /\ Alarm(ev, k + 1, at, heard + 1, FALSE)
         [] e.op = "end" -> ~owed
(* ---- the clock keeps pace with the runtime's ---- *)
NowOk(ev) == \A j, k \in DOMAIN ev :
  (j < k /\ ev[k].op = "now") => /\ ev[k].res = 1
                                 /\ LET a == IF ev[j].op = "base" THEN 0 ELSE ev[j].v IN
                                    ev[k].v - a <= ev[k].t1 - ev[j].t0 + 1 /\ ev[k].v - a >= ev[k].t0 - ev[j].t1 - 1
Good(e) == CASE e.mode = "exact" -> Fold(e.ev, 1, <<>>, TRUE)
             [] e.mode = "live" -> Fold(e.ev, 1, <<>>, FALSE)
             [] e.mode = "alarm" -> Alarm(e.ev, 1, <<>>, 0, FALSE)
             [] e.mode = "now" -> NowOk(e.ev)
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
