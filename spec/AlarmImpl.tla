----------------------------- MODULE AlarmImpl -----------------------------
(* The algorithm of common/mclock/alarm.go over the timers of common/mclock/simclock.go: one timer handle, reused   *)
(* when it is set to an earlier time. Runs are cut into taking out the due timers and calling them one by one, and  *)
(* callbacks of other timers may use the alarm in between. Checked to refine Alarm.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxTime, MaxOps
VARIABLES now, timers, hasTimer, deadline, ch, queue, running, ops, gowed, gmay, gdue
vars == <<now, timers, hasTimer, deadline, ch, queue, running, ops, gowed, gmay, gdue>>
(* timers: set of armed deadlines of this alarm (at most one is the current handle's, hasTimer its deadline, -1 none, *)
(* -2 already fired or stopped); queue: taken out by the running Run; g*: ghost state of the abstract alarm           *)
Init == /\ now = 0 /\ timers = {} /\ hasTimer = -1 /\ deadline = 0 /\ ch = 0 /\ queue = 0 /\ running = FALSE /\ ops = 0
        /\ gowed = {} /\ gmay = <<>> /\ gdue = FALSE
At(t) == IF t < now THEN now ELSE t
Usable == {k \in DOMAIN gmay : gmay[k] <= now}
Used == LET k == CHOOSE x \in Usable : \A j \in Usable : x <= j IN [j \in 1..Len(gmay) - 1 |-> IF j < k THEN gmay[j] ELSE gmay[j + 1]]
More == ops < MaxOps /\ ops' = ops + 1
Schedule(t) == /\ More
               /\ IF hasTimer # -1 /\ deadline > now /\ deadline <= t
                  THEN /\ UNCHANGED <<timers, hasTimer, deadline, ch, gdue>> /\ gowed' = gowed \cup {At(t)} /\ gmay' = Append(gmay, At(t))
                  ELSE /\ timers' = (timers \ {hasTimer}) \cup {At(t)} /\ hasTimer' = At(t) /\ deadline' = At(t)
                       /\ IF hasTimer >= 0 /\ deadline <= now  \* the old deadline is due and its timer still armed
                          THEN ch' = 1 /\ gowed' = {At(t)} /\ gdue' = FALSE /\ gmay' = Append(Used, At(t))
                          ELSE gowed' = gowed \cup {At(t)} /\ gmay' = Append(gmay, At(t)) /\ UNCHANGED <<ch, gdue>>
               /\ UNCHANGED <<now, queue, running>>
Stop == /\ More /\ queue = 0   \* not from a callback racing with its own timer
        /\ timers' = timers \ {hasTimer} /\ hasTimer' = (IF hasTimer = -1 THEN -1 ELSE -2) /\ deadline' = 0 /\ ch' = 0
        /\ gowed' = {} /\ gmay' = <<>> /\ gdue' = FALSE
        /\ UNCHANGED <<now, queue, running>>
Poll == /\ More /\ ch' = 0 /\ UNCHANGED <<now, timers, hasTimer, deadline, queue, running, gowed, gmay, gdue>>
RunCall(d) == /\ More /\ ~running /\ now + d <= MaxTime /\ now' = now + d /\ running' = TRUE
              /\ queue' = Cardinality({t \in timers : t <= now'}) /\ timers' = {t \in timers : t > now'}
              /\ hasTimer' = IF hasTimer >= 0 /\ hasTimer <= now' THEN -2 ELSE hasTimer
              /\ gdue' = \E p \in gowed : p <= now'
              /\ UNCHANGED <<deadline, ch, gowed, gmay>>
Call == /\ running /\ queue > 0 /\ queue' = queue - 1 /\ ch' = 1
        /\ gowed' = {} /\ gdue' = FALSE /\ gmay' = Used
        /\ UNCHANGED <<now, timers, hasTimer, deadline, running, ops>>
RunRet == /\ running /\ queue = 0 /\ running' = FALSE /\ UNCHANGED <<now, timers, hasTimer, deadline, ch, queue, ops, gowed, gmay, gdue>>
Next == \/ \E t \in 0..MaxTime : Schedule(t)
        \/ Stop \/ Poll \/ Call \/ RunRet
        \/ \E d \in 0..MaxTime : RunCall(d)
Spec == Init /\ [][Next]_vars
A == INSTANCE Alarm WITH owed <- gowed, may <- gmay, token <- ch, due <- gdue
ASchedFire(t) == /\ Usable # {} /\ gmay' = Append(Used, At(t))
                 /\ ch' = 1 /\ gowed' = {At(t)} /\ gdue' = FALSE /\ UNCHANGED <<now, running>>
ANext == \/ \E t \in 0..MaxTime : ASchedFire(t)
         \/ \E t \in 0..MaxTime : A!Schedule(t)
         \/ A!Stop \/ A!Poll(ch) \/ A!Fire \/ A!RunRet
         \/ \E d \in 0..MaxTime : A!RunCall(d)
Refines == A!AInit /\ [][ANext]_(A!avars)
(* whatever is owed, a timer is armed early enough *)
Armed == ~running /\ gowed # {} => \E t \in timers : \A p \in gowed : t <= p
=============================================================================
