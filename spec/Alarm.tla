------------------------------- MODULE Alarm -------------------------------
(* What an alarm promises, abstracted from how it uses timers. owed: times scheduled since the channel last became *)
(* readable; may: times scheduled since the last Stop and not used up by a firing.                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES now, owed, may, token, due, running
avars == <<now, owed, may, token, due, running>>
AInit == now = 0 /\ owed = {} /\ may = <<>> /\ token = 0 /\ due = FALSE /\ running = FALSE
At(t) == IF t < now THEN now ELSE t
Schedule(t) == /\ owed' = owed \cup {At(t)} /\ may' = Append(may, At(t)) /\ UNCHANGED <<now, token, due, running>>
Stop == /\ owed' = {} /\ may' = <<>> /\ token' = 0 /\ due' = FALSE /\ UNCHANGED <<now, running>>
Poll(n) == /\ n = token /\ token' = 0 /\ UNCHANGED <<now, owed, may, due, running>>
RunCall(d) == /\ ~running /\ running' = TRUE /\ now' = now + d
              /\ due' = \E p \in owed : p <= now'
              /\ UNCHANGED <<owed, may, token>>
(* the channel becomes (or stays) readable *)
Usable == {k \in DOMAIN may : may[k] <= now}
Drop(k) == [j \in 1..Len(may) - 1 |-> IF j < k THEN may[j] ELSE may[j + 1]]
Fire == /\ Usable # {}
        /\ token' = 1 /\ owed' = {} /\ due' = FALSE
        /\ may' = Drop(CHOOSE k \in Usable : \A j \in Usable : k <= j)  \* those not later than now are all alike
        /\ UNCHANGED <<now, running>>
RunRet == /\ running /\ ~due /\ running' = FALSE /\ UNCHANGED <<now, owed, may, token, due>>
=============================================================================
