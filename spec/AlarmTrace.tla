----------------------------- MODULE AlarmTrace -----------------------------
(* Accepts recorded histories of the real alarm on the simulated clock.                                            *)
EXTENDS Alarm, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i
vars == <<avars, tid, i>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
Init == tid \in DOMAIN Traces /\ i = 1 /\ AInit
Step(e) == \/ e.e = "Schedule" /\ Schedule(e.t)
           \/ e.e = "Stop" /\ Stop
           \/ e.e = "Poll" /\ Poll(e.n)
           \/ e.e = "RunCall" /\ RunCall(e.d)
           \/ e.e = "RunRet" /\ RunRet
Accept == i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED avars
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ Fire /\ i' = i
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
