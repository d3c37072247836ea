----------------------------- MODULE TypeMuxImpl -----------------------------
(* The algorithm of the event multiplexer with its locks: posters deliver under a subscription's read lock, closing a      *)
(* subscription (by its user or by Stop, which holds the multiplexer's lock meanwhile) waits for the deliveries to end.    *)
(* Checked: nothing is sent on a closed channel, nothing is delivered once Unsubscribe or Stop has returned, every closed  *)
(* subscription ends up closed, and everybody returns even if nobody reads.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Subs, Posters, Late   \* Late: the subscriptions that subscribe later
VARIABLES reg, stopped, mm,     \* the table, its state and the holder of its lock ("" : free)
          closing, closed, chc, \* per subscription: signal, flag and channel
          cm, rd, wr,           \* closeMu, readers and writer of postMu
          pc, todo, up, sp, spx, lp, got
vars == <<reg, stopped, mm, closing, closed, chc, cm, rd, wr, pc, todo, up, sp, spx, lp, got>>
Init == /\ reg = Subs \ Late /\ stopped = FALSE /\ mm = "" /\ closing = [s \in Subs |-> FALSE] /\ closed = closing /\ chc = closing
        /\ cm = [s \in Subs |-> ""] /\ rd = [s \in Subs |-> {}] /\ wr = [s \in Subs |-> ""]
        /\ pc = [p \in Posters |-> "new"] /\ todo = [p \in Posters |-> {}] /\ up = [s \in Subs |-> IF s \in Late THEN "none" ELSE "live"]
        /\ sp = "live" /\ spx = 0 /\ lp = {} /\ got = [s \in Subs |-> 0]
Base == <<reg, stopped, mm>>
Flags == <<closing, closed, chc, cm, wr>>
Users == <<up>>
Stopper == <<sp, spx, lp>>
(* posting *)
Post(p) == /\ pc[p] = "new" /\ mm = "" /\ IF stopped THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED todo
                                         ELSE pc' = [pc EXCEPT ![p] = "loop"] /\ todo' = [todo EXCEPT ![p] = reg]
           /\ UNCHANGED <<Base, Flags, rd, Users, Stopper, got>>
Enter(p) == \/ /\ pc[p] = "loop" /\ todo[p] = {} /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<Base, Flags, rd, todo, Users, Stopper, got>>
            \/ /\ pc[p] = "loop" /\ \E s \in todo[p] : wr[s] = "" /\ rd' = [rd EXCEPT ![s] = @ \cup {p}] /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
               /\ pc' = [pc EXCEPT ![p] = "in"] /\ UNCHANGED <<Base, Flags, Users, Stopper, got>>
At(p) == CHOOSE s \in Subs : p \in rd[s]
Leave(p, n) == /\ rd' = [rd EXCEPT ![At(p)] = @ \ {p}] /\ pc' = [pc EXCEPT ![p] = "loop"] /\ got' = [got EXCEPT ![At(p)] = @ + n]
               /\ UNCHANGED <<Base, Flags, todo, Users, Stopper>>
Take(p) == pc[p] = "in" /\ ~chc[At(p)] /\ Leave(p, 1)        \* somebody reads
GiveUp(p) == pc[p] = "in" /\ closing[At(p)] /\ Leave(p, 0)
(* closing a subscription: x is who does it, st where it is, to(v) moves it *)
Close1(x, s, to(_)) == /\ cm[s] = ""
                       /\ IF closed[s] THEN to("end") /\ UNCHANGED <<closing, closed, cm, chc, wr>>
                          ELSE closing' = [closing EXCEPT ![s] = TRUE] /\ closed' = [closed EXCEPT ![s] = TRUE] /\ cm' = [cm EXCEPT ![s] = x] /\ to("want") /\ UNCHANGED <<chc, wr>>
Close2(x, s, to(_)) == wr[s] = "" /\ wr' = [wr EXCEPT ![s] = x] /\ to("lock") /\ UNCHANGED <<closing, closed, cm, chc>>
Close3(x, s, to(_)) == wr[s] = x /\ rd[s] = {} /\ chc' = [chc EXCEPT ![s] = TRUE] /\ wr' = [wr EXCEPT ![s] = ""] /\ cm' = [cm EXCEPT ![s] = ""] /\ to("end") /\ UNCHANGED <<closing, closed>>
CloseStep(x, s, at, to(_)) == (at = "close" /\ Close1(x, s, to)) \/ (at = "want" /\ Close2(x, s, to)) \/ (at = "lock" /\ Close3(x, s, to))
Unsub(s) == \/ /\ up[s] = "live" /\ up' = [up EXCEPT ![s] = "close"] /\ UNCHANGED <<Base, Flags, rd, pc, todo, Stopper, got>>
            \/ LET to(v) == up' = [up EXCEPT ![s] = v] IN CloseStep("user", s, up[s], to) /\ UNCHANGED <<Base, rd, pc, todo, Stopper, got>>
            \/ /\ up[s] = "end" /\ mm = "" /\ reg' = reg \ {s} /\ up' = [up EXCEPT ![s] = "done"] /\ UNCHANGED <<stopped, mm, Flags, rd, pc, todo, Stopper, got>>
Subscribe(s) == /\ up[s] = "none" /\ mm = "" /\ up' = [up EXCEPT ![s] = "live"]
                /\ IF stopped THEN closed' = [closed EXCEPT ![s] = TRUE] /\ chc' = [chc EXCEPT ![s] = TRUE] /\ UNCHANGED reg
                   ELSE reg' = reg \cup {s} /\ UNCHANGED <<closed, chc>>
                /\ UNCHANGED <<stopped, mm, closing, cm, wr, rd, pc, todo, Stopper, got>>
Stop == \/ /\ sp = "live" /\ mm = "" /\ mm' = "stop" /\ lp' = reg /\ sp' = "next" /\ UNCHANGED <<reg, stopped, Flags, rd, pc, todo, Users, spx, got>>
        \/ /\ sp = "next" /\ lp # {} /\ \E s \in lp : spx' = s /\ lp' = lp \ {s} /\ sp' = "close" /\ UNCHANGED <<Base, Flags, rd, pc, todo, Users, got>>
        \/ LET to(v) == sp' = (IF v = "end" THEN "next" ELSE v) IN sp \in {"close", "want", "lock"} /\ CloseStep("stop", spx, sp, to) /\ UNCHANGED <<Base, rd, pc, todo, Users, spx, lp, got>>
        \/ /\ sp = "next" /\ lp = {} /\ reg' = {} /\ stopped' = TRUE /\ mm' = "" /\ sp' = "done" /\ UNCHANGED <<Flags, rd, pc, todo, Users, spx, lp, got>>
Begin(s) == up[s] = "live" /\ Unsub(s)
Next == (\E p \in Posters : Post(p) \/ Enter(p) \/ Take(p) \/ GiveUp(p)) \/ (\E s \in Subs : Unsub(s) \/ Subscribe(s)) \/ Stop
(* nobody has to read, to post or to cancel first; the multiplexer is stopped in the end *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Stop) /\ (\A p \in Posters : WF_vars(Enter(p)) /\ WF_vars(GiveUp(p)))
             /\ (\A s \in Subs : WF_vars(up[s] # "live" /\ Unsub(s)))
NoPanic == \A s \in Subs : chc[s] => rd[s] = {} \/ closing[s]
Quiet == \A s \in Subs : (up[s] = "done" \/ (stopped /\ up[s] # "none")) => chc[s]
Gone == \A s \in Subs : up[s] = "done" => s \notin reg
StopReturns == <>(sp = "done")
PostReturns == \A p \in Posters : (pc[p] = "loop") ~> (pc[p] = "done")
UnsubReturns == \A s \in Subs : (up[s] = "close") ~> (up[s] = "done")
NoLateDelivery == [][\A s \in Subs : (up[s] = "done" \/ stopped) => got'[s] = got[s]]_vars
=============================================================================
