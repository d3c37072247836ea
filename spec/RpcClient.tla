------------------------------ MODULE RpcClient ------------------------------
(* Subscriptions and requests at the client: values are forwarded in order, each once, from the server's answer on until  *)
(* the subscription ends; it ends by Unsubscribe, by a value that does not fit, or with the connection. A message is       *)
(* handled between its announcement (Resp, Deliver, Answer, Other) and MRet.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          st,       \* per subscription: "waiting" "run" "over" "refused"
          why,      \* its end: "" "unsub" "unfit" "lost" "quit"
          q,        \* values on the way to the subscriber
          left,     \* of those, how many may still arrive after the end
          opv,      \* the request's outcome: "" unknown, "-" seen
          us,       \* pending Unsubscribe calls
          uone,     \* has been called
          srv,      \* the server: 0 not asked, 1 being asked, 2 has answered
          seen,     \* errors seen: 0 none, 1 a value, 2 closed
          cur,      \* a value being delivered: <<s, v, bad>> or <<>>
          ret,      \* what the message's handling has to return
          wait, got, over,  \* per plain request: ids not answered, answers on the way, "" or how it is ended, "-" seen
          clo       \* "" or the close error, "done"
sub == <<st, why, q, left, opv, us, uone, srv, seen>>
req == <<wait, got, over>>
vars == <<tid, i, st, why, q, left, opv, us, uone, srv, seen, cur, ret, wait, got, over, clo>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Subs == 1..T.n
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ cur = <<>> /\ ret = 1 /\ wait = <<>> /\ got = <<>> /\ over = <<>> /\ clo = ""
        /\ LET S == 1..Traces[tid].n IN
           /\ st = [s \in S |-> "waiting"] /\ why = [s \in S |-> ""] /\ q = [s \in S |-> <<>>] /\ left = [s \in S |-> 0]
           /\ opv = [s \in S |-> ""] /\ us = [s \in S |-> 0] /\ uone = [s \in S |-> FALSE] /\ srv = [s \in S |-> 0] /\ seen = [s \in S |-> 0]
Text(v) == IF v = "quit" THEN "client is closed" ELSE v
(* ---- effects ---- *)
End(s, w) == /\ st' = [st EXCEPT ![s] = "over"] /\ why' = [why EXCEPT ![s] = w] /\ left' = [left EXCEPT ![s] = T.caps[s] + 1]
Take == /\ cur # <<>> /\ cur' = <<>> /\ UNCHANGED <<opv, us, uone, srv, seen, ret, req, clo>>
        /\ LET s == cur[1] IN
           IF s \notin Subs \/ st[s] # "run" THEN UNCHANGED <<st, why, q, left>>
           ELSE IF cur[3] = 1 THEN End(s, "unfit") /\ UNCHANGED q
           ELSE q' = [q EXCEPT ![s] = Append(@, cur[2])] /\ UNCHANGED <<st, why, left>>
Unsub(s) == us[s] > 0 /\ st[s] = "run" /\ End(s, "unsub") /\ UNCHANGED <<q, opv, us, uone, srv, seen, cur, ret, req, clo>>
Closing(s) == clo \notin {"", "done"} /\ st[s] = "run" /\ End(s, clo) /\ UNCHANGED <<q, opv, us, uone, srv, seen, cur, ret, req, clo>>
(* ---- events ---- *)
Value(s) == CASE why[s] = "unfit" -> "unfit" [] why[s] = "lost" -> "lost" [] why[s] = "quit" -> "nil" [] OTHER -> "none"
Asks(s) == why[s] \in {"unsub", "unfit"}
Step(e) ==
  \/ /\ e.e = "Resp" /\ st[e.s] = "waiting" /\ st' = [st EXCEPT ![e.s] = IF e.v = "nil" THEN "run" ELSE "refused"] /\ opv' = [opv EXCEPT ![e.s] = e.v]
     /\ ret' = 1 /\ UNCHANGED <<why, q, left, us, uone, srv, seen, cur, req, clo>>
  \/ /\ e.e = "OpEnd" /\ opv[e.s] = e.v /\ opv' = [opv EXCEPT ![e.s] = "-"] /\ UNCHANGED <<st, why, q, left, us, uone, srv, seen, cur, ret, req, clo>>
  \/ /\ e.e = "Deliver" /\ cur' = <<e.s, e.v, e.bad>> /\ ret' = 1 /\ UNCHANGED <<sub, req, clo>>
  \/ /\ e.e = "Other" /\ ret' = e.takes /\ UNCHANGED <<sub, cur, req, clo>>
  \/ /\ e.e = "MRet" /\ cur = <<>> /\ e.ret = ret /\ UNCHANGED <<sub, cur, ret, req, clo>>
  \/ /\ e.e = "Recv" /\ q[e.s] # <<>> /\ Head(q[e.s]) = e.v /\ q' = [q EXCEPT ![e.s] = Tail(@)]
     /\ (st[e.s] = "run" \/ left[e.s] > 0) /\ left' = [left EXCEPT ![e.s] = IF @ > 0 THEN @ - 1 ELSE 0]
     /\ UNCHANGED <<st, why, opv, us, uone, srv, seen, cur, ret, req, clo>>
  \/ /\ e.e = "UCall" /\ us' = [us EXCEPT ![e.s] = @ + 1] /\ uone' = [uone EXCEPT ![e.s] = TRUE]
     /\ UNCHANGED <<st, why, q, left, opv, srv, seen, cur, ret, req, clo>>
  \/ /\ e.e = "URet" /\ st[e.s] = "over" /\ (Asks(e.s) => srv[e.s] = 2) /\ us' = [us EXCEPT ![e.s] = @ - 1]
     /\ UNCHANGED <<st, why, q, left, opv, uone, srv, seen, cur, ret, req, clo>>
  \/ /\ e.e = "ServerUnsub" /\ st[e.s] = "over" /\ Asks(e.s) /\ srv[e.s] = 0 /\ srv' = [srv EXCEPT ![e.s] = 1]
     /\ UNCHANGED <<st, why, q, left, opv, us, uone, seen, cur, ret, req, clo>>
  \/ /\ e.e = "ServerDone" /\ srv' = [srv EXCEPT ![e.s] = 2] /\ UNCHANGED <<st, why, q, left, opv, us, uone, seen, cur, ret, req, clo>>
  \/ /\ e.e = "ErrRecv" /\ st[e.s] = "over" /\ (Asks(e.s) => srv[e.s] = 2)
     /\ IF e.v = "closed" THEN uone[e.s] /\ seen[e.s] = (IF why[e.s] = "unsub" THEN 0 ELSE 1) /\ seen' = [seen EXCEPT ![e.s] = 2]
                          ELSE e.v = Value(e.s) /\ seen[e.s] = 0 /\ seen' = [seen EXCEPT ![e.s] = 1]
     /\ UNCHANGED <<st, why, q, left, opv, us, uone, srv, cur, ret, req, clo>>
  (* plain requests *)
  \/ /\ e.e = "Add" /\ wait' = Append(wait, {e.ids[k] : k \in DOMAIN e.ids}) /\ got' = Append(got, <<>>) /\ over' = Append(over, "")
     /\ UNCHANGED <<sub, cur, ret, clo>>
  \/ /\ e.e = "Answer" /\ ret' = 1
     /\ LET P == {p \in DOMAIN wait : e.n \in wait[p]} IN
        IF P = {} THEN UNCHANGED <<wait, got>>
        ELSE LET p == CHOOSE p \in P : TRUE IN
             /\ wait' = [wait EXCEPT ![p] = @ \ {e.n}] /\ got' = [got EXCEPT ![p] = Append(@, e.id)]
     /\ UNCHANGED <<sub, cur, over, clo>>
  \/ /\ e.e = "Got" /\ got[e.p] # <<>> /\ Head(got[e.p]) = e.id /\ got' = [got EXCEPT ![e.p] = Tail(@)] /\ UNCHANGED <<sub, cur, ret, wait, over, clo>>
  \/ /\ e.e = "Over" /\ got[e.p] = <<>> /\ over[e.p] = e.v /\ over' = [over EXCEPT ![e.p] = "-"] /\ UNCHANGED <<sub, cur, ret, wait, got, clo>>
  \/ /\ e.e = "Remove" /\ wait' = [wait EXCEPT ![e.p] = {}] /\ UNCHANGED <<sub, cur, ret, got, over, clo>>
  \/ /\ e.e = "CCall" /\ clo' = e.v
     /\ over' = [p \in DOMAIN over |-> IF wait[p] # {} /\ p # e.p THEN Text(e.v) ELSE over[p]]
     /\ wait' = [p \in DOMAIN wait |-> {}]
     /\ st' = [s \in Subs |-> IF st[s] = "waiting" THEN "refused" ELSE st[s]]
     /\ opv' = [s \in Subs |-> IF st[s] = "waiting" THEN Text(e.v) ELSE opv[s]]
     /\ UNCHANGED <<why, q, left, us, uone, srv, seen, cur, ret, got>>
  \/ /\ e.e = "CRet" /\ (\A s \in Subs : st[s] \in {"over", "refused"}) /\ clo' = "done" /\ UNCHANGED <<sub, cur, ret, req>>
  \/ /\ e.e = "Quiet" /\ cur = <<>>
     /\ \A s \in Subs : /\ us[s] = 0 /\ opv[s] = "-" /\ st[s] # "waiting"
                        /\ (st[s] = "run" => q[s] = <<>>)
                        /\ (st[s] = "over" => seen[s] >= (IF why[s] = "unsub" THEN 0 ELSE 1))
                        /\ (uone[s] => seen[s] = 2) /\ (Asks(s) => srv[s] = 2)
     /\ \A p \in DOMAIN got : got[p] = <<>> /\ over[p] \in {"", "-"}
     /\ UNCHANGED <<sub, cur, ret, req, clo>>
  \/ /\ e.e = "End" /\ UNCHANGED <<sub, cur, ret, req, clo>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<sub, cur, ret, req, clo>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ i' = i /\ (Take \/ \E s \in Subs : Unsub(s) \/ Closing(s))
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
