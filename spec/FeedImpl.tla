------------------------------ MODULE FeedImpl ------------------------------
(* The algorithm of event/feed.go: send token, inbox, case list with a shrinking active prefix, removal through  *)
(* the running Send's select. Checked to refine Feed (every behaviour is a behaviour of the abstract feed), to   *)
(* keep its case list consistent, never to deadlock, and to be live: cancels always return, and Sends return     *)
(* when receivers keep receiving. One channel per subscription.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Subs, Vals, Cap, MaxRecv, AllRecv
VARIABLES token, inbox, cases, n, got, pcS, nsent, idx, pcU, st, scall, ucall, buf, rcv, left
vars == <<token, inbox, cases, n, got, pcS, nsent, idx, pcU, st, scall, ucall, buf, rcv, left>>

SetOf(q) == {q[k] : k \in DOMAIN q}
Remove(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Find(q, s) == CHOOSE k \in DOMAIN q : q[k] = s
Swap(q, a, b) == [q EXCEPT ![a] = q[b], ![b] = q[a]]
Prefix == {cases[k] : k \in 1..n}

Init == /\ token = TRUE /\ inbox = <<>> /\ cases = <<>> /\ n = 0 /\ got = {}
        /\ pcS = [v \in Vals |-> "idle"] /\ nsent = [v \in Vals |-> 0] /\ idx = 1
        /\ pcU = [s \in Subs |-> "idle"] /\ st = [s \in Subs |-> "none"]
        /\ scall = [s \in Subs |-> 0] /\ ucall = [s \in Subs |-> 0]
        /\ buf = [s \in Subs |-> <<>>] /\ rcv = [s \in Subs |-> 0] /\ left = [s \in Subs |-> MaxRecv]

uS == <<token, cases, n, got, pcS, nsent, idx, pcU, ucall, buf, rcv, left>>
SubCall(s) == st[s] = "none" /\ st' = [st EXCEPT ![s] = "subbing"] /\ scall' = [scall EXCEPT ![s] = 1] /\ UNCHANGED <<uS, inbox>>
SubDo(s) == st[s] = "subbing" /\ st' = [st EXCEPT ![s] = "active"] /\ inbox' = Append(inbox, s) /\ UNCHANGED <<uS, scall>>
SubRet(s) == scall[s] = 1 /\ st[s] # "subbing" /\ scall' = [scall EXCEPT ![s] = 0] /\ UNCHANGED <<uS, inbox, st>>

uU == <<got, pcS, nsent, idx, scall, buf, rcv, left>>
UnsubCall(s) == st[s] = "active" /\ scall[s] = 0 /\ pcU[s] = "idle" /\ pcU' = [pcU EXCEPT ![s] = "inbox"] /\ ucall' = [ucall EXCEPT ![s] = 1]
                /\ UNCHANGED <<uU, token, inbox, cases, n, st>>
UnsubInbox(s) == /\ pcU[s] = "inbox"
                 /\ IF s \in SetOf(inbox)
                    THEN /\ inbox' = Remove(inbox, Find(inbox, s)) /\ st' = [st EXCEPT ![s] = "gone"]
                         /\ pcU' = [pcU EXCEPT ![s] = "done"]
                    ELSE /\ pcU' = [pcU EXCEPT ![s] = "sel"] /\ UNCHANGED <<inbox, st>>
                 /\ UNCHANGED <<uU, token, cases, n, ucall>>
UnsubLock(s) == /\ pcU[s] = "sel" /\ token
                /\ token' = FALSE /\ pcU' = [pcU EXCEPT ![s] = "del"]
                /\ UNCHANGED <<uU, inbox, cases, n, st, ucall>>
UnsubDel(s) == /\ pcU[s] = "del"
               /\ cases' = Remove(cases, Find(cases, s)) /\ n' = 0
               /\ token' = TRUE /\ st' = [st EXCEPT ![s] = "gone"] /\ pcU' = [pcU EXCEPT ![s] = "done"]
               /\ UNCHANGED <<uU, inbox, ucall>>
UnsubRet(s) == /\ pcU[s] = "done" /\ ucall[s] = 1 /\ ucall' = [ucall EXCEPT ![s] = 0]
               /\ UNCHANGED <<uU, token, inbox, cases, n, st, pcU>>

Room(s) == Len(buf[s]) < Cap[s] + rcv[s]
uV == <<pcU, st, scall, ucall, rcv, left>>
SendCall(v) == pcS[v] = "idle" /\ pcS' = [pcS EXCEPT ![v] = "lock"] /\ UNCHANGED <<uV, token, inbox, cases, n, got, nsent, idx, buf>>
SendLock(v) == pcS[v] = "lock" /\ token /\ token' = FALSE /\ pcS' = [pcS EXCEPT ![v] = "merge"] /\ UNCHANGED <<uV, inbox, cases, n, got, nsent, idx, buf>>
SendMerge(v) == /\ pcS[v] = "merge"
                /\ cases' = cases \o inbox /\ inbox' = <<>> /\ n' = Len(cases) + Len(inbox) /\ idx' = 1 /\ got' = {}
                /\ pcS' = [pcS EXCEPT ![v] = "try"]
                /\ UNCHANGED <<uV, token, nsent, buf>>
SendTo(v, k) == /\ buf' = [buf EXCEPT ![cases[k]] = Append(@, v)]
                /\ got' = got \cup {cases[k]}
                /\ cases' = Swap(cases, k, n) /\ n' = n - 1
                /\ nsent' = [nsent EXCEPT ![v] = @ + 1]
SendTry(v) == /\ pcS[v] = "try"
              /\ IF idx > n
                 THEN /\ pcS' = [pcS EXCEPT ![v] = IF n = 0 THEN "unlock" ELSE "select"]
                      /\ UNCHANGED <<cases, n, got, nsent, idx, buf>>
                 ELSE IF Room(cases[idx])
                 THEN SendTo(v, idx) /\ UNCHANGED <<idx, pcS>>
                 ELSE idx' = idx + 1 /\ UNCHANGED <<cases, n, got, nsent, buf, pcS>>
              /\ UNCHANGED <<uV, token, inbox>>
SendSelect(v) == /\ pcS[v] = "select"
                 /\ \E k \in 1..n : Room(cases[k]) /\ SendTo(v, k)
                 /\ idx' = 1 /\ pcS' = [pcS EXCEPT ![v] = "try"]
                 /\ UNCHANGED <<uV, token, inbox>>
SendRemove(v, s) == /\ pcS[v] = "select" /\ pcU[s] = "sel"
                    /\ LET k == Find(cases, s) IN
                       /\ cases' = Remove(cases, k)
                       /\ n' = IF k <= n THEN n - 1 ELSE n
                    /\ pcU' = [pcU EXCEPT ![s] = "done"] /\ st' = [st EXCEPT ![s] = "gone"]
                    /\ idx' = 1 /\ pcS' = [pcS EXCEPT ![v] = "try"]
                    /\ UNCHANGED <<scall, ucall, rcv, left, token, inbox, got, nsent, buf>>
SendUnlock(v) == /\ pcS[v] = "unlock" /\ token' = TRUE /\ pcS' = [pcS EXCEPT ![v] = "ret"] /\ got' = {}
                 /\ UNCHANGED <<uV, inbox, cases, n, nsent, idx, buf>>
SendRet(v) == /\ pcS[v] = "ret" /\ pcS' = [pcS EXCEPT ![v] = "end"] /\ UNCHANGED <<uV, token, inbox, cases, n, got, nsent, idx, buf>>

uR == <<token, inbox, cases, n, got, pcS, nsent, idx, pcU, st, scall, ucall>>
RecvCall(s) == /\ left[s] > 0 /\ rcv[s] = 0 /\ rcv' = [rcv EXCEPT ![s] = 1]
               /\ left' = [left EXCEPT ![s] = IF AllRecv THEN @ ELSE @ - 1] /\ UNCHANGED <<uR, buf>>
RecvRet(s) == rcv[s] > 0 /\ buf[s] # <<>> /\ rcv' = [rcv EXCEPT ![s] = 0] /\ buf' = [buf EXCEPT ![s] = Tail(@)] /\ UNCHANGED <<uR, left>>

SubStep(s) == SubDo(s) \/ SubRet(s)
UnsubStep(s) == UnsubInbox(s) \/ UnsubLock(s) \/ UnsubDel(s) \/ UnsubRet(s)
SendStep(v) == SendLock(v) \/ SendMerge(v) \/ SendTry(v) \/ SendSelect(v) \/ SendUnlock(v) \/ SendRet(v)
               \/ \E s \in Subs : SendRemove(v, s)
RecvStep(s) == RecvCall(s) \/ RecvRet(s)
Next == \/ \E s \in Subs : SubCall(s) \/ SubStep(s) \/ UnsubCall(s) \/ UnsubStep(s) \/ RecvStep(s)
        \/ \E v \in Vals : SendCall(v) \/ SendStep(v)
(* the send token and the interrupt channel are granted fairly: strong fairness on cancelling and locking *)
Fair == /\ \A s \in Subs : WF_vars(SubStep(s)) /\ SF_vars(UnsubStep(s) \/ \E v \in Vals : SendRemove(v, s)) /\ WF_vars(RecvStep(s))
        /\ \A v \in Vals : SF_vars(SendStep(v))
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == /\ n <= Len(cases) /\ Cardinality(SetOf(cases)) = Len(cases) /\ Cardinality(SetOf(inbox)) = Len(inbox)
          /\ SetOf(cases) \cap SetOf(inbox) = {}
          /\ SetOf(cases) \cup SetOf(inbox) = {s \in Subs : st[s] = "active"}
TokenOK == Cardinality({v \in Vals : pcS[v] \in {"merge", "try", "select", "unlock"}} \cup {s \in Subs : pcU[s] = "del"}) = IF token THEN 0 ELSE 1
Stuck(v) == pcS[v] = "select" /\ \A s \in Prefix : ~Room(s)
UnsubReturns == \A s \in Subs : ucall[s] = 1 ~> ucall[s] = 0
SendsReturn == \A v \in Vals : pcS[v] = "lock" ~> pcS[v] = "end"

runv == IF \E v \in Vals : pcS[v] \in {"try", "select", "unlock"} THEN CHOOSE v \in Vals : pcS[v] \in {"try", "select", "unlock"} ELSE 0
F == INSTANCE Feed WITH Chans <- Subs, CheckCount <- TRUE, CheckUnsub <- TRUE,
       chanOf <- [s \in Subs |-> s], caps <- Cap, sub <- st,
       snd <- [v \in Vals |-> CASE pcS[v] = "idle" -> "idle" [] pcS[v] \in {"lock", "merge"} -> "called"
                                [] pcS[v] \in {"try", "select", "unlock"} -> "running" [] pcS[v] = "ret" -> "done" [] OTHER -> "returned"],
       res <- nsent, run <- runv, pend <- IF runv = 0 THEN {} ELSE Prefix
FNext == \/ \E s \in Subs : F!SubCall(s) \/ F!SubEffect(s) \/ F!SubRet(s) \/ F!UnsubCall(s) \/ F!UnsubEffect(s) \/ F!UnsubRet(s, 1)
                            \/ F!Deliver(s) \/ F!RecvCall(s) \/ \E v \in Vals : F!RecvRet(s, v)
         \/ \E v \in Vals : F!SendCall(v) \/ F!SendBegin(v) \/ F!SendRet(v, nsent[v])
         \/ F!SendEnd
Refines == F!FeedInit([s \in Subs |-> s], Cap) /\ [][FNext]_(F!fvars)
=============================================================================
