-------------------------------- MODULE Notify -------------------------------
(* Subscriptions at the server: notifications are kept until the subscription's identifier is known to the client (the   *)
(* activation), then written in order, each once; a subscription ends when it is cancelled or the connection ends.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          id,       \* per subscription: its identifier, <<>> before it exists
          reg,      \* "no" "calling" "live" "ended"
          how,      \* its end: "" "unsub" "close"
          seen,     \* errors seen: 0 none, 1 a value, 2 closed
          act,      \* activation: "no" "calling" "yes" "failed"
          ops,      \* notification -> [s, before: those that had returned, st: "calling" "kept" "failed", w: "no" "ok" "failed"]
          uns,      \* pending cancel -> [s, res: -1 before its effect]
          run,      \* running procedures
          clo       \* closing: 0 no, 1 called, 2 done
vars == <<tid, i, id, reg, how, seen, act, ops, uns, run, clo>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
T == Traces[tid]
Ev == T.ev
Subs == 1..T.n
Empty == [x \in {} |-> 0]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ run = 0 /\ clo = 0 /\ ops = Empty /\ uns = Empty
        /\ LET S == 1..Traces[tid].n IN
           /\ id = [s \in S |-> <<>>] /\ reg = [s \in S |-> "no"] /\ how = [s \in S |-> ""] /\ seen = [s \in S |-> 0] /\ act = [s \in S |-> "no"]
(* ---- texts ---- *)
HexDigit == (48..57) \cup (97..102)
IsId(t) == /\ Len(t) \in 3..34 /\ t[1] = 48 /\ t[2] = 120 /\ (\A k \in 3..Len(t) : t[k] \in HexDigit) /\ (Len(t) > 3 => t[3] # 48)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
(* {"jsonrpc":"2.0","method":"ns *)
DocA == <<123,34,106,115,111,110,114,112,99,34,58,34,50,46,48,34,44,34,109,101,116,104,111,100,34,58,34,110,115>>
(* _subscription","params":{"result": *)
DocB == <<95,115,117,98,115,99,114,105,112,116,105,111,110,34,44,34,112,97,114,97,109,115,34,58,123,34,114,101,115,117,108,116,34,58>>
(* ,"subscription":" *)
DocC == <<44,34,115,117,98,115,99,114,105,112,116,105,111,110,34,58,34>>
DocD == <<34,125,125>>
Doc(s, o) == DocA \o Dec(s) \o DocB \o Dec(o) \o DocC \o id[s] \o DocD
(* ---- *)
Of(s) == {o \in DOMAIN ops : ops[o].s = s}
Written(o) == ops[o].w # "no"
UnsubEffect(o) == /\ uns[o].res = -1
                  /\ LET s == uns[o].s IN
                     IF reg[s] = "live" THEN /\ reg' = [reg EXCEPT ![s] = "ended"] /\ how' = [how EXCEPT ![s] = "unsub"] /\ uns' = [uns EXCEPT ![o].res = 1]
                                        ELSE uns' = [uns EXCEPT ![o].res = 0] /\ UNCHANGED <<reg, how>>
                  /\ UNCHANGED <<id, seen, act, ops, run, clo>>
RegEffect(s) == reg[s] = "calling" /\ reg' = [reg EXCEPT ![s] = "live"] /\ UNCHANGED <<id, how, seen, act, ops, uns, run, clo>>
CloseEffect == /\ clo = 1 /\ run = 0 /\ clo' = 2
               /\ reg' = [s \in Subs |-> IF reg[s] = "live" THEN "ended" ELSE reg[s]]
               /\ how' = [s \in Subs |-> IF reg[s] = "live" THEN "close" ELSE how[s]]
               /\ UNCHANGED <<id, seen, act, ops, uns, run>>
Write(e, o) ==
  LET s == ops[o].s x == ops[o] IN
  /\ e.doc = Doc(s, o) /\ e.err = 0
  /\ x.w = "no" /\ (\A b \in x.before : Written(b))
  /\ \/ act[s] = "calling"
     \/ act[s] = "yes" /\ x.st = "calling"
  /\ IF e.ok = 1 THEN ops' = [ops EXCEPT ![o].w = "ok"] /\ UNCHANGED act
     ELSE \/ /\ act[s] = "calling" /\ act' = [act EXCEPT ![s] = "failed"] /\ ops' = [ops EXCEPT ![o].w = "kept"]
          \/ /\ x.st = "calling" /\ ops' = [ops EXCEPT ![o].w = "failed"] /\ UNCHANGED act
Step(e) ==
  \/ /\ e.e = "Start" /\ run' = run + 1 /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, clo>>
  \/ /\ e.e = "Create" /\ id[e.s] = <<>> /\ IsId(e.id) /\ (\A s \in Subs : id[s] # e.id) /\ id' = [id EXCEPT ![e.s] = e.id]
     /\ UNCHANGED <<reg, how, seen, act, ops, uns, run, clo>>
  \/ /\ e.e = "Misuse" /\ e.res = (IF e.what = "notify with what cannot be marshalled" THEN 0 ELSE 2)
     /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run, clo>>
  \/ /\ e.e = "NCall" /\ ops' = Put(ops, e.o, [s |-> e.s, before |-> {o \in Of(e.s) : ops[o].st = "kept"}, st |-> "calling", w |-> "no"])
     /\ UNCHANGED <<id, reg, how, seen, act, uns, run, clo>>
  (* a notification that succeeds has been written or kept; it is kept only before the end of the activation *)
  \/ /\ e.e = "NRet"
     /\ LET x == ops[e.o] IN
        IF e.ok = 1 THEN (x.w \in {"ok", "kept"} \/ (x.w = "no" /\ act[x.s] # "yes")) ELSE e.ok = 0 /\ x.w = "failed"
     /\ ops' = [ops EXCEPT ![e.o].st = IF e.ok = 1 THEN "kept" ELSE "failed"] /\ UNCHANGED <<id, reg, how, seen, act, uns, run, clo>>
  \/ /\ e.e = "RCall" /\ reg' = [reg EXCEPT ![e.s] = "calling"] /\ UNCHANGED <<id, how, seen, act, ops, uns, run, clo>>
  \/ /\ e.e = "RRet" /\ reg[e.s] \in {"live", "ended"} /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run, clo>>
  \/ /\ e.e = "ACall" /\ act' = [act EXCEPT ![e.s] = "calling"] /\ UNCHANGED <<id, reg, how, seen, ops, uns, run, clo>>
  \/ /\ e.e = "ARet"
     /\ IF e.ok = 1 THEN act[e.s] = "calling" /\ (\A o \in Of(e.s) : ops[o].st = "kept" => Written(o)) /\ act' = [act EXCEPT ![e.s] = "yes"]
                    ELSE e.ok = 0 /\ act[e.s] = "failed" /\ UNCHANGED act
     /\ UNCHANGED <<id, reg, how, seen, ops, uns, run, clo>>
  \/ /\ e.e = "Stop" /\ e.ctx = 1 /\ run' = run - 1 /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, clo>>
  \/ /\ e.e = "UCall" /\ uns' = Put(uns, e.o, [s |-> e.s, res |-> -1]) /\ UNCHANGED <<id, reg, how, seen, act, ops, run, clo>>
  \/ /\ e.e = "URet" /\ uns[e.o].res = e.res /\ uns' = Del(uns, e.o) /\ UNCHANGED <<id, reg, how, seen, act, ops, run, clo>>
  \/ /\ e.e = "CCall" /\ clo' = 1 /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run>>
  \/ /\ e.e = "CRet" /\ clo = 2 /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run, clo>>
  \/ /\ e.e = "ErrRecv"
     /\ IF e.v = "closed" THEN seen[e.s] = (IF how[e.s] = "close" THEN 1 ELSE 0) /\ how[e.s] # "" /\ seen' = [seen EXCEPT ![e.s] = 2]
                          ELSE how[e.s] = "close" /\ seen[e.s] = 0 /\ e.v = "planned" /\ seen' = [seen EXCEPT ![e.s] = 1]
     /\ UNCHANGED <<id, reg, how, act, ops, uns, run, clo>>
  \/ /\ e.e = "W" /\ (\E o \in DOMAIN ops : Write(e, o)) /\ UNCHANGED <<id, reg, how, seen, uns, run, clo>>
  \/ /\ e.e = "Quiet" /\ run = 0 /\ DOMAIN uns = {} /\ (\A s \in Subs : how[s] # "" => seen[s] = 2)
     /\ (clo = 2 => \A s \in Subs : reg[s] # "live") /\ (\A o \in DOMAIN ops : ops[o].st # "calling")
     /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run, clo>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<id, reg, how, seen, act, ops, uns, run, clo>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ /\ i' = i /\ (CloseEffect \/ (\E o \in DOMAIN uns : UnsubEffect(o)) \/ \E s \in Subs : RegEffect(s))
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
