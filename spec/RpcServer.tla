------------------------------ MODULE RpcServer ------------------------------
(* The life of an RPC server: while it runs it tracks connections and serves requests; stopping closes each tracked      *)
(* connection once, and from then on nothing is tracked or served. The first call of Stop does it, later ones nothing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          run,
          tracked,
          owed,     \* to be closed by the Stop call
          by,       \* the Stop call that stops, 0: none
          ops,      \* pending call -> [k: kind, c: connection, st: "new", "done", "no", "read", "written"]
          cc        \* closing a client's connection: 0 no, 1 running, 2 its codec is closed;  procs running
vars == <<tid, i, run, tracked, owed, by, ops, cc>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
Empty == [x \in {} |-> 0]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == tid \in DOMAIN Traces /\ i = 1 /\ run = TRUE /\ tracked = {} /\ owed = {} /\ by = 0 /\ ops = Empty /\ cc = [st |-> 0, procs |-> 0]
Set(o, v) == ops' = [ops EXCEPT ![o].st = v]
Effect(o) ==
  LET x == ops[o] IN
  /\ x.st = "new" /\ UNCHANGED cc
  /\ CASE x.k = "T" -> (IF run THEN tracked' = tracked \cup {x.c} /\ Set(o, "done") ELSE UNCHANGED tracked /\ Set(o, "no")) /\ UNCHANGED <<run, owed, by>>
       [] x.k = "U" -> tracked' = tracked \ {x.c} /\ Set(o, "done") /\ UNCHANGED <<run, owed, by>>
       [] x.k = "S" -> /\ Set(o, "done") /\ UNCHANGED tracked
                       /\ IF run THEN run' = FALSE /\ owed' = tracked /\ by' = o ELSE UNCHANGED <<run, owed, by>>
       [] x.k = "Q" -> Set(o, IF run THEN "done" ELSE "no") /\ UNCHANGED <<run, tracked, owed, by>>
(* {"error":{"code":-32700,"message":"parse error"},"id":null,"jsonrpc":"2.0"} *)
ParseError == <<123,34,101,114,114,111,114,34,58,123,34,99,111,100,101,34,58,45,51,50,55,48,48,44,34,109,101,115,115,97,103,101,34,58,34,112,97,114,115,101,32,101,114,114,111,114,34,125,44,34,105,100,34,58,110,117,108,108,44,34,106,115,111,110,114,112,99,34,58,34,50,46,48,34,125>>
New(k, c) == [k |-> k, c |-> c, st |-> "new"]
Rest == UNCHANGED <<run, tracked, by, cc>>
Step(e) ==
  \/ /\ e.e = "TCall" /\ ops' = Put(ops, e.o, New("T", e.c)) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "UCall" /\ ops' = Put(ops, e.o, New("U", e.c)) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "SCall" /\ ops' = Put(ops, e.o, New("S", 0)) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "QCall" /\ ops' = Put(ops, e.o, New("Q", e.kind)) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "TRet" /\ ops[e.o].st = (IF e.ok = 1 THEN "done" ELSE "no") /\ ops' = Del(ops, e.o) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "URet" /\ ops[e.o].st = "done" /\ ops' = Del(ops, e.o) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "SRet" /\ ops[e.o].st = "done" /\ (by = e.o => owed = {}) /\ ops' = Del(ops, e.o) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "Close" /\ e.c \in owed /\ owed' = owed \ {e.c} /\ UNCHANGED ops /\ Rest
  \/ /\ e.e = "Read" /\ ops[e.o].st = "done" /\ Set(e.o, "read") /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "W" /\ ops[e.o].st = "read" /\ ops[e.o].c # 0 /\ e.doc = ParseError /\ e.err = 1 /\ Set(e.o, "written") /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "QRet" /\ ops[e.o].st \in {"no", IF ops[e.o].c = 0 THEN "read" ELSE "written"} /\ ops' = Del(ops, e.o) /\ UNCHANGED owed /\ Rest
  \/ /\ e.e = "CCall" /\ cc' = [st |-> 1, procs |-> cc.procs + e.procs] /\ UNCHANGED <<run, tracked, owed, by, ops>>
  \/ /\ e.e = "ProcEnd" /\ cc' = [cc EXCEPT !.procs = @ - 1] /\ UNCHANGED <<run, tracked, owed, by, ops>>
  \/ /\ e.e = "CClose" /\ cc = [st |-> 1, procs |-> 0] /\ cc' = [cc EXCEPT !.st = 2] /\ UNCHANGED <<run, tracked, owed, by, ops>>
  \/ /\ e.e = "CRet" /\ cc.st = 2 /\ UNCHANGED <<run, tracked, owed, by, ops, cc>>
  \/ /\ e.e = "Quiet" /\ DOMAIN ops = {} /\ owed = {} /\ UNCHANGED <<run, tracked, owed, by, ops, cc>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<run, tracked, owed, by, ops, cc>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ i' = i /\ \E o \in DOMAIN ops : Effect(o)
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
