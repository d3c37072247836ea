-------------------------------- MODULE Sinks --------------------------------
(* Handlers that write somewhere. A medium holds bytes (a file, a stream, any writer), or packets, or the messages of a  *)
(* system log. A pending record is written at one moment between its call and its return, whole and after everything     *)
(* written before; what a medium holds in the end is known beforehand, so that moment is determined up to stuttering.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          med,      \* handler -> medium
          pos,      \* medium -> bytes or packets accounted for
          cnt,      \* medium -> writes so far
          pend      \* pending record -> [h, text, lvl, st: "new" "ok" "failed"]
vars == <<tid, i, med, pos, cnt, pend>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
M == Traces[tid].media
Empty == [x \in {} |-> 0]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Begins(s, p, t) == p + Len(t) <= Len(s) /\ SubSeq(s, p + 1, p + Len(t)) = t
(* ---- the system log ---- *)
White == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in White THEN TrimL(Tail(s))
            ELSE IF Len(s) >= 2 /\ s[1] = 194 /\ s[2] \in {133, 160} THEN TrimL(SubSeq(s, 3, Len(s))) ELSE s
TrimR(s) == LET n == Len(s) IN
            IF n >= 1 /\ s[n] \in White THEN TrimR(SubSeq(s, 1, n - 1))
            ELSE IF n >= 2 /\ s[n - 1] = 194 /\ s[n] \in {133, 160} THEN TrimR(SubSeq(s, 1, n - 2)) ELSE s
(* levels: 0 critical 1 error 2 warning 3 information 4 debug 5 trace, which the system log does not know *)
Severity == <<2, 3, 4, 6, 7>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
(* <priority>date [host] tag[process]: text *)
Message(m, p, x) ==
  LET pri == <<60>> \o Dec(8 * m.fac + Severity[x.lvl + 1]) \o <<62>>
      t == TrimR(TrimL(x.text))
      end == <<93, 58, 32>> \o t \o <<10>>
      from == Len(p) - Len(end) IN
  /\ Begins(p, 0, pri) /\ from > Len(pri) /\ Begins(p, from, end)
  /\ \E k \in Len(pri)..from : /\ Begins(p, k, <<32>> \o m.tag \o <<91>>)
                               /\ \A j \in (k + Len(m.tag) + 3)..from : p[j] \in 48..57
(* ---- *)
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ med = Empty /\ pos = [m \in DOMAIN M |-> Len(M[m].old)] /\ cnt = [m \in DOMAIN M |-> 0] /\ pend = Empty
        /\ \A m \in DOMAIN M : M[m].kind = "bytes" => Begins(M[m].got, 0, M[m].old)
Fails(m, n) == {M[m].fails[k][2] : k \in {j \in DOMAIN M[m].fails : M[m].fails[j][1] = n}}
Min(a, b) == IF a < b THEN a ELSE b
Write(o) ==
  LET x == pend[o] m == med[x.h] n == cnt[m] + 1 F == Fails(m, n)
      done(st, k) == pend' = [pend EXCEPT ![o].st = st] /\ pos' = [pos EXCEPT ![m] = @ + k] /\ cnt' = [cnt EXCEPT ![m] = n] IN
  /\ x.st = "new" /\ UNCHANGED med
  /\ CASE M[m].kind = "bytes" ->
            LET part == IF F = {} THEN x.text ELSE SubSeq(x.text, 1, Min(Len(x.text), CHOOSE c \in F : TRUE)) IN
            Begins(M[m].got, pos[m], part) /\ done(IF F = {} THEN "ok" ELSE "failed", Len(part))
       [] M[m].kind = "packets" -> pos[m] < Len(M[m].packs) /\ M[m].packs[pos[m] + 1] = x.text /\ done("ok", 1)
       [] M[m].kind = "syslog" -> IF x.lvl = 5 THEN done("ok", 0)
                                  ELSE pos[m] < Len(M[m].packs) /\ Message(M[m], M[m].packs[pos[m] + 1], x) /\ done("ok", 1)
Step(e) ==
  \/ /\ e.e = "Open" /\ e.res = (IF e.bad = 0 THEN "ok" ELSE IF e.must = 1 THEN "panic" ELSE "err")
     /\ med' = (IF e.bad = 0 THEN Put(med, e.h, e.m) ELSE med) /\ UNCHANGED <<pos, cnt, pend>>
  \/ /\ e.e = "LogCall" /\ pend' = Put(pend, e.o, [h |-> e.h, text |-> e.text, lvl |-> e.lvl, st |-> "new"]) /\ UNCHANGED <<med, pos, cnt>>
  \/ /\ e.e = "LogRet" /\ pend[e.o].st = (IF e.ok = 1 THEN "ok" ELSE IF e.ok = 0 THEN "failed" ELSE "crash")
     /\ pend' = Del(pend, {e.o}) /\ UNCHANGED <<med, pos, cnt>>
End == /\ i = Len(Ev) + 1
       /\ Len(Ev) = Traces[tid].len => \A m \in DOMAIN M :
                              /\ pos[m] = (IF M[m].kind = "bytes" THEN Len(M[m].got) ELSE Len(M[m].packs))
                              /\ M[m].perm = M[m].mode
Accept == End /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<med, pos, cnt, pend>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ \E o \in DOMAIN pend : Write(o) /\ i' = i
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
