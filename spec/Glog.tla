-------------------------------- MODULE Glog --------------------------------
(* The glog-style filter: a global verbosity, an ordered list of per-file rules parsed from a text, and a call site *)
(* at which stacks are dumped. Text is a sequence of byte codes.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          level, rules, loc, leaf,
          conf,     \* pending configuration call -> [k, v, st]: st "todo" / "done"
          pend      \* pending log call -> [s, lvl, line, st, raised]
vars == <<tid, i, level, rules, loc, leaf, conf, pend>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
Sites == Traces[tid].sites
Empty == [x \in {} |-> 0]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
----------------------------------------------------------------------------
(* text *)
Min(S) == CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE Split(_, _)
Split(s, c) == LET S == {k \in DOMAIN s : s[k] = c} IN
               IF S = {} THEN <<s>> ELSE <<SubSeq(s, 1, Min(S) - 1)>> \o Split(SubSeq(s, Min(S) + 1, Len(s)), c)
RECURSIVE Trim(_)
Blank == {32, 9, 10, 11, 12, 13}
Trim(s) == IF s = <<>> THEN s ELSE IF s[1] \in Blank THEN Trim(Tail(s))
           ELSE IF s[Len(s)] \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digits(s) == s # <<>> /\ \A k \in DOMAIN s : s[k] \in 48..57
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsInt(s) == Digits(Unsigned(s))
RECURSIVE Val(_, _)
Val(s, acc) == IF s = <<>> THEN acc ELSE Val(Tail(s), 10 * acc + s[1] - 48)
IntOf(s) == IF s[1] = 45 THEN 0 - Val(Tail(s), 0) ELSE Val(Unsigned(s), 0)
DotGo == <<46, 103, 111>>
EndsGo(s) == Len(s) >= 3 /\ SubSeq(s, Len(s) - 2, Len(s)) = DotGo
----------------------------------------------------------------------------
(* rules: [pat: components, go: ends in .go, lvl] *)
Bad == [pat |-> <<>>, go |-> FALSE, lvl |-> -99999]
ParseRule(s) == LET p == Split(s, 61) IN
  IF Len(p) # 2 THEN Bad
  ELSE LET a == Trim(p[1]) b == Trim(p[2]) IN
       IF a = <<>> \/ b = <<>> THEN Bad
       ELSE IF ~IsInt(b) THEN Bad
       ELSE [pat |-> SelectSeq(Split(a, 47), LAMBDA c : c # <<>>), go |-> EndsGo(a), lvl |-> IntOf(b)]
ParsedParts(s) == LET parts == SelectSeq(Split(s, 44), LAMBDA c : c # <<>>) IN [k \in DOMAIN parts |-> ParseRule(parts[k])]
RulesOk(ps) == \A k \in DOMAIN ps : ps[k] # Bad
RulesOf(ps) == SelectSeq(ps, LAMBDA r : r.lvl > 0)  \* rules of level 0 and below are documented to be ignored
LocOk(s) == LET p == Split(s, 58) IN Len(p) = 2 /\ Trim(p[1]) # <<>> /\ Trim(p[2]) # <<>> /\ EndsGo(Trim(p[1])) /\ IsInt(Trim(p[2]))
(* does the pattern's component list match all of the path's components from position k on? Directories match by    *)
(* name below any leading ones, * matches any number of directories, and a pattern that names no .go file covers    *)
(* the files of the directory                                                                                       *)
RECURSIVE From(_, _, _, _)
From(pat, path, k, go) ==
  IF pat = <<>> THEN IF go THEN k = Len(path) + 1 ELSE k = Len(path) /\ EndsGo(path[k]) /\ Len(path[k]) > 3
  ELSE IF Head(pat) = <<42>> THEN \E j \in k..Len(path) + 1 : From(Tail(pat), path, j, go)
  ELSE k <= Len(path) /\ path[k] = Head(pat) /\ From(Tail(pat), path, k + 1, go)
Matches(r, path) == \E k \in 2..Len(path) + 1 : From(r.pat, path, k, r.go)
SiteLevel(s) == LET S == {k \in DOMAIN rules : Matches(rules[k], Sites[s].path)} IN IF S = {} THEN 0 ELSE rules[Min(S)].lvl
----------------------------------------------------------------------------
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ level = 0 /\ rules = <<>> /\ loc = <<>> /\ leaf = 1 /\ conf = Empty /\ pend = Empty
State == <<level, rules, loc, leaf>>
LocOf(p) == Sites[p.s].file \o <<58>> \o p.line
Step(e) ==
  \/ /\ e.e = "VerbCall" /\ conf' = Put(conf, e.o, [k |-> "level", v |-> e.n]) /\ UNCHANGED <<State, pend>>
  \/ /\ e.e = "VmodCall" /\ LET ps == ParsedParts(e.s) IN
        conf' = Put(conf, e.o, IF RulesOk(ps) THEN [k |-> "rules", v |-> RulesOf(ps)] ELSE [k |-> "bad", v |-> 0])
     /\ UNCHANGED <<State, pend>>
  \/ /\ e.e = "BackCall" /\ conf' = Put(conf, e.o, IF LocOk(e.s) THEN [k |-> "loc", v |-> e.s] ELSE [k |-> "bad", v |-> 0])
     /\ UNCHANGED <<State, pend>>
  \/ /\ e.e = "VerbRet" /\ e.o \notin DOMAIN conf /\ UNCHANGED <<State, conf, pend>>
  \/ /\ e.e \in {"VmodRet", "BackRet"}
     /\ IF e.ok = 1 THEN e.o \notin DOMAIN conf ELSE e.o \in DOMAIN conf /\ conf[e.o].k = "bad"
     /\ conf' = Del(conf, {e.o}) /\ UNCHANGED <<State, pend>>
  \/ /\ e.e = "SetH" /\ leaf' = e.leaf /\ UNCHANGED <<level, rules, loc, conf, pend>>
  \/ /\ e.e = "LogCall" /\ pend' = Put(pend, e.o, [s |-> e.s, lvl |-> e.lvl, line |-> e.line, st |-> "loc", raised |-> 0])
     /\ UNCHANGED <<State, conf>>
  \/ /\ e.e = "Deliver" /\ e.o \in DOMAIN pend /\ pend[e.o].st = "pass" /\ pend[e.o].lvl = e.lvl /\ pend[e.o].raised = e.st
     /\ e.leaf = leaf /\ pend' = [pend EXCEPT ![e.o].st = "out"] /\ UNCHANGED <<State, conf>>
  \/ /\ e.e = "LogRet" /\ e.o \in DOMAIN pend /\ pend[e.o].st \in {"out", "drop"}
     /\ e.ret # -1 => e.ret = (IF pend[e.o].st = "out" /\ e.o % 3 = 0 THEN 1 ELSE 0)
     /\ pend' = Del(pend, {e.o}) /\ UNCHANGED <<State, conf>>
Apply(o) == /\ conf[o].k # "bad" /\ conf' = Del(conf, {o}) /\ UNCHANGED <<leaf, pend>>
            /\ level' = IF conf[o].k = "level" THEN conf[o].v ELSE level
            /\ rules' = IF conf[o].k = "rules" THEN conf[o].v ELSE rules
            /\ loc' = IF conf[o].k = "loc" THEN conf[o].v ELSE loc
(* a log call consults the location, then the verbosity, then the rules; reconfiguration may come in between *)
Consult(o) == LET p == pend[o] IN
  /\ UNCHANGED <<State, conf>>
  /\ \/ p.st = "loc" /\ pend' = [pend EXCEPT ![o] = IF loc # <<>> /\ loc = LocOf(p) THEN [p EXCEPT !.st = "level", !.lvl = 3, !.raised = 1] ELSE [p EXCEPT !.st = "level"]]
     \/ p.st = "level" /\ pend' = [pend EXCEPT ![o].st = IF p.lvl <= level THEN "pass" ELSE "rules"]
     \/ p.st = "rules" /\ pend' = [pend EXCEPT ![o].st = IF p.lvl <= SiteLevel(p.s) THEN "pass" ELSE "drop"]
Accept == i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1 /\ UNCHANGED <<State, conf, pend>>
Next == /\ TLCGet(tid) = 0 /\ tid' = tid
        /\ \/ \E o \in DOMAIN conf : Apply(o) /\ i' = i
           \/ \E o \in DOMAIN pend : Consult(o) /\ i' = i
           \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
