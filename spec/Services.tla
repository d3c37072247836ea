------------------------------- MODULE Services ------------------------------
(* A registry of services: which methods of a receiver are exposed and under which name, and what calling one does.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
Receivers == ndJsonDeserialize(IOEnv.VTYPES)
VARIABLES i
Ctx == "context.Context"
Sub == {"*rpc.Subscription", "rpc.Subscription"}
Upper == [c \in 65..90 \cup {201, 931} |-> c + 32]
Exported(m) == m.n[1] \in DOMAIN Upper
Low(n) == <<Upper[n[1]]>> \o Tail(n)
Suitable(m) == \/ Len(m.outs) <= 1
               \/ Len(m.outs) = 2 /\ m.outs[1] # "error" /\ m.outs[2] = "error"
HasCtx(m) == m.ins # <<>> /\ m.ins[1] = Ctx
IsSub(m) == HasCtx(m) /\ Len(m.outs) = 2 /\ m.outs[1] \in Sub /\ m.outs[2] = "error"
(* the exposed methods of a receiver: a pointer has the methods of its type too *)
Exposed(r) == {m \in {Receivers[r].methods[k] : k \in DOMAIN Receivers[r].methods} : Exported(m) /\ (m.ptr = 1 => Receivers[r].ptr = 1) /\ Suitable(m)}
All == TLCEval([r \in DOMAIN Receivers |-> TLCEval(Exposed(r))])
(* ---- the registry: set of <<service, kind, name, method>>, one method for each name of a kind ---- *)
Own == [n |-> <<77, 111, 100, 117, 108, 101, 115>>, key |-> "own", ptr |-> 0, ins |-> <<>>, outs |-> <<"map[string]string">>]
Rpc == <<114, 112, 99>>
Entries(name, M) == {<<name, IF IsSub(m) THEN 1 ELSE 0, Low(m.n), m>> : m \in M}
Register(reg, name, M) == LET E == Entries(name, M) IN
                          {x \in reg : ~\E y \in E : x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3]} \cup E
Found(reg, name, kind, meth) == {x[4] : x \in {y \in reg : y[1] = name /\ y[2] = kind /\ y[3] = meth}}
Under(s) == {k \in DOMAIN s : s[k] = 95}
First(s) == CHOOSE k \in Under(s) : \A j \in Under(s) : k <= j
ByText(reg, s) == IF Under(s) = {} THEN {} ELSE Found(reg, SubSeq(s, 1, First(s) - 1), 0, SubSeq(s, First(s) + 1, Len(s)))
ArgTypes(m) == IF HasCtx(m) THEN Tail(m.ins) ELSE m.ins
(* ---- what a result looks like, as a value and in an answer ---- *)
Value(t, n) == CASE t = "int" -> "int " \o ToString(n) [] t = "string" -> "string s" \o ToString(n) [] t = "bool" -> (IF n % 2 = 1 THEN "bool true" ELSE "bool false")
                 [] t = "*rpc.Subscription" -> "the subscription" [] t = "rpc.Subscription" -> "subscription 0x5"
                 [] t = "*rpcsvc.Thing" -> (IF n % 3 > 0 THEN "thing " \o ToString(n) ELSE "no thing")
                 [] t = "interface {}" -> (IF n % 3 > 0 THEN "int " \o ToString(n) ELSE "nil")
                 [] t = "[]int" -> "[]int [" \o ToString(n) \o " " \o ToString(n) \o "]"
                 [] OTHER -> "nil"
Text(t, n) == CASE t = "int" -> ToString(n) [] t = "string" -> "\"s" \o ToString(n) \o "\"" [] t = "bool" -> (IF n % 2 = 1 THEN "true" ELSE "false")
                [] t = "*rpc.Subscription" -> "\"\"" [] t = "rpc.Subscription" -> "\"0x5\""
                [] t = "*rpcsvc.Thing" -> (IF n % 3 > 0 THEN "{\"N\":" \o ToString(n) \o "}" ELSE "null")
                [] t = "interface {}" -> (IF n % 3 > 0 THEN ToString(n) ELSE "null")
                [] t = "[]int" -> "[" \o ToString(n) \o "," \o ToString(n) \o "]"
                [] OTHER -> "null"
Errs(m) == Len(m.outs) > 0 /\ m.outs[Len(m.outs)] = "error"
CallOk(o, m) ==
  IF m.key = "own" THEN o.own = 1 /\ o.out = "ok"
  ELSE /\ o.seen = << [m |-> m.key, args |-> (IF HasCtx(m) THEN <<o.cv>> ELSE <<>>) \o o.args] >>
       /\ CASE o.plan = "panic" -> o.out = "panic"
            [] o.plan = "err" /\ Errs(m) -> o.out = "err"
            [] OTHER -> o.out = "ok" /\ LET t == IF m.outs = <<>> THEN "" ELSE m.outs[1] IN
                                        \/ o.res = (IF o.via = 1 THEN Text(t, o.n) ELSE Value(t, o.n))
                                        \/ o.via = 1 /\ t = "rpc.Subscription"    \* a copy has no methods: its form is not promised
RECURSIVE Run(_, _, _, _)
Run(ops, k, reg, last) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET o == ops[k] IN
       CASE o.op = "reg" -> LET ok == o.name # <<>> /\ All[o.r] # {} IN
                            (o.ok = 1) = ok /\ Run(ops, k + 1, TLCEval(IF ok THEN Register(reg, o.name, All[o.r]) ELSE reg), {})
         [] o.op = "look" -> LET F == IF o.sub = 1 THEN Found(reg, o.name, 1, o.meth) ELSE ByText(reg, o.name) IN
                             /\ (o.found = 1) = (F # {})
                             /\ \A m \in F : o.types = ArgTypes(m) /\ o.is = (IF IsSub(m) THEN 1 ELSE 0)
                             /\ Run(ops, k + 1, reg, F)
         [] o.op = "call" -> (\A m \in last : CallOk(o, m)) /\ Run(ops, k + 1, reg, {})
         [] o.op = "mods" -> {o.names[j] : j \in DOMAIN o.names} = {x[1] : x \in reg} /\ Run(ops, k + 1, reg, {})
Good(e) == Run(e.ops, 1, Register({}, Rpc, {Own}), {})
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
