------------------------------ MODULE LogEntry ------------------------------
(* The entry points of the log: each makes one record with its level, the message, the context and the call site;        *)
(* Crit then ends the process; levels have names.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Names == <<[s |-> "crit", a |-> "CRIT "], [s |-> "eror", a |-> "ERROR"], [s |-> "warn", a |-> "WARN "], [s |-> "info", a |-> "INFO "], [s |-> "dbug", a |-> "DEBUG"], [s |-> "trce", a |-> "TRACE"]>>
Spelled == [crit |-> 0, eror |-> 1, error |-> 1, warn |-> 2, info |-> 3, dbug |-> 4, debug |-> 4, trce |-> 5, trace |-> 5]
LevelOk(e) ==
  LET in == e.lvl \in 0..5 IN
  /\ e.strok = (IF in THEN 1 ELSE 0) /\ e.alok = e.strok
  /\ in => (e.str = Names[e.lvl + 1].s /\ e.al = Names[e.lvl + 1].a)
  /\ e.ok = (IF e.in \in DOMAIN Spelled THEN 1 ELSE 0) /\ (e.ok = 0 => e.named = 1)
  /\ e.ok = 1 => e.out = Spelled[e.in]
Levels == ("log.Trace" :> 5 @@ "log.Debug" :> 4 @@ "log.Info" :> 3 @@ "log.Warn" :> 2 @@ "log.Error" :> 1 @@
           "Trace" :> 5 @@ "Debug" :> 4 @@ "Info" :> 3 @@ "Warn" :> 2 @@ "Error" :> 1 @@ "OutputSmall" :> 2)
Of(e) == IF e.entry = "Output" THEN e.lvl ELSE Levels[e.entry]
OfLogger(e) == e.entry \in {"Trace", "Debug", "Info", "Warn", "Error"}
Even(s) == IF Len(s) % 2 = 0 THEN s ELSE s \o <<-1, -2, -3>>
Depth(e) == IF e.entry \in {"Output", "OutputSmall"} THEN e.depth ELSE 0
EntryOk(e) ==
  LET at == Len(e.lines) - Depth(e) IN
  /\ e.n = 1 /\ e.glvl = Of(e) /\ e.gmsg = e.msg /\ e.intime = 1 /\ e.keys = <<"t", "lvl", "msg", "ctx">>
  /\ e.gctx = (IF OfLogger(e) THEN e.own ELSE <<>>) \o Even(e.ctx)
  /\ IF at >= 1 THEN e.gline = e.lines[at] /\ e.gfile = e.files[at] ELSE Depth(e) >= 1000 => (e.gline = 0 /\ e.gfile = "")
(* modes: 0 recorded, 1 dropped, 2 the handler fails, 3 critical records only, 4 the handler at the start *)
Last == "R 0 the_end 0 [7_8]"
EndOk(e) ==
  LET crit == e.entry # "Output"
      before == IF e.mode \in {0, 2} THEN 3 ELSE 0
      shown == e.mode \in {0, 2, 3}
      n == before + (IF shown THEN 1 ELSE 0) IN
  /\ e.exit = (IF crit THEN 1 ELSE 9) /\ e.quiet = 1
  /\ Len(e.lines) = n + (IF crit THEN 0 ELSE 1)
  /\ shown => e.lines[n] = Last
  /\ ~crit => e.lines[Len(e.lines)] = "A"
Good(e) == CASE e.kind = "level" -> LevelOk(e) [] e.kind = "entry" -> EntryOk(e) [] e.kind = "end" -> EndOk(e) [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
