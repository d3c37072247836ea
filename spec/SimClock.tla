------------------------------ MODULE SimClock ------------------------------
(* The simulated clock: virtual time, pending timers, and Run, which advances time and fires what is due in order  *)
(* of deadline. A Run takes everything that is due out of the pending set at once; then callbacks run and channel   *)
(* timers deliver, and either may be observed by the callbacks themselves.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACES)
VARIABLES tid, i,
          now, kind,        \* virtual time; "f" callback, "c" channel, "s" sleeper
          pending,          \* timer -> deadline, for timers not fired and not stopped
          due, cur,         \* being fired by the current Run: timer -> deadline; deadline of the running callback
          chan,             \* channel timer -> <<deadline>> delivered, not yet received
          running,
          waiters, early,   \* pending WaitForTimers: id -> [n, ok: there were n timers since]; returned ones still to be justified: id -> n
          asleep            \* sleepers that must be woken (their deadline has fired)
vars == <<tid, i, now, kind, pending, due, cur, chan, running, waiters, early, asleep>>
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
Ev == Traces[tid].ev
None == -1000
Empty == [x \in {} |-> 0]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Max2(a, b) == IF a > b THEN a ELSE b
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ now = 0 /\ kind = Empty /\ pending = Empty /\ due = Empty /\ cur = 0
        /\ chan = Empty /\ running = FALSE /\ waiters = Empty /\ early = Empty /\ asleep = {}

Count(p) == Cardinality(DOMAIN p)
(* a waiter that has returned must have been entitled to: enough timers at some moment since it was called, or by the  *)
(* operation that is reported next (which may have happened already)                                                   *)
Entitle(p) == [w \in DOMAIN waiters |-> [waiters[w] EXCEPT !.ok = waiters[w].ok \/ Count(p) >= waiters[w].n]]
Op(p) == /\ \A w \in DOMAIN early : Count(p) >= early[w]
         /\ early' = Empty /\ waiters' = Entitle(p)
(* channel timers of the current Run whose delivery must have happened: deadline before that of the running callback *)
Delivered(id) == id \in DOMAIN chan
MustHave(id) == id \in DOMAIN due /\ kind[id] = "c" /\ due[id] < cur
MayHave(id) == id \in DOMAIN due /\ kind[id] = "c" /\ due[id] <= cur

Step(e) ==
  \/ /\ e.e = "New" /\ kind' = Put(kind, e.id, e.k) /\ pending' = Put(pending, e.id, now + e.d) /\ Op(pending')
     /\ UNCHANGED <<now, due, cur, chan, running, asleep>>
  \/ /\ e.e = "Stop" /\ (e.b = 1) = (e.id \in DOMAIN pending) /\ pending' = Del(pending, {e.id}) /\ Op(pending')
     /\ UNCHANGED <<now, kind, due, cur, chan, running, asleep>>
  \/ /\ e.e = "Reset" /\ pending' = Put(pending, e.id, now + e.d) /\ Op(pending')
     /\ UNCHANGED <<now, kind, due, cur, chan, running, asleep>>
  \/ /\ e.e = "Now" /\ e.t = now /\ Op(pending) /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, asleep>>
  \/ /\ e.e = "Active" /\ e.n = Count(pending) /\ Op(pending) /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, asleep>>
  \/ /\ e.e = "RunCall" /\ ~running /\ running' = TRUE /\ now' = now + e.d
     /\ due' = [x \in {y \in DOMAIN pending : pending[y] <= now'} |-> pending[x]]
     /\ pending' = Del(pending, DOMAIN due') /\ cur' = None /\ Op(pending')
     /\ UNCHANGED <<kind, chan, asleep>>
  \/ /\ e.e = "Fire" /\ running /\ e.id \in DOMAIN due /\ kind[e.id] = "f"
     /\ \A x \in DOMAIN due : kind[x] = "f" => due[x] >= due[e.id]
     /\ cur' = due[e.id] /\ due' = Del(due, {e.id}) /\ Op(pending)
     /\ UNCHANGED <<now, kind, pending, chan, running, asleep>>
  \/ /\ e.e = "RunRet" /\ running /\ running' = FALSE
     /\ \A x \in DOMAIN due : kind[x] # "f"
     /\ chan' = [x \in DOMAIN chan \cup {y \in DOMAIN due : kind[y] = "c"} |-> IF x \in DOMAIN due THEN due[x] ELSE chan[x]]
     /\ asleep' = asleep \cup {x \in DOMAIN due : kind[x] = "s"}
     /\ due' = Empty /\ Op(pending)
     /\ UNCHANGED <<now, kind, pending, cur>>
  (* a non-blocking receive from the channel of a channel timer; v = None: nothing there *)
  \/ /\ e.e = "Poll" /\ Op(pending)
     /\ \/ e.v # None /\ Delivered(e.id) /\ e.v = chan[e.id] /\ chan' = Del(chan, {e.id}) /\ UNCHANGED due
        \/ e.v # None /\ MayHave(e.id) /\ e.v = due[e.id] /\ due' = Del(due, {e.id}) /\ UNCHANGED chan
        \/ e.v = None /\ ~Delivered(e.id) /\ ~MustHave(e.id) /\ UNCHANGED <<chan, due>>
     /\ UNCHANGED <<now, kind, pending, cur, running, asleep>>
  \/ /\ e.e = "WaitCall" /\ waiters' = Put(waiters, e.w, [n |-> e.n, ok |-> Count(pending) >= e.n]) /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, early, asleep>>
  \/ /\ e.e = "WaitRet" /\ e.w \in DOMAIN waiters /\ waiters' = Del(waiters, {e.w})
     /\ early' = IF waiters[e.w].ok THEN early ELSE Put(early, e.w, waiters[e.w].n)
     /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, asleep>>
  \/ /\ e.e = "SleepCall" /\ kind' = Put(kind, e.id, "s") /\ pending' = Put(pending, e.id, now + e.d) /\ UNCHANGED early
     /\ waiters' = Entitle(pending') /\ UNCHANGED <<now, due, cur, chan, running, asleep>>
  \/ /\ e.e = "SleepRet" /\ e.id \notin DOMAIN pending /\ asleep' = asleep \ {e.id} /\ due' = Del(due, {e.id})
     /\ UNCHANGED <<now, kind, pending, cur, chan, running, waiters, early>>
  (* everything has come to rest: whoever waits has reason to *)
  \/ /\ e.e = "Quiesce" /\ ~running /\ asleep = {} /\ \A w \in DOMAIN waiters : Count(pending) < waiters[w].n
     /\ early = Empty
     /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, waiters, early, asleep>>
Accept == /\ i = Len(Ev) + 1 /\ TLCSet(tid, 1) /\ PrintT(<<"ACC", tid>>) /\ i' = i + 1
          /\ UNCHANGED <<now, kind, pending, due, cur, chan, running, waiters, early, asleep>>
Next == /\ tid' = tid
        /\ \/ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1
           \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
