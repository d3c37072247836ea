-------------------------------- MODULE Feed --------------------------------
(* Abstract one-to-many feed. Every operation is a call, an internal effect and a return, so that the        *)
(* specification constrains only what callers can observe:                                                    *)
(*   - Sends take effect one after the other (run is the Send in effect);                                     *)
(*   - a Send owes one delivery to each subscription active when it takes effect (pend); a subscription that  *)
(*     becomes active meanwhile may be included (Join);                                                       *)
(*   - cancelling removes what the running Send still owes;                                                   *)
(*   - a Send returns the number of deliveries once nothing is owed.                                          *)
(* Channels: buf[c] holds delivered, not yet received values; a value may be delivered when the buffer has    *)
(* room or a receiver waits.                                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Subs, Chans, Vals,   \* identities; a value identifies the Send that sends it
          CheckCount,          \* exactly-once delivery and the returned count are part of the specification
          CheckUnsub           \* progress and effects of Unsubscribe are part of the specification

VARIABLES chanOf, caps,        \* fixed per behaviour: channel of each subscription, buffer size of each channel
          sub,                 \* "none" "subbing" "active" "gone"
          scall, ucall,        \* pending Subscribe / Unsubscribe calls
          buf, rcv,            \* channel contents, waiting receivers
          snd, res,            \* state and result of each Send
          run, pend, got       \* the Send in effect (0: none), what it owes, whom it served

fvars == <<chanOf, caps, sub, scall, ucall, buf, rcv, snd, res, run, pend, got>>

FeedInit(co, cp) ==
  /\ chanOf = co /\ caps = cp
  /\ sub = [s \in Subs |-> "none"] /\ scall = [s \in Subs |-> 0] /\ ucall = [s \in Subs |-> 0]
  /\ buf = [c \in Chans |-> <<>>] /\ rcv = [c \in Chans |-> 0]
  /\ snd = [v \in Vals |-> "idle"] /\ res = [v \in Vals |-> 0]
  /\ run = 0 /\ pend = {} /\ got = {}

SubCall(s) == /\ sub[s] = "none" /\ scall[s] = 0
              /\ sub' = [sub EXCEPT ![s] = "subbing"] /\ scall' = [scall EXCEPT ![s] = 1]
              /\ UNCHANGED <<chanOf, caps, ucall, buf, rcv, snd, res, run, pend, got>>
SubEffect(s) == /\ sub[s] = "subbing"
                /\ sub' = [sub EXCEPT ![s] = "active"]
                /\ UNCHANGED <<chanOf, caps, scall, ucall, buf, rcv, snd, res, run, pend, got>>
SubRet(s) == /\ scall[s] = 1 /\ sub[s] # "subbing"
             /\ scall' = [scall EXCEPT ![s] = 0]
             /\ UNCHANGED <<chanOf, caps, sub, ucall, buf, rcv, snd, res, run, pend, got>>

UnsubCall(s) == /\ sub[s] \in {"active", "gone"}
                /\ ucall' = [ucall EXCEPT ![s] = @ + 1]
                /\ UNCHANGED <<chanOf, caps, sub, scall, buf, rcv, snd, res, run, pend, got>>
UnsubEffect(s) == /\ ucall[s] > 0 /\ sub[s] = "active"
                  /\ sub' = [sub EXCEPT ![s] = "gone"]
                  /\ pend' = pend \ {s}
                  /\ UNCHANGED <<chanOf, caps, scall, ucall, buf, rcv, snd, res, run, got>>
UnsubRet(s, closed) == /\ ucall[s] > 0 /\ sub[s] = "gone"
                       /\ CheckUnsub => closed = 1
                       /\ ucall' = [ucall EXCEPT ![s] = @ - 1]
                       /\ UNCHANGED <<chanOf, caps, sub, scall, buf, rcv, snd, res, run, pend, got>>

SendCall(v) == /\ snd[v] = "idle"
               /\ snd' = [snd EXCEPT ![v] = "called"]
               /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res, run, pend, got>>
SendBegin(v) == /\ snd[v] = "called" /\ run = 0
                /\ snd' = [snd EXCEPT ![v] = "running"]
                /\ run' = v /\ pend' = {s \in Subs : sub[s] = "active"} /\ got' = {}
                /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res>>
Join(s) == /\ run # 0 /\ sub[s] = "active" /\ s \notin pend \cup got
           /\ pend' = pend \cup {s}
           /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, snd, res, run, got>>
Room(s) == Len(buf[chanOf[s]]) < caps[chanOf[s]] + rcv[chanOf[s]]
Deliver(s) == /\ run # 0 /\ s \in pend /\ Room(s)
              /\ buf' = [buf EXCEPT ![chanOf[s]] = Append(@, run)]
              /\ pend' = pend \ {s} /\ got' = got \cup {s}
              /\ res' = [res EXCEPT ![run] = @ + 1]
              /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, rcv, snd, run>>
SendEnd == /\ run # 0 /\ pend = {}
           /\ snd' = [snd EXCEPT ![run] = "done"]
           /\ run' = 0 /\ got' = {}
           /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res, pend>>
SendRet(v, n) == /\ snd[v] = "done"
                 /\ CheckCount => n = res[v]
                 /\ snd' = [snd EXCEPT ![v] = "returned"]
                 /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, res, run, pend, got>>

RecvCall(c) == /\ rcv' = [rcv EXCEPT ![c] = @ + 1]
               /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, snd, res, run, pend, got>>
RecvRet(c, v) == /\ rcv[c] > 0 /\ buf[c] # <<>> /\ Head(buf[c]) = v
                 /\ rcv' = [rcv EXCEPT ![c] = @ - 1] /\ buf' = [buf EXCEPT ![c] = Tail(@)]
                 /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, snd, res, run, pend, got>>

(* Relaxations used when only the cancellation property is decided. *)
Drop(s) == /\ ~CheckCount /\ run # 0 /\ s \in pend
           /\ pend' = pend \ {s}
           /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, buf, rcv, snd, res, run, got>>
Again(s) == /\ ~CheckCount /\ run # 0 /\ s \in got /\ sub[s] = "active" /\ Room(s) /\ Len(buf[chanOf[s]]) < 4
            /\ buf' = [buf EXCEPT ![chanOf[s]] = Append(@, run)]
            /\ UNCHANGED <<chanOf, caps, sub, scall, ucall, rcv, snd, res, run, pend, got>>

(* Nothing that the specification obliges to happen is outstanding. *)
Quiet == /\ \A s \in Subs : sub[s] # "subbing" /\ scall[s] = 0
         /\ CheckUnsub => \A s \in Subs : ucall[s] = 0
         /\ \A v \in Vals : snd[v] # "done"
         /\ run = 0 => \A v \in Vals : snd[v] # "called"
         /\ run # 0 => pend # {} /\ \A s \in pend : ~Room(s)
         /\ \A c \in Chans : rcv[c] = 0 \/ buf[c] = <<>>

Internal == \/ \E s \in Subs : SubEffect(s) \/ UnsubEffect(s) \/ Join(s) \/ Deliver(s) \/ Drop(s) \/ Again(s)
            \/ \E v \in Vals : SendBegin(v)
            \/ SendEnd
=============================================================================
