---------------------------- MODULE ClientSubImpl ----------------------------
(* The algorithm of a client subscription: the forwarding loop (f) with its channels quit, in, forwardDone and unsubDone, *)
(* the dispatcher (d) that handles one message of the connection after the other, a user (u) that may read and cancel,    *)
(* and the server. Checked: order, no send on the closed error channel, at most one error, and that neither the           *)
(* dispatcher nor a cancelling user waits for ever, however slow the reader is.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N,      \* values the server sends
          Bad,    \* those that do not fit the channel's type
          Max,    \* values that may wait for the reader
          Late,   \* a variant: forwardDone is closed after the server's answer
          Slots   \* room in the error channel
VARIABLES net, sent, srv, d, f, why, buf, got, u, err, closed, fdone, udone, answered, ended
vars == <<net, sent, srv, d, f, why, buf, got, u, err, closed, fdone, udone, answered, ended>>
Init == /\ net = <<>> /\ sent = 0 /\ srv = "live" /\ d = 0 /\ f = "loop" /\ why = "" /\ buf = <<>> /\ got = <<>> /\ u = "reads"
        /\ err = <<>> /\ closed = FALSE /\ fdone = FALSE /\ udone = FALSE /\ answered = FALSE /\ ended = FALSE
Answer == 0
Closing == -1
(* the server *)
Send == srv # "off" /\ sent < N /\ sent' = sent + 1 /\ net' = Append(net, sent + 1) /\ UNCHANGED <<srv, d, f, why, buf, got, u, err, closed, fdone, udone, answered, ended>>
Accept == srv = "asked" /\ srv' = "off" /\ net' = Append(net, Answer) /\ UNCHANGED <<sent, d, f, why, buf, got, u, err, closed, fdone, udone, answered, ended>>
(* the dispatcher: d is the value being delivered, Closing, or 0 when it is free *)
Take == /\ d = 0 /\ ~ended /\ net # <<>> /\ net' = Tail(net)
        /\ IF Head(net) = Answer THEN answered' = TRUE /\ UNCHANGED d ELSE d' = Head(net) /\ UNCHANGED answered
        /\ UNCHANGED <<sent, srv, f, why, buf, got, u, err, closed, fdone, udone, ended>>
Lost == d = 0 /\ ~ended /\ d' = Closing /\ ended' = TRUE /\ UNCHANGED <<net, sent, srv, f, why, buf, got, u, err, closed, fdone, udone, answered>>
Drop == d # 0 /\ fdone /\ d' = 0 /\ UNCHANGED <<net, sent, srv, f, why, buf, got, u, err, closed, fdone, udone, answered, ended>>
Stop(w) == f' = "stopped" /\ why' = w
Deliver == /\ d > 0 /\ f = "loop" /\ d' = 0
           /\ IF d \in Bad THEN Stop("misfit") /\ UNCHANGED buf
              ELSE IF Len(buf) = Max THEN Stop("overflow") /\ UNCHANGED buf
              ELSE buf' = Append(buf, d) /\ UNCHANGED <<f, why>>
           /\ UNCHANGED <<net, sent, srv, got, u, err, closed, fdone, udone, answered, ended>>
Quit == d = Closing /\ f = "loop" /\ d' = 0 /\ Stop("lost") /\ UNCHANGED <<net, sent, srv, buf, got, u, err, closed, fdone, udone, answered, ended>>
(* the user *)
Read == f = "loop" /\ buf # <<>> /\ got' = Append(got, Head(buf)) /\ buf' = Tail(buf) /\ UNCHANGED <<net, sent, srv, d, f, why, u, err, closed, fdone, udone, answered, ended>>
ReadErr == err # <<>> /\ err' = <<>> /\ UNCHANGED <<net, sent, srv, d, f, why, buf, got, u, closed, fdone, udone, answered, ended>>
Cancel == u = "reads" /\ u' = "cancels" /\ UNCHANGED <<net, sent, srv, d, f, why, buf, got, err, closed, fdone, udone, answered, ended>>
CancelQuit == u = "cancels" /\ f = "loop" /\ u' = "waits" /\ Stop("") /\ UNCHANGED <<net, sent, srv, d, buf, got, err, closed, fdone, udone, answered, ended>>
CancelDone == u \in {"cancels", "waits"} /\ udone /\ u' = "done" /\ closed' = TRUE /\ UNCHANGED <<net, sent, srv, d, f, why, buf, got, err, fdone, udone, answered, ended>>
(* the loop's end *)
Tell == why # "lost"
Release == /\ f = "stopped" /\ f' = (IF Tell THEN "asks" ELSE "ends") /\ fdone' = (~Late \/ ~Tell)
           /\ UNCHANGED <<net, sent, srv, d, why, buf, got, u, err, closed, udone, answered, ended>>
Ask == f = "asks" /\ f' = "asked" /\ srv' = (IF ended THEN srv ELSE "asked") /\ UNCHANGED <<net, sent, d, why, buf, got, u, err, closed, fdone, udone, answered, ended>>
Asked == f = "asked" /\ (answered \/ ended) /\ f' = "ends" /\ fdone' = TRUE /\ UNCHANGED <<net, sent, srv, d, why, buf, got, u, err, closed, udone, answered, ended>>
Report == /\ f = "ends" /\ f' = "over" /\ udone' = TRUE
          /\ IF why = "" THEN UNCHANGED err ELSE Len(err) < Slots /\ err' = Append(err, why)
          /\ UNCHANGED <<net, sent, srv, d, why, buf, got, u, closed, fdone, answered, ended>>
Next == Send \/ Accept \/ Take \/ Lost \/ Drop \/ Deliver \/ Quit \/ Read \/ ReadErr \/ Cancel \/ CancelQuit \/ CancelDone \/ Release \/ Ask \/ Asked \/ Report
(* nobody has to send, read, cancel or hang up *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ WF_vars(Take) /\ WF_vars(Drop) /\ WF_vars(Deliver) /\ WF_vars(Quit) /\ WF_vars(CancelQuit)
             /\ WF_vars(CancelDone) /\ WF_vars(Release) /\ WF_vars(Ask) /\ WF_vars(Asked) /\ WF_vars(Report)
Order == \A k \in DOMAIN got : got[k] = k
NoPanic == ~(closed /\ f = "ends" /\ why # "")
Bounded == Len(buf) <= Max /\ Len(err) <= Slots
DispatcherFree == (d # 0) ~> (d = 0)
CancelReturns == (u = "cancels") ~> (u = "done")
=============================================================================
