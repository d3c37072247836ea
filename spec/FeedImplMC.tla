----------------------------- MODULE FeedImplMC -----------------------------
(* Bounds for FeedImpl: one unbuffered subscription, the others with one slot. *)
EXTENDS FeedImpl
CapV == [s \in Subs |-> IF s = 1 THEN 0 ELSE 1]
=============================================================================
