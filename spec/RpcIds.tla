-------------------------------- MODULE RpcIds -------------------------------
(* Subscription identifiers, and a subscriber that does not keep up.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Digits(b) == [k \in 1..(2 * Len(b)) |-> Digit(IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16)]
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Good(e) == CASE e.kind = "enc" -> e.out = <<48, 120>> \o (LET s == Strip(Digits(e.in)) IN IF s = <<>> THEN <<48>> ELSE s)
             [] e.kind = "ids" -> e.same <= 3 /\ e.bad = 0     \* two connections in 1500 agree by chance once in 2000 runs
             [] e.kind = "overflow" -> e.first = 20001 /\ e.unsubs = 1 /\ e.open = 0
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
