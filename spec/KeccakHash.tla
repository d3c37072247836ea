----------------------------- MODULE KeccakHash -----------------------------
(* Hash objects: the state of an object is the sponge after the full blocks of the message written since its        *)
(* creation or last reset, and the bytes that are left over; a sum is the Keccak digest of that message, appended     *)
(* to the given bytes, and leaves the state alone.                                                                    *)
EXTENDS Keccak, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i, k, off, obj   \* record, operation, bytes of the operation taken so far; objects
vars == <<i, k, off, obj>>
Op == Recs[i].ops[k]
Fresh(n) == [s |-> EmptyState, rest |-> <<>>, n |-> n]
Rate(o) == 200 - 2 * o.n
Good(op) == CASE op.op = "new" -> op.size = op.n /\ op.block = 200 - 2 * op.n
              [] op.op = "write" -> op.ok = 1
              [] op.op = "reset" -> TRUE
              [] op.op = "sum" -> op.ok = 1 /\ op.out = op.pre \o Squeeze(AbsorbBlock(obj[op.o].s, Pad(obj[op.o].rest, Rate(obj[op.o])), 1, Rate(obj[op.o])), obj[op.o].n)
Init == i = 1 /\ k = 1 /\ off = 0 /\ obj = <<>>
Room == Rate(obj[Op.o]) - Len(obj[Op.o].rest)
Block == /\ Op.op = "write" /\ Len(Op.b) - off >= Room
         /\ obj' = [obj EXCEPT ![Op.o].s = TLCEval(AbsorbBlock(@, TLCEval(obj[Op.o].rest \o SubSeq(Op.b, off + 1, off + Room)), 1, Rate(obj[Op.o]))), ![Op.o].rest = <<>>]
         /\ off' = off + Room /\ UNCHANGED <<i, k>>
Finish == /\ (Op.op = "write" => Len(Op.b) - off < Room)
          /\ IF Good(Op) THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " operation " \o ToString(k) \o " differs")
          /\ obj' = CASE Op.op = "new" -> Append(obj, Fresh(Op.n))
                      [] Op.op = "write" -> [obj EXCEPT ![Op.o].rest = @ \o SubSeq(Op.b, off + 1, Len(Op.b))]
                      [] Op.op = "reset" -> [obj EXCEPT ![Op.o] = Fresh(@.n)]
                      [] Op.op = "sum" -> obj
          /\ k' = k + 1 /\ off' = 0 /\ UNCHANGED i
Done == k > Len(Recs[i].ops) /\ i' = i + 1 /\ k' = 1 /\ off' = 0 /\ obj' = <<>>
Next == i <= Len(Recs) /\ (IF k <= Len(Recs[i].ops) THEN Block \/ Finish ELSE Done)
Spec == Init /\ [][Next]_vars
=============================================================================
