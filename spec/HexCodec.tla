------------------------------ MODULE HexCodec ------------------------------
(* The hexadecimal encoding: which strings each decoder accepts, with which value, and which errors it may report    *)
(* for the others (every documented reason that applies to the string is allowed), and the one encoding of a value.  *)
EXTENDS Hex, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Errs(s, r) ==
  LET TB(x) == BytesErrs(x, TRUE, TRUE)  N64(x) == NumErrs(x, TRUE, 16, "U64")  N256(x) == NumErrs(x, TRUE, 64, "Big")
      F(x) == FixedErrs(x, r.n, TRUE) IN
  CASE r.op \in {"Decode", "MustDecode", "GraphBytes"} -> BytesErrs(s, FALSE, TRUE)
    [] r.op \in {"DecodeUint64", "MustDecodeUint64"} -> NumErrs(s, FALSE, 16, "U64")
    [] r.op \in {"DecodeBig", "MustDecodeBig"} -> NumErrs(s, FALSE, 64, "Big")
    [] r.op = "TextBytes" -> TB(s)
    [] r.op \in {"TextBig", "GraphBig"} -> N256(s)
    [] r.op \in {"TextUint64", "TextUint", "GraphUint64"} -> N64(s)
    [] r.op = "TextFixed" -> F(s)
    [] r.op = "TextFixedUnprefixed" -> FixedErrs(s, r.n, FALSE)
    [] r.op = "JSONBytes" -> JSON(s, TB)
    [] r.op = "JSONBig" -> JSON(s, N256)
    [] r.op \in {"JSONUint64", "JSONUint"} -> JSON(s, N64)
    [] r.op = "JSONFixed" -> JSON(s, F)
JsonOps == {"JSONBytes", "JSONBig", "JSONUint64", "JSONUint", "JSONFixed"}
MustOps == {"MustDecode", "MustDecodeUint64", "MustDecodeBig"}
ByteOps == {"Decode", "MustDecode", "GraphBytes", "TextBytes", "TextFixed", "TextFixedUnprefixed", "JSONBytes", "JSONFixed"}
FixedOps == {"TextFixed", "TextFixedUnprefixed", "JSONFixed"}
JType == [o \in JsonOps |-> CASE o = "JSONBytes" -> "hexutil.Bytes" [] o = "JSONBig" -> "*hexutil.Big" [] o = "JSONUint64" -> "hexutil.Uint64"
                              [] o = "JSONUint" -> "hexutil.Uint" [] OTHER -> "[4]uint8"]
DecOk(s, r) ==
  LET E == Errs(s, r)  x == IF r.op \in JsonOps THEN Inner(s) ELSE s IN
  /\ r.inok = 1
  /\ IF E = {} THEN r.err = "" /\ r.val = (IF r.op \in ByteOps THEN BytesVal(x) ELSE NumVal(x))
     ELSE r.err \in E /\ (r.op \in FixedOps => r.same = 1)
  /\ r.pn = (IF r.op \in MustOps /\ E # {} THEN 1 ELSE 0)
  /\ IF r.op \in JsonOps /\ r.err \notin {"", "Length"} THEN r.w = 1 /\ r.et = JType[r.op] ELSE r.w = 0
Wrong(e) == IF e.kind = "dec" THEN {r.op : r \in {x \in {e.r[k] : k \in DOMAIN e.r} : ~DecOk(e.in, x)}}
            ELSE LET w == IF e.kind = "encbytes" THEN EncBytes(e.val) ELSE (IF e.neg = 1 THEN <<45>> ELSE <<>>) \o EncNum(e.val) IN
                 {ToString(k) : k \in {x \in DOMAIN e.outs : e.outs[x] # w}}
Init == i = 0
Next == /\ i < Len(Recs) /\ i' = i + 1
        /\ IF Wrong(Recs[i']) = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i') \o " another result of " \o ToString(Wrong(Recs[i'])))
Spec == Init /\ [][Next]_i
=============================================================================
