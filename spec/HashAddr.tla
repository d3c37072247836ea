------------------------------ MODULE HashAddr ------------------------------
(* Hashes (32 bytes) and addresses (20 bytes): conversions, text forms with the checksummed form of addresses, and    *)
(* which texts and values are accepted.                                                                               *)
EXTENDS Hex, Keccak, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
Low(b, n) == IF Len(b) >= n THEN SubSeq(b, Len(b) - n + 1, Len(b)) ELSE [k \in 1..(n - Len(b)) |-> 0] \o b
HexL(b) == SubSeq(EncBytes(b), 3, 2 + 2 * Len(b))
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Upper(s) == [k \in DOMAIN s |-> Up(s[k])]
X == <<48, 120>>
(* the checksummed form: a letter is upper case iff the matching digit of the Keccak hash of the lower-case digits is at least 8 *)
Checksum(a) == LET d == HexL(a)  h == TLCEval(Digest(d, 32)) IN
               X \o [k \in DOMAIN d |-> LET n == IF (k % 2) = 1 THEN h[(k + 1) \div 2] \div 16 ELSE h[k \div 2] % 16 IN IF n >= 8 THEN Up(d[k]) ELSE d[k]]
Q(s) == <<34>> \o s \o <<34>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE List(_)
List(b) == IF Len(b) = 1 THEN Dec(b[1]) ELSE Dec(b[1]) \o <<32>> \o List(Tail(b))
Word(w) == CASE w = "hash" -> <<104, 97, 115, 104>> [] w = "address" -> <<97, 100, 100, 114, 101, 115, 115>>
BadVerb(w, b) == <<37, 33, 111, 40>> \o Word(w) \o <<61>> \o HexL(b) \o <<41>>
Key1(s) == <<123>> \o Q(s) \o <<58, 49, 125>>   \* {"...":1}
Ok == <<32, 91, 99, 104, 107, 115, 117, 109, 32, 111, 107, 93>>                                  \* " [chksum ok]"
Invalid == <<32, 91, 99, 104, 107, 115, 117, 109, 32, 73, 78, 86, 65, 76, 73, 68, 93>>              \* " [chksum INVALID]"
True == <<116, 114, 117, 101>>
ConvWant(b) == LET h == Low(b, 32) a == Low(b, 20) IN
  [f \in {"hash bytes", "hash set", "hash big", "hash hex", "hash Bytes", "hash Big", "hash Value", "hash again"} |-> h]
  @@ [f \in {"addr bytes", "addr set", "addr big", "addr hex", "addr Bytes", "addr Big", "addr Value", "addr again"} |-> a]
  @@ [f \in {"addr Hash"} |-> Low(a, 32)] @@ [f \in {"changed"} |-> <<>>]
HashWant(b) == LET t == EncBytes(b) IN
  [f \in {"hash Hex", "hash String", "hash MarshalText", "hash %v", "hash %s", "hash %#x"} |-> t]
  @@ [f \in {"hash json", "hash jsonptr", "hash %q"} |-> Q(t)] @@ [f \in {"hash jsonkey"} |-> Key1(t)]
  @@ [f \in {"hash %x", "uhash MarshalText"} |-> HexL(b)] @@ [f \in {"uhash json"} |-> Q(HexL(b))]
  @@ [f \in {"hash %X"} |-> Upper(HexL(b))] @@ [f \in {"hash %#X"} |-> Upper(t)]
  @@ [f \in {"hash %d"} |-> <<91>> \o List(b) \o <<93>>] @@ [f \in {"hash %o"} |-> BadVerb("hash", b)]
  @@ [f \in {"hash Terminal"} |-> HexL(SubSeq(b, 1, 3)) \o <<46, 46>> \o HexL(SubSeq(b, 30, 32))]
AddrWant(b) == LET t == EncBytes(b)  c == TLCEval(Checksum(b)) IN
  [f \in {"addr Hex", "addr String", "addr %v", "addr %s", "mixed Original"} |-> c]
  @@ [f \in {"addr MarshalText", "addr %#x"} |-> t] @@ [f \in {"addr json"} |-> Q(t)] @@ [f \in {"addr %q", "mixed json"} |-> Q(c)]
  @@ [f \in {"addr jsonkey"} |-> Key1(t)] @@ [f \in {"addr %x", "uaddr MarshalText"} |-> HexL(b)] @@ [f \in {"uaddr json"} |-> Q(HexL(b))]
  @@ [f \in {"addr %X"} |-> Upper(HexL(b))] @@ [f \in {"addr %#X"} |-> Upper(t)]
  @@ [f \in {"addr %d"} |-> <<91>> \o List(b) \o <<93>>] @@ [f \in {"addr %o"} |-> BadVerb("address", b)]
  @@ [f \in {"mixed String"} |-> c \o Ok] @@ [f \in {"mixed Valid"} |-> True] @@ [f \in {"mixed Address"} |-> b]
(* acceptance *)
Accepted(f, s, n) == CASE f = "text" -> FixedErrs(s, n, TRUE) = {}
                       [] f = "unprefixed" -> FixedErrs(s, n, FALSE) = {}
                       [] f = "json" -> Quoted2(s) /\ FixedErrs(Inner(s), n, TRUE) = {}
                       [] f \in {"scan", "scanraw"} -> Len(s) = n
                       [] f = "never" -> FALSE
Value(f, s) == CASE f = "json" -> BytesVal(Inner(s)) [] f \in {"scan", "scanraw"} -> s [] OTHER -> BytesVal(s)
ParseOk(e, p) == LET s == IF p.f = "scanraw" THEN e.raw ELSE e.in IN
                 IF Accepted(p.f, s, p.size) THEN p.ok = 1 /\ p.val = Value(p.f, s) ELSE p.ok = 0 /\ p.same = 1
IsAddr(s) == AllHex(Body(s)) /\ Len(Body(s)) = 40
MixedOk(e, x) ==
  LET s == IF x.how = "json" THEN Inner(e.in) ELSE e.in
      ok == IF x.how = "json" THEN Accepted("json", e.in, 20) ELSE IsAddr(e.in)
      orig == IF ok THEN s ELSE e.oldorig
      valid == orig = Checksum(BytesVal(orig)) IN
  /\ x.ok = (IF ok THEN 1 ELSE 0)
  /\ (~ok /\ x.how = "string") \/ (/\ x.orig = orig /\ x.addr = BytesVal(orig)
                                    /\ x.valid = (IF valid THEN 1 ELSE 0)
                                    /\ x.str = orig \o (IF valid THEN Ok ELSE Invalid)
                                    /\ x.json = Q(X \o Body(orig)))
Field(e, w) == {o.f : o \in {x \in {e.out[k] : k \in DOMAIN e.out} : x.f \notin DOMAIN w \/ w[x.f] # x.b}}
Bad(e) == CASE e.kind = "conv" -> Field(e, ConvWant(e.in))
            [] e.kind = "hash" -> Field(e, HashWant(e.in))
            [] e.kind = "addr" -> Field(e, AddrWant(e.in))
            [] e.kind = "parse" -> {p.f : p \in {x \in {e.ps[k] : k \in DOMAIN e.ps} : ~ParseOk(e, x)}}
                                   \cup {"mixed " \o x.how : x \in {y \in {e.ms[k] : k \in DOMAIN e.ms} : ~MixedOk(e, y)}}
                                   \cup (IF e.ishex = (IF IsAddr(e.in) THEN 1 ELSE 0) THEN {} ELSE {"IsHexAddress"})
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Bad(Recs[i']) = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i') \o " other results of " \o ToString(Bad(Recs[i'])))
Spec == Init /\ [][Next]_i
=============================================================================
