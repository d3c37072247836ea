-------------------------------- MODULE Files --------------------------------
(* Helpers for files, names, warnings and random bytes: JSON files with the line of a syntax error, paths, boxes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VRECS)
VARIABLES i
(* ---- JSON as an automaton with a stack, so that the first byte that no JSON text can have there is known ---- *)
Dig == 48..57
HexDig == Dig \cup 65..70 \cup 97..102
White == {32, 9, 10, 13}
NumEnd == {"zero", "int", "frac", "exp"}
Lits == << <<114, 117, 101>>, <<97, 108, 115, 101>>, <<117, 108, 108>> >>
Bad == [m |-> "bad", st |-> <<>>, key |-> FALSE, lit |-> <<>>]
After(s) == [s EXCEPT !.m = "after", !.key = FALSE, !.lit = <<>>]
Value(s, c) ==
  CASE c = 34 -> [s EXCEPT !.m = "str", !.key = FALSE]
    [] c = 91 -> [s EXCEPT !.m = "val0", !.st = Append(@, "a")]
    [] c = 123 -> [s EXCEPT !.m = "key0", !.st = Append(@, "o")]
    [] c = 45 -> [s EXCEPT !.m = "neg"]
    [] c = 48 -> [s EXCEPT !.m = "zero"]
    [] c \in 49..57 -> [s EXCEPT !.m = "int"]
    [] c = 116 -> [s EXCEPT !.m = "lit", !.lit = Lits[1]]
    [] c = 102 -> [s EXCEPT !.m = "lit", !.lit = Lits[2]]
    [] c = 110 -> [s EXCEPT !.m = "lit", !.lit = Lits[3]]
    [] OTHER -> Bad
Top(s) == IF s.st = <<>> THEN "" ELSE s.st[Len(s.st)]
Pop(s) == After([s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)])
Follows(s, c) ==
  CASE c \in White -> After(s)
    [] c = 44 /\ Top(s) = "a" -> [s EXCEPT !.m = "val"]
    [] c = 44 /\ Top(s) = "o" -> [s EXCEPT !.m = "key"]
    [] c = 93 /\ Top(s) = "a" -> Pop(s)
    [] c = 125 /\ Top(s) = "o" -> Pop(s)
    [] OTHER -> Bad
To(s, m) == [s EXCEPT !.m = m]
Byte(s, c) ==
  CASE s.m \in {"val", "val0", "key0", "key", "colon"} /\ c \in White -> s
    [] s.m = "val" -> Value(s, c)
    [] s.m = "val0" -> IF c = 93 THEN Pop(s) ELSE Value(s, c)
    [] s.m = "key0" -> IF c = 125 THEN Pop(s) ELSE IF c = 34 THEN [s EXCEPT !.m = "str", !.key = TRUE] ELSE Bad
    [] s.m = "key" -> IF c = 34 THEN [s EXCEPT !.m = "str", !.key = TRUE] ELSE Bad
    [] s.m = "colon" -> IF c = 58 THEN To(s, "val") ELSE Bad
    [] s.m = "after" -> Follows(s, c)
    [] s.m = "str" -> IF c = 34 THEN (IF s.key THEN [s EXCEPT !.m = "colon", !.key = FALSE] ELSE After(s))
                      ELSE IF c = 92 THEN To(s, "esc") ELSE IF c < 32 THEN Bad ELSE s
    [] s.m = "esc" -> IF c = 117 THEN To(s, "u4") ELSE IF c \in {34, 92, 47, 98, 102, 110, 114, 116} THEN To(s, "str") ELSE Bad
    [] s.m \in {"u4", "u3", "u2", "u1"} ->
         IF c \notin HexDig THEN Bad ELSE To(s, CASE s.m = "u4" -> "u3" [] s.m = "u3" -> "u2" [] s.m = "u2" -> "u1" [] OTHER -> "str")
    [] s.m = "lit" -> IF c # s.lit[1] THEN Bad ELSE IF Len(s.lit) = 1 THEN After(s) ELSE [s EXCEPT !.lit = Tail(@)]
    [] s.m = "neg" -> IF c = 48 THEN To(s, "zero") ELSE IF c \in Dig THEN To(s, "int") ELSE Bad
    [] s.m = "int" /\ c \in Dig -> s
    [] s.m \in {"zero", "int"} /\ c = 46 -> To(s, "dot")
    [] s.m = "dot" -> IF c \in Dig THEN To(s, "frac") ELSE Bad
    [] s.m = "frac" /\ c \in Dig -> s
    [] s.m \in {"zero", "int", "frac"} /\ c \in {69, 101} -> To(s, "e")
    [] s.m = "e" -> IF c \in {43, 45} THEN To(s, "esign") ELSE IF c \in Dig THEN To(s, "exp") ELSE Bad
    [] s.m = "esign" -> IF c \in Dig THEN To(s, "exp") ELSE Bad
    [] s.m = "exp" /\ c \in Dig -> s
    [] s.m \in NumEnd -> Follows(s, c)
(* the position of the first byte that cannot be there, one past the end if more must follow, 0 for a JSON text *)
RECURSIVE Wrong(_, _, _)
Wrong(d, p, s) == IF s.m = "bad" THEN p - 1
                  ELSE IF p > Len(d) THEN (IF s.st = <<>> /\ s.m \in NumEnd \cup {"after"} THEN 0 ELSE p)
                  ELSE Wrong(d, p + 1, TLCEval(Byte(s, d[p])))
Start == [m |-> "val", st |-> <<>>, key |-> FALSE, lit |-> <<>>]
Newlines(d, n) == Cardinality({k \in 1..n : d[k] = 10})
Min(a, b) == IF a < b THEN a ELSE b
InEscape(d, w) == \E k \in 1..4 : w - k - 1 >= 1 /\ d[w - k - 1] = 92 /\ d[w - k] = 117   \* the standard decoder rejects a bad escape as a whole
LoadOk(e) ==
  LET w == Wrong(e.doc, 1, Start) IN
  IF w = 0 THEN e.ok = e.want /\ e.same = 1 /\ e.line = -1 /\ e.named = 1
  ELSE /\ e.ok = 0 /\ e.named = 1   \* a wrong line break may count to either line
       /\ \E k \in (w - 1)..(w + 4) : e.line = 1 + Newlines(e.doc, Min(k, Len(e.doc))) /\ (k > w => InEscape(e.doc, w))
MissingOk(e) == e.ok = 0 /\ e.kept = 1 /\ e.notexist = e.gone
(* ---- paths: what is left when . and .. are taken away ---- *)
RECURSIVE Split(_, _, _)
Split(s, p, acc) == IF p > Len(s) THEN <<acc>> ELSE IF s[p] = 47 THEN <<acc>> \o Split(s, p + 1, <<>>) ELSE Split(s, p + 1, Append(acc, s[p]))
Up == <<46, 46>>
RECURSIVE Walk(_, _, _)
Walk(parts, rooted, out) ==
  IF parts = <<>> THEN out
  ELSE LET x == parts[1] IN
       Walk(Tail(parts), rooted,
            IF x = <<>> \/ x = <<46>> THEN out
            ELSE IF x # Up THEN Append(out, x)
            ELSE IF out # <<>> /\ out[Len(out)] # Up THEN SubSeq(out, 1, Len(out) - 1)
            ELSE IF rooted THEN out ELSE Append(out, x))
RECURSIVE Glue(_)
Glue(parts) == IF Len(parts) = 0 THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<47>> \o Glue(Tail(parts))
Clean(s) == LET rooted == s # <<>> /\ s[1] = 47 g == Glue(Walk(Split(s, 1, <<>>), rooted, <<>>)) IN
            IF rooted THEN <<47>> \o g ELSE IF g = <<>> THEN <<46>> ELSE g
AbsOk(e) ==
  e.out = (IF e.file # <<>> /\ e.file[1] = 47 THEN e.file
           ELSE IF e.dir = <<>> /\ e.file = <<>> THEN <<>>
           ELSE IF e.dir = <<>> THEN Clean(e.file)
           ELSE IF e.file = <<>> THEN Clean(e.dir)
           ELSE Clean(e.dir \o <<47>> \o e.file))
(* ---- a text in a box ---- *)
Times(c, n) == [k \in 1..n |-> c]
WarnOk(e) == LET n == Len(e.text) edge == Times(35, n + 4) \o <<10>> row(t) == <<35, 32>> \o t \o <<32, 35, 10>> IN
             e.out = <<10>> \o edge \o row(Times(32, n)) \o row(e.text) \o row(Times(32, n)) \o edge \o <<10>>
Good(e) == CASE e.kind = "load" -> LoadOk(e) [] e.kind = "missing" -> MissingOk(e) [] e.kind = "exist" -> e.out = e.want [] e.kind = "abs" -> AbsOk(e)
             [] e.kind = "name" -> e.out = e.name \o "/v" \o e.version \o "/" \o e.os \o "/" \o e.go
             [] e.kind = "warn" -> WarnOk(e)
             [] e.kind = "report" -> e.extra = 1 /\ e.site = 1 /\ e.stack = 1 /\ e.end = 1
             [] e.kind = "random" -> e.len = 1 /\ e.stuck = 0 /\ e.kept = 1 /\ e.distinct = 1
             [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ IF Good(Recs[i']) THEN TRUE ELSE PrintT("BAD " \o ToString(i'))
Spec == Init /\ [][Next]_i
=============================================================================
