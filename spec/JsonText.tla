------------------------------ MODULE JsonText ------------------------------
(* Which texts (sequences of bytes) are JSON (RFC 8259), and what an object of *)
(* whole numbers says.  Positions past the end are -1; a place of 0: no.       *)
EXTENDS Integers, Sequences
Ch(t, i) == IF i \in DOMAIN t THEN t[i] ELSE -1
RECURSIVE Blank(_, _)
Blank(t, i) == IF Ch(t, i) \in {9, 10, 13, 32} THEN Blank(t, i + 1) ELSE i
IsHex(c) == c \in 48..57 \cup 65..70 \cup 97..102
RECURSIVE Str(_, _)
Str(t, i) == LET c == Ch(t, i) IN     \* after the opening quote
  IF c < 32 THEN 0
  ELSE IF c = 34 THEN i + 1
  ELSE IF c # 92 THEN Str(t, i + 1)
  ELSE IF Ch(t, i + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN Str(t, i + 2)
  ELSE IF Ch(t, i + 1) = 117 /\ \A k \in 2..5 : IsHex(Ch(t, i + k)) THEN Str(t, i + 6)
  ELSE 0
RECURSIVE Run(_, _)
Run(t, i) == IF Ch(t, i) \in 48..57 THEN Run(t, i + 1) ELSE i
Whole(t, i) == LET j == IF Ch(t, i) = 45 THEN i + 1 ELSE i IN
               IF Ch(t, j) = 48 THEN j + 1 ELSE IF Ch(t, j) \in 49..57 THEN Run(t, j) ELSE 0
Fraction(t, i) == IF i = 0 \/ Ch(t, i) # 46 THEN i ELSE IF Ch(t, i + 1) \in 48..57 THEN Run(t, i + 1) ELSE 0
Exponent(t, i) == IF i = 0 \/ Ch(t, i) \notin {69, 101} THEN i
                  ELSE LET j == IF Ch(t, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1 IN
                       IF Ch(t, j) \in 48..57 THEN Run(t, j) ELSE 0
Word(t, i, w) == IF SubSeq(t, i, IF i + Len(w) - 1 <= Len(t) THEN i + Len(w) - 1 ELSE Len(t)) = w THEN i + Len(w) ELSE 0

RECURSIVE Value(_, _), Items(_, _), Members(_, _, _)
Value(t, i) ==
  LET c == Ch(t, i) IN
  CASE c = 123 -> LET j == Blank(t, i + 1) IN IF Ch(t, j) = 125 THEN j + 1 ELSE Members(t, j, <<>>)[1]
    [] c = 91 -> LET j == Blank(t, i + 1) IN IF Ch(t, j) = 93 THEN j + 1 ELSE Items(t, j)
    [] c = 34 -> Str(t, i + 1)
    [] c = 116 -> Word(t, i, <<116, 114, 117, 101>>)
    [] c = 102 -> Word(t, i, <<102, 97, 108, 115, 101>>)
    [] c = 110 -> Word(t, i, <<110, 117, 108, 108>>)
    [] OTHER -> Exponent(t, Fraction(t, Whole(t, i)))
Items(t, i) ==
  LET j == Value(t, i) k == Blank(t, j) IN
  IF j = 0 THEN 0
  ELSE IF Ch(t, k) = 93 THEN k + 1
  ELSE IF Ch(t, k) = 44 THEN Items(t, Blank(t, k + 1)) ELSE 0
(* <<place after the object, its members: key and value as written>> *)
Members(t, i, es) ==
  IF Ch(t, i) # 34 \/ Str(t, i + 1) = 0 THEN <<0>> ELSE
  LET a == Str(t, i + 1) b == Blank(t, a) v == Blank(t, b + 1) IN
  IF Ch(t, b) # 58 \/ Value(t, v) = 0 THEN <<0>> ELSE
  LET e == Value(t, v) k == Blank(t, e)
      fs == Append(es, <<SubSeq(t, i + 1, a - 2), SubSeq(t, v, e - 1)>>) IN
  IF Ch(t, k) = 125 THEN <<k + 1, fs>>
  ELSE IF Ch(t, k) = 44 THEN Members(t, Blank(t, k + 1), fs) ELSE <<0>>

IsJson(t) == LET j == Value(t, Blank(t, 1)) IN j # 0 /\ Blank(t, j) = Len(t) + 1
IsObject(t) == IsJson(t) /\ Ch(t, Blank(t, 1)) = 123
MembersOf(t) == LET i == Blank(t, 1) j == Blank(t, i + 1) IN
                IF Ch(t, j) = 125 THEN <<>> ELSE Members(t, j, <<>>)[2]
=============================================================================
