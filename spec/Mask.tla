-------------------------------- MODULE Mask --------------------------------
(* The masking functions of help/utils/strings.go on texts as sequences of    *)
(* code points.  First what each of them answers (Ans), then what that owes   *)
(* to the one who relies on it (Owed), which the model checks Ans against.    *)
EXTENDS Integers, Sequences
VARIABLES last
vars == <<last>>
Init == last = <<>>
STAR == 42
AT == 64
DIGIT == 48..57
Stars(n) == [i \in 1..n |-> STAR]
Pre(s, n) == SubSeq(s, 1, n)
Suf(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(* a number: characters off+1..end are hidden, if the text goes on behind them *)
Hide(s, off, end) == IF Len(s) <= end THEN s
                     ELSE [i \in 1..Len(s) |-> IF i > off /\ i <= end THEN STAR ELSE s[i]]
MobileOff(s) == IF Len(s) > 11 THEN 5 ELSE 3
BankExtra(s) == IF Len(s) > 16 THEN Len(s) - 16 ELSE 0
Mobile(s, n) == Hide(s, MobileOff(s), MobileOff(s) + n)
IDCard(s, n) == Hide(s, 4, 4 + n)
Bank(s, n) == Hide(s, 4, 4 + n + BankExtra(s))

Name(s) == CASE Len(s) = 0 -> <<>>
             [] Len(s) = 1 -> Stars(3)
             [] Len(s) \in 2..4 -> Pre(s, 1) \o Stars(3)
             [] OTHER -> Pre(s, 2) \o Stars(3) \o Suf(s, 2)

Ats(s) == {i \in 1..Len(s) : s[i] = AT}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Email(s) == LET a == Least(Ats(s))
                b == IF \E i \in Ats(s) : i > a THEN Least({i \in Ats(s) : i > a}) ELSE Len(s) + 1
                dom == SubSeq(s, a + 1, b - 1)
            IN (IF a - 1 < 3 THEN <<>> ELSE Pre(s, 3)) \o Stars(3) \o <<AT>> \o dom
IsPhone(s) == Len(s) = 11 /\ s[1] = 49 /\ \A i \in 2..11 : s[i] \in DIGIT
Star(s) == IF Ats(s) # {} THEN Email(s)
           ELSE IF IsPhone(s) THEN Pre(s, 3) \o Stars(4) \o Suf(s, 4)
           ELSE CASE Len(s) <= 1 -> Stars(3)
                  [] Len(s) = 2 -> Pre(s, 1) \o Stars(1)
                  [] Len(s) = 3 -> Pre(s, 1) \o Stars(1) \o Suf(s, 1)
                  [] Len(s) = 4 -> Pre(s, 1) \o Stars(2) \o Suf(s, 1)
                  [] OTHER -> Pre(s, 2) \o Stars(3) \o Suf(s, 2)

Ans(c) == CASE c.f = "mobile" -> Mobile(c.s, c.n)
            [] c.f = "id" -> IDCard(c.s, c.n)
            [] c.f = "bank" -> Bank(c.s, c.n)
            [] c.f = "name" -> Name(c.s)
            [] c.f = "star" -> Star(c.s)

Off(c) == IF c.f = "mobile" THEN MobileOff(c.s) ELSE 4
End(c) == Off(c) + c.n + (IF c.f = "bank" THEN BankExtra(c.s) ELSE 0)
(* how many of the leading and trailing characters of s can be told from r: r shows nothing else *)
Shows(r, s, a, b) == \E m \in 1..Len(r) : Len(r) >= a + b /\ r = Pre(s, a) \o Stars(m) \o Suf(s, b) /\ a + b < Len(s)
Owed(c, r) ==
  IF c.f \in {"mobile", "id", "bank"}
  THEN /\ Len(r) = Len(c.s)
       /\ Len(c.s) <= End(c) => r = c.s
       /\ Len(c.s) > End(c) => \A i \in 1..Len(r) : IF i \in (Off(c) + 1)..End(c) THEN r[i] = STAR ELSE r[i] = c.s[i]
  ELSE IF Len(c.s) = 0 THEN r \in {<<>>, Stars(3)}
  ELSE IF c.f = "star" /\ Ats(c.s) # {}
       THEN LET a == Least(Ats(c.s)) IN (* of the part before the at sign at most three characters *)
            \E k \in 0..3 : k <= a - 1 /\ SubSeq(r, 1, k + 4) = Pre(c.s, k) \o Stars(3) \o <<AT>>
  ELSE \E a, b \in 0..4 : Shows(r, c.s, a, b) /\ (c.f = "name" => a <= 2 /\ b <= 2)

Do(c, r) == /\ r = <<"v", Ans(c)>>
            /\ last' = [c |-> c, r |-> r]
=============================================================================
