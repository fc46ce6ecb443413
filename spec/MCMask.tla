------------------------------- MODULE MCMask -------------------------------
(* every text up to MaxLen over Alphabet (a digit 1, another digit, the at sign, two letters), and every *)
(* length of two-coloured text up to LongLen around the boundaries of phone and card numbers             *)
EXTENDS Mask
CONSTANTS MaxLen, LongLen, MaxN
Alphabet == {49, 50, 64, 97, 20013}
Short == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Long == {[i \in 1..n |-> IF i = k THEN x ELSE IF i % 2 = 1 THEN 49 ELSE 55] : n \in 0..LongLen, k \in 1..LongLen, x \in {49, 20013}}
Next == \E s \in Short \cup Long :
          \/ \E f \in {"mobile", "id", "bank"}, n \in (0-6)..MaxN : Do([op |-> "Mask", f |-> f, s |-> s, n |-> n], <<"v", Ans([f |-> f, s |-> s, n |-> n])>>)
          \/ \E f \in {"name", "star"} : Do([op |-> "Mask", f |-> f, s |-> s, n |-> 0], <<"v", Ans([f |-> f, s |-> s, n |-> 0])>>)
Spec == Init /\ [][Next]_vars
View == 0 * Len(<<last>>)
Good == [][Owed(last'.c, last'.r[2])]_vars
=============================================================================
