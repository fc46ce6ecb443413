----------------------------- MODULE MCRandStr -----------------------------
(* one or two characters per class, strings of up to three *)
EXTENDS RandStr
Next == \E k \in {0, 1, 2, 3, 7, 0 - 1}, n \in 0..2 : \E s \in [1..n -> Class(Kind(k))] :
           Do([op |-> "Rand", kind |-> k, n |-> n], <<"v", s>>)
Spec == Init /\ [][Next]_vars
View == <<seen, drawn>>
D == {48, 49}
L == {97}
UP == {65}
Bound == \A k \in Kinds : (\A i \in 1..Len(drawn[k]) : drawn[k][i] <= 2) /\ (k \in {1, 2} => Len(drawn[k]) < 2)
Exact == [][Len(last'.r[2]) = last'.c.n]_vars
=============================================================================
