----------------------------- MODULE MCDisplay ------------------------------
(* every size up to MaxSize has one of the shown forms, and none is shown as another twice as large;  *)
(* every dyadic number has a nearest decimal, and two only half way                                    *)
EXTENDS Display, TLC
CONSTANTS MaxSize, MaxK
VARIABLE n
MCInit == Init /\ n = 0
Next == n < MaxSize /\ n' = n + 1 /\ UNCHANGED last
Spec == MCInit /\ [][Next]_<<n, last>>
Limbs(x) == IF x = 0 THEN <<>> ELSE <<x>>
Unit(x) == IF x < 1024 THEN 0 ELSE 1
Digits(x, k) == (x * Ten(k) * 2 + (IF Unit(x) = 1 THEN 1024 ELSE 1)) \div (2 * (IF Unit(x) = 1 THEN 1024 ELSE 1))
SizeMet == \A f \in {"file", "byte"} : \A k \in 1..2 :
             /\ Shown(f, Limbs(n), FALSE, Norm(Limbs(Digits(n, k))), k, Unit(n))
             /\ n > 0 => ~Shown(f, Limbs(n), FALSE, Norm(Limbs(2 * Digits(n, k))), k, Unit(n))
RoundMet == n <= MaxK => \A k \in {n, -n} : \A m \in 0..3 : \A d \in {-1, 0, 1} :
              LET Q == {q \in -(10 * MaxK + 10)..(10 * MaxK + 10) : Nearest(k, m, d, q)} IN
              /\ Q # {}
              /\ \A p, q \in Q : p # q => AbsV(p - q) = 1
=============================================================================
