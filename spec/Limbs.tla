------------------------------- MODULE Limbs --------------------------------
(* Natural numbers of any size: sequences of limbs (base 2^15, least first),  *)
(* without zeros at the end.                                                  *)
EXTENDS Integers, Sequences
Top(s) == CHOOSE b \in s : \A x \in s : x <= b
Base == 32768
Norm(a) == LET k == {i \in DOMAIN a : a[i] # 0} IN
           IF k = {} THEN <<>> ELSE SubSeq(a, 1, Top(k))
Limb(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
Big(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, n) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % Base>> \o AddFrom(a, b, i + 1, t \div Base, n)
Add(a, b) == Norm(AddFrom(a, b, 1, 0, Big(a, b)))
RECURSIVE Scale(_, _, _, _)
Scale(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c IN <<t % Base>> \o Scale(a, d, i + 1, t \div Base)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<>>
             ELSE Add(Norm(Scale(a, b[1], 1, 0)), LET r == Mul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE
                     ELSE IF Limb(a, i) # Limb(b, i) THEN Limb(a, i) < Limb(b, i) ELSE LessFrom(a, b, i - 1)
LessEq(a, b) == ~LessFrom(b, a, Big(a, b))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN <<1>> ELSE Mul(Pow(b, e - 1), b)
=============================================================================
