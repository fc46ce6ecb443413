------------------------------ MODULE Display -------------------------------
(* Numbers prepared for people: FileSize, FormatByte (help/utils/files.go)    *)
(* and Round (math.go).  Large numbers are limbs.                  *)
EXTENDS Limbs
VARIABLE last
vars == <<last>>
Init == last = <<>>
Twice(a) == Add(a, a)

(* r: the digits shown are the number d, the last k of them decimals, in units of 1024^u *)
LastUnit == [file |-> 6, byte |-> 5]
Shown(f, n, neg, d, k, u) ==
  LET unit == Pow(<<1024>>, u)
      shown == Mul(d, unit)
      true == Mul(n, Pow(<<10>>, k))
      half == IF u = 0 THEN <<>> ELSE Add(unit, Pow(<<1024>>, u - 1))  \* and a thousandth, for the arithmetic of floats
  IN /\ u <= LastUnit[f]
     \* within half a unit of the last digit shown
     /\ LessEq(Twice(shown), Add(Twice(true), half)) /\ LessEq(Twice(true), Add(Twice(shown), half))
     \* in a unit that suits it, with at least two digits
     /\ u > 0 => LessEq(Pow(<<10>>, k), d) /\ LessEq(<<10>>, d)
     /\ u < LastUnit[f] /\ ~neg => LessEq(d, Mul(<<1024>>, Pow(<<10>>, k)))

RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Two(_)
Two(m) == IF m = 0 THEN 1 ELSE 2 * Two(m - 1)
(* k / 2^m to n decimals is q / 10^n *)
Nearest(k, m, n, q) == IF n >= 0 THEN 2 * AbsV(q * Two(m) - k * Ten(n)) <= Two(m)
                       ELSE 2 * AbsV(q * Ten(-n) * Two(m) - k) <= Ten(-n) * Two(m)

Do(c, r) == /\ \/ c.op = "Size" /\ r[1] = "v" /\ (c.neg = r[5] \/ r[2] = <<>>) /\ Shown(c.f, c.n, c.neg, r[2], r[3], r[4])
               \/ c.op = "Round" /\ r[1] = "v" /\ Nearest(c.k, c.m, c.n, r[2])
               \* a whole number is its own nearest, whatever its size
               \/ c.op = "Whole" /\ r = <<"v", c.n, c.neg>>
            /\ last' = [c |-> c, r |-> r]
=============================================================================
