-------------------------------- MODULE Bits --------------------------------
(* common/math.  A number of any width is the set of its one bits; for the   *)
(* arithmetic of Split it is a sequence of limbs (base 2^15, least first).    *)
(* Min, Max and Abs work on positions in a sorted list of values of the type. *)
EXTENDS Integers, Sequences, FiniteSets, Limbs
VARIABLE last
vars == <<last>>

Less(a, b) == LET d == (a \ b) \cup (b \ a) IN d # {} /\ Top(d) \in b
AtMost(a, b) == a = b \/ Less(a, b)
LastBit(s) == IF s = {} THEN 0 ELSE Top(s) + 1
IsPow(s) == Cardinality(s) = 1
RoundUp(s) == IF IsPow(s) THEN s ELSE {Top(s) + 1}
RoundDown(s) == {Top(s)}

(* what the two roundings are for: the nearest powers of two on either side *)
NearestUp(s, p, w) == IsPow(p) /\ AtMost(s, p) /\ \A k \in 0..w : AtMost(s, {k}) => AtMost(p, {k})
NearestDown(s, p, w) == IsPow(p) /\ AtMost(p, s) /\ \A k \in 0..w : AtMost({k}, s) => AtMost({k}, p)

Lt(a, b) == LessFrom(a, b, Big(a, b))
Le(a, b) == ~Lt(b, a)
One == <<1>>

(* n in parts of size per, the final one of size lst, full: number of parts before it *)
SplitOK(n, m, per, lst, full) ==
  IF n = <<>> THEN per = <<>> /\ lst = <<>>
  ELSE /\ per # <<>>
       /\ Le(n, Mul(per, m))                                     \* m parts suffice
       /\ Lt(Mul(per, m), Add(n, m))                             \* per - 1 would not
       /\ Lt(<<>>, lst) /\ Le(lst, per)
       /\ Add(Mul(per, full), lst) = n

AbsInt(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a < b THEN b ELSE a
MinOf(a, b) == IF a < b THEN a ELSE b

(* 256 times the binary logarithm of m / 2^14, by squaring: 2^14 <= m < 2^15 *)
RECURSIVE LogDigits(_, _)
LogDigits(m, w) ==
  IF w = 0 THEN 0
  ELSE LET q == (m * m) \div 16384 IN
       IF q >= 32768 THEN w + LogDigits(q \div 2, w \div 2) ELSE LogDigits(q, w \div 2)
Log256(m) == LogDigits(m, 128)

BitSet(q) == {q[i] : i \in DOMAIN q}

Do(c, r) ==
  /\ CASE c.op = "IsPow" -> r = <<"b", IsPow(BitSet(c.n))>>
       [] c.op = "LastBit" -> r = <<"v", LastBit(BitSet(c.n))>>
       [] c.op = "RoundUp" -> r[1] = "n" /\ BitSet(r[2]) = RoundUp(BitSet(c.n))
       [] c.op = "RoundDown" -> r[1] = "n" /\ BitSet(r[2]) = RoundDown(BitSet(c.n))
       \* the logarithm of a whole number is whole: the position of the highest bit
       [] c.op = "Log" -> r = <<"v", Top(BitSet(c.n))>>
       \* of 2^k * m / 2^14 (exact: of 2^k); reported in 256ths above k, and whether it is k
       [] c.op = "FLog" -> /\ r[1] = "f" /\ r[3] \in BOOLEAN
                           /\ IF c.exact THEN r[2] = 0 /\ r[3]
                              ELSE r[2] - Log256(c.m) \in -2..2 /\ r[2] \in 0..256
       [] c.op = "Split" -> r[1] = "split" /\ SplitOK(c.n, c.m, r[2], r[3], r[4])
       [] c.op = "Max" -> r = <<"v", MaxOf(c.a, c.b)>>
       [] c.op = "Min" -> r = <<"v", MinOf(c.a, c.b)>>
       [] c.op = "Abs" -> r = <<"v", AbsInt(c.a)>>
  /\ last' = <<c, r>>
Init == last = <<>>
=============================================================================
