-------------------------------- MODULE Time --------------------------------
(* Instants and durations as <<seconds, nanoseconds>>: TLC's integers have   *)
(* 32 bits, a nanosecond clock does not fit one.                             *)
EXTENDS Integers
NS == 1000000000
TAdd(a, b) == LET n == a[2] + b[2] IN IF n >= NS THEN <<a[1] + b[1] + 1, n - NS>> ELSE <<a[1] + b[1], n>>
TSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + NS - b[2]>>
TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLe(a, b) == ~TLt(b, a)
WholeSeconds(d) == d[1]                 \* of a non-negative duration
Zero == <<0, 0>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* the smaller of m and a + k*b; the larger of 0 and a - k*b (a, k, b natural): no intermediate result is larger *)
AddUpTo(m, a, k, b) == IF b > 0 /\ k > (m - a) \div b THEN m ELSE Min2(m, a + k * b)
SubDownTo0(a, k, b) == IF b > 0 /\ k > a \div b THEN 0 ELSE a - k * b
=============================================================================
