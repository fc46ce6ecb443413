------------------------------- MODULE MCBits -------------------------------
(* every number of W bits; every split of 0..N into 1..N *)
EXTENDS Bits, TLC, Json
CONSTANTS W, N
Power2(b) == 2^b
RECURSIVE Num(_)
Num(s) == IF s = {} THEN 0 ELSE LET b == Top(s) IN 2^b + Num(s \ {b})
Limbs(x) == IF x = 0 THEN <<>> ELSE IF x < Base THEN <<x>> ELSE <<x % Base, x \div Base>>
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE Append(SeqOf(s \ {Top(s)}), Top(s))
Call(op, s) == [op |-> op, n |-> SeqOf(s), w |-> W]
Step ==
  \/ \E s \in SUBSET (0..(W - 1)) :
       \/ Do(Call("IsPow", s), <<"b", IsPow(s)>>)
       \/ Do(Call("LastBit", s), <<"v", LastBit(s)>>)
       \/ s # {} /\ Do(Call("Log", s), <<"v", Top(s)>>)
       \/ s # {} /\ Do(Call("RoundDown", s), <<"n", SeqOf(RoundDown(s))>>)
       \/ s # {} /\ AtMost(s, {W - 1}) /\ Do(Call("RoundUp", s), <<"n", SeqOf(RoundUp(s))>>)
  \/ \E m \in {16384 + 512 * i : i \in 0..31} :
       Do([op |-> "FLog", k |-> 0, m |-> m, exact |-> m = 16384, ty |-> "float64"], <<"f", Log256(m), m = 16384>>)
  \/ \E n \in 0..N, m \in 1..N :
       LET per == (n + m - 1) \div m
           lst == IF n = 0 THEN 0 ELSE IF n % per = 0 THEN per ELSE n % per
           full == IF n = 0 THEN 0 ELSE (n - lst) \div per IN
       Do([op |-> "Split", n |-> Limbs(n), m |-> Limbs(m)], <<"split", Limbs(per), Limbs(lst), Limbs(full)>>)
Next == last = <<>> /\ Step
Spec == Init /\ [][Next]_vars
(* the closed forms say what the statement says *)
Nearest ==
  last # <<>> =>
    CASE last[1].op = "RoundUp" -> NearestUp(BitSet(last[1].n), BitSet(last[2][2]), W)
      [] last[1].op = "RoundDown" -> NearestDown(BitSet(last[1].n), BitSet(last[2][2]), W)
      [] last[1].op = "LastBit" -> LET x == Num(BitSet(last[1].n)) b == last[2][2] IN x < 2^b /\ (b > 0 => 2^(b - 1) <= x)
      [] last[1].op = "Log" -> LET x == Num(BitSet(last[1].n)) b == last[2][2] IN 2^b <= x /\ x < 2^(b + 1)
      \* powers: 4 * log(m) reaches h exactly when m^4 reaches 2^h
      [] last[1].op = "FLog" -> LET q == (last[1].m \div 512) d == last[2][2] IN
                                \A h \in 1..3 : (4 * d >= 256 * h + 8 => q * q * q * q >= 32^4 * 2^h)
                                              /\ (4 * d <= 256 * h - 8 => q * q * q * q <= 32^4 * 2^h)
      [] last[1].op = "IsPow" -> last[2][2] = (\E k \in 0..W : Num(BitSet(last[1].n)) = 2^k)
      [] last[1].op = "Split" ->
           LET n == last[1].n m == last[1].m per == last[2][2] lst == last[2][3] IN
           \* no other answer is admitted
           \A p, q \in 0..3 : \A f \in 0..3 :
             SplitOK(n, m, Limbs(p), Limbs(q), Limbs(f)) /\ n # <<>> => Limbs(p) = per /\ Limbs(q) = lst
(* limb arithmetic is arithmetic *)
ASSUME \A a, b \in {0, 1, 2, 32767, 32768, 32769, 40000, 65535, 1000000} :
         /\ Add(Limbs(a), Limbs(b)) = Limbs(a + b)
         /\ Lt(Limbs(a), Limbs(b)) = (a < b)
         /\ (a < 2 \/ b < 2) => Mul(Limbs(a), Limbs(b)) = Limbs(a * b)
ASSUME \A a, b \in {0, 3, 181, 32767, 32768, 46340} : Mul(Limbs(a), Limbs(b)) =
         Norm(<<(a * b) % Base, ((a * b) \div Base) % Base, ((a * b) \div Base) \div Base>>)
View == last
Emit == PrintT(ToJson([f |-> 0, t |-> 0, c |-> last'[1]]))
=============================================================================
