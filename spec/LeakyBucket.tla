---------------------------- MODULE LeakyBucket ----------------------------
(* common/limiter/leaky_bucket.  par: [peak, rate]; the level falls only at  *)
(* an attempt made at least a second after it last fell.                     *)
EXTENDS Time, Sequences
VARIABLES par, level, fell, last
vars == <<par, level, fell, last>>
Init(p) == par = p /\ level = 0 /\ fell = Zero /\ last = <<>>
Try(t, r) ==
  LET secs == WholeSeconds(TSub(t, fell))
      lv == IF secs >= 1 THEN SubDownTo0(level, secs, par.rate) ELSE level
      ok == lv < par.peak
  IN /\ r = <<"b", ok>>
     /\ fell' = IF secs >= 1 THEN t ELSE fell
     /\ level' = IF ok THEN lv + 1 ELSE lv
Do(c, t, r) == /\ UNCHANGED par
               /\ IF c.op = "Try" THEN Try(t, r) ELSE r = <<>> /\ UNCHANGED <<level, fell>>
               /\ last' = [c |-> c, r |-> r, t |-> t]
WithinPeak == level <= Max2(par.peak, 0) /\ level >= 0
=============================================================================
