---------------------------- MODULE FixedWindow ----------------------------
(* common/limiter/fixed_window.  par: [limit, window]; opened: when the      *)
(* current window opened; count: attempts admitted in it.                    *)
EXTENDS Time, Sequences
VARIABLES par, opened, count, last
vars == <<par, opened, count, last>>
Init(p) == par = p /\ opened = Zero /\ count = 0 /\ last = <<>>
Expired(t) == TLt(TAdd(opened, par.window), t)      \* strictly more than one window length
Try(t, r) ==
  LET used == IF Expired(t) THEN 0 ELSE count
      ok == used < par.limit
  IN /\ r = <<"b", ok>>
     /\ opened' = IF Expired(t) THEN t ELSE opened
     /\ count' = IF ok THEN used + 1 ELSE used
Do(c, t, r) == /\ UNCHANGED par
               /\ IF c.op = "Try" THEN Try(t, r) ELSE r = <<>> /\ UNCHANGED <<opened, count>>
               /\ last' = [c |-> c, r |-> r, t |-> t]
WithinQuota == count <= Max2(par.limit, 0)
=============================================================================
