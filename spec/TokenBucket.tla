---------------------------- MODULE TokenBucket ----------------------------
(* common/limiter/token_bucket.  par: [cap, rate]; starts empty; tokens are  *)
(* issued only at an attempt at least a second after the last issue.         *)
EXTENDS Time, Sequences
VARIABLES par, tokens, issued, last
vars == <<par, tokens, issued, last>>
Init(p) == par = p /\ tokens = 0 /\ issued = Zero /\ last = <<>>
Try(t, r) ==
  LET secs == WholeSeconds(TSub(t, issued))
      tk == IF secs >= 1 THEN AddUpTo(par.cap, tokens, secs, par.rate) ELSE tokens
      ok == tk > 0
  IN /\ r = <<"b", ok>>
     /\ issued' = IF secs >= 1 THEN t ELSE issued
     /\ tokens' = IF ok THEN tk - 1 ELSE Max2(tk, 0)
Do(c, t, r) == /\ UNCHANGED par
               /\ IF c.op = "Try" THEN Try(t, r) ELSE r = <<>> /\ UNCHANGED <<tokens, issued>>
               /\ last' = [c |-> c, r |-> r, t |-> t]
WithinCapacity == tokens \in 0..Max2(par.cap, 0)
=============================================================================
