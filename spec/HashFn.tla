------------------------------- MODULE HashFn -------------------------------
(* common/hash: one hasher is a function of content.  fn: what is known of   *)
(* it.  Two contents are given different values: a chance collision of a     *)
(* good 64-bit hash will not be seen in any feasible number of observations.  *)
EXTENDS Sequences, FiniteSets, TLC
CONSTANT Objs
VARIABLES fn, last
vars == <<fn, last>>
Init == fn = [o \in Objs |-> <<>>] /\ last = <<>>
Vals(o) == {fn[o][k] : k \in DOMAIN fn[o]}
Sum(o, k, r) == IF k \in DOMAIN fn[o] THEN r = <<"v", fn[o][k]>> /\ UNCHANGED fn
                ELSE /\ r[1] = "v" /\ r[2] \notin Vals(o)
                     /\ fn' = [fn EXCEPT ![o] = (k :> r[2]) @@ @]
Do(c, r) == Sum(c.o, c.k, r) /\ last' = [c |-> c, r |-> r]
Injective == \A o \in Objs : Cardinality(Vals(o)) = Cardinality(DOMAIN fn[o])
=============================================================================
