------------------------------ MODULE KeyedHeap ------------------------------
(* Heap with keys (common/container/meap): a partial function from keys to  *)
(* values; the top is any entry whose value is minimal.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT Keys         \* the keys the map side is read out for; there are more
VARIABLES m, last
vars == <<m, last>>
Init == m = <<>> /\ last = <<>>
Present == DOMAIN m
Top(k) == \A x \in Present : ~(m[x] < m[k])
Without(k) == [x \in Present \ {k} |-> m[x]]
Push(k, v, r) == r = <<>> /\ m' = (k :> v) @@ m
Pop(r) == IF Present = {} THEN r = <<"panic">> /\ UNCHANGED m
          ELSE \E k \in Present : r = <<"e", k, m[k]>> /\ Top(k) /\ m' = Without(k)
Peek(r) == /\ UNCHANGED m
           /\ IF Present = {} THEN r = <<"panic">> ELSE \E k \in Present : r = <<"e", k, m[k]>> /\ Top(k)
Remove(k, r) == r = <<>> /\ m' = Without(k)
Get(k, r) == UNCHANGED m /\ r = IF k \in Present THEN <<"v", m[k], TRUE>> ELSE <<"v", 0, FALSE>>
Contains(k, r) == UNCHANGED m /\ r = <<"b", k \in Present>>
Do(c, r) ==
  /\ CASE c.op = "Push" -> Push(c.k, c.v, r)
       [] c.op = "Pop" -> Pop(r)
       [] c.op = "Peek" -> Peek(r)
       [] c.op = "Remove" -> Remove(c.k, r)
       [] c.op = "Get" -> Get(c.k, r)
       [] c.op = "Contains" -> Contains(c.k, r)
  /\ last' = [c |-> c, r |-> r]
(* o: the map side read out (<<value>> of the keys present), and the entry shown at the top *)
ObsOK(o) == LET P == DOMAIN m' IN
            /\ o.map = [k \in Keys |-> IF k \in P THEN <<m'[k]>> ELSE <<>>]
            /\ o.len = Cardinality(P) /\ o.empty = (P = {})
            /\ IF P = {} THEN o.peek = <<"panic">>
               ELSE \E k \in P : o.peek = <<"e", k, m'[k]>> /\ \A x \in P : ~(m'[x] < m'[k])
=============================================================================
