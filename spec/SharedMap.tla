----------------------------- MODULE SharedMap -----------------------------
(* help/utils Map: one atomic map.  Keys are names, values numbers, or nil,   *)
(* which a reader cannot tell from an absent entry but which is one.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES m, last
vars == <<m, last>>
Init == m = <<>> /\ last = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nil == <<"nil">>
NilVal == -1
Number(k) == k \in DOMAIN m /\ m[k] # NilVal
At(k) == IF Number(k) THEN <<"v", m[k]>> ELSE Nil
Pairs == {<<k, m[k]>> : k \in DOMAIN m}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
(* every entry once *)
Visits(vs) == Len(vs) = Cardinality(Pairs) /\ RangeOf(vs) = Pairs
Do(c, r) ==
  /\ CASE c.op \in {"Get", "UGet"} -> r = At(c.k) /\ UNCHANGED m
       [] c.op \in {"Set", "USet"} -> r = <<>> /\ m' = Put(m, c.k, c.v)
       [] c.op = "TestAndSet" -> r = At(c.k) /\ m' = IF c.k \in DOMAIN m THEN m ELSE Put(m, c.k, c.v)
       [] c.op \in {"Del", "UDel"} -> r = <<>> /\ m' = Without(m, c.k)
       [] c.op \in {"Len", "ULen"} -> r = <<"n", Cardinality(DOMAIN m)>> /\ UNCHANGED m
       [] c.op \in {"RLockRange", "LockRange", "URange"} -> r[1] = "ps" /\ Visits(r[2]) /\ UNCHANGED m
       (* the visitor raises every number by one *)
       [] c.op = "Raise" -> r[1] = "ps" /\ Visits(r[2]) /\ m' = [k \in DOMAIN m |-> IF Number(k) THEN m[k] + 1 ELSE m[k]]
       (* the visitor deletes what it is shown *)
       [] c.op = "Drain" -> r[1] = "ps" /\ Visits(r[2]) /\ m' = <<>>
       (* lock, read, write one more, unlock *)
       [] c.op = "Incr" -> r = At(c.k) /\ m' = Put(m, c.k, IF Number(c.k) THEN m[c.k] + 1 ELSE 1)
       (* the visitor panics at the first entry *)
       [] c.op \in {"RLockRangePanic", "LockRangePanic"} -> r = (IF m = <<>> THEN <<"ps", <<>>>> ELSE <<"panic">>) /\ UNCHANGED m
       (* a key that is no key *)
       [] c.op \in {"SetBadKey", "TestAndSetBadKey"} -> r = <<"panic">> /\ UNCHANGED m
  /\ last' = [c |-> c, r |-> r]
=============================================================================
