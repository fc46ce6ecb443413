----------------------------- MODULE HandleHeap -----------------------------
(* Heap whose pushes return handles (common/container/reap).                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES pri, held, last
vars == <<pri, held, last>>
Init == pri = <<>> /\ held = {} /\ last = <<>>
Top(e) == \A x \in held : ~(pri[x] < pri[e])
Push(p, r) == r = <<"h", Len(pri) + 1>> /\ pri' = Append(pri, p) /\ held' = held \cup {Len(pri) + 1}
Pop(r) == /\ UNCHANGED pri
  /\ IF held = {} THEN r = <<"panic">> /\ UNCHANGED held
     ELSE \E e \in held : r = <<"e", e, pri[e]>> /\ Top(e) /\ held' = held \ {e}
Peek(r) == /\ UNCHANGED <<pri, held>>
  /\ IF held = {} THEN r = <<"panic">> ELSE \E e \in held : r = <<"e", e, pri[e]>> /\ Top(e)
Remove(e, r) == r = <<"b", e \in held>> /\ held' = held \ {e} /\ UNCHANGED pri
SetValue(e, p, r) == /\ r = <<"b", e \in held>> /\ UNCHANGED held
                     /\ pri' = IF e \in held THEN [pri EXCEPT ![e] = p] ELSE pri
Do(c, r) ==
  /\ CASE c.op = "Push" -> Push(c.p, r)
       [] c.op = "Pop" -> Pop(r)
       [] c.op = "Peek" -> Peek(r)
       [] c.op = "Remove" -> Remove(c.e, r)
       [] c.op = "SetValue" -> SetValue(c.e, c.p, r)
  /\ last' = [c |-> c, r |-> r]
(* every handle, dead or alive, shows its last value *)
ObsOf == [len |-> Cardinality(held'), empty |-> (held' = {}), vals |-> pri']
ObsOK(o) == /\ o.len = ObsOf.len /\ o.empty = ObsOf.empty /\ o.vals = pri'
            /\ IF held' = {} THEN o.peek = <<"panic">>
               ELSE \E e \in held' : o.peek = <<"e", e>> /\ \A x \in held' : ~(pri'[x] < pri'[e])
TypeOK == held \subseteq 1..Len(pri)
=============================================================================
