-------------------------------- MODULE Heap --------------------------------
(* Heaps (binary, n-ary) and the priority queue: a bag of elements, each     *)
(* with a priority.  Which minimal element is returned is left open; so is  *)
(* which element sits at a position other than the top.  The shape of the   *)
(* tree is NOT part of the state: that is the implementation's business.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES pri,    \* Seq(priority) indexed by element number, in order of creation
          held,   \* element numbers in the heap
          last
vars == <<pri, held, last>>
Init == pri = <<>> /\ held = {} /\ last = <<>>
Top(e) == \A x \in held : ~(pri[x] < pri[e])

Create(ps, r) == r = <<>> /\ pri = <<>> /\ pri' = ps /\ held' = 1..Len(ps)
Push(p, r) == r = <<>> /\ pri' = Append(pri, p) /\ held' = held \cup {Len(pri) + 1}
Pop(r) == /\ UNCHANGED pri
  /\ IF held = {} THEN r = <<"panic">> /\ UNCHANGED held
     ELSE \E e \in held : r = <<"e", e>> /\ Top(e) /\ held' = held \ {e}
Peek(r) == /\ UNCHANGED <<pri, held>>
  /\ IF held = {} THEN r = <<"panic">> ELSE \E e \in held : r = <<"e", e>> /\ Top(e)
Remove(i, r) == IF r = <<"skip">> THEN UNCHANGED <<pri, held>> ELSE   \* no such operation (priority queue)
  /\ UNCHANGED pri
  /\ IF i < 0 \/ i >= Cardinality(held) THEN r = <<"panic">> /\ UNCHANGED held
     ELSE \E e \in held : r = <<"e", e>> /\ (i = 0 => Top(e)) /\ held' = held \ {e}
(* the caller changes the priority of a held element and re-fixes its position *)
Fix(e, p, r) == /\ r = <<>> /\ UNCHANGED held /\ pri' = [pri EXCEPT ![e] = p]

Do(c, r) ==
  /\ CASE c.op = "New" -> Create(c.ps, r)
       [] c.op = "Push" -> Push(c.p, r)
       [] c.op = "Pop" -> Pop(r)
       [] c.op = "Peek" -> Peek(r)
       [] c.op = "Remove" -> Remove(c.i, r)
       [] c.op = "Fix" -> IF r = <<"skip">> THEN UNCHANGED <<pri, held>> ELSE c.e \in held /\ Fix(c.e, c.p, r)
       [] c.op = "BadArity" -> r = <<"panic">> /\ UNCHANGED <<pri, held>>
  /\ last' = [c |-> c, r |-> r]
(* length, emptiness and the element shown at the top *)
ObsOK(o) == /\ o.len = Cardinality(held') /\ o.empty = (held' = {})
            /\ IF held' = {} THEN o.peek = <<"panic">>
               ELSE \E e \in held' : o.peek = <<"e", e>> /\ \A x \in held' : ~(pri'[x] < pri'[e])

TypeOK == held \subseteq 1..Len(pri)
(* with only pops, what comes out is never smaller than what came out before *)
Sorted == [][(last # <<>> /\ last' # <<>> /\ last.c.op = "Pop" /\ last'.c.op = "Pop"
              /\ last.r # <<"panic">> /\ last'.r # <<"panic">>) => pri[last.r[2]] <= pri[last'.r[2]]]_vars
=============================================================================
