------------------------------- MODULE SetADT -------------------------------
(* Sets (common/container/set).                                             *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Objs, Dom
VARIABLES mem, last
vars == <<mem, last>>
Init == mem = [o \in Objs |-> {}] /\ last = <<>>
Add(o, e, r) == r = <<>> /\ mem' = [mem EXCEPT ![o] = @ \cup {e}]
Remove(o, e, r) == r = <<>> /\ mem' = [mem EXCEPT ![o] = @ \ {e}]
Contains(o, e, r) == r = <<"b", e \in mem[o]>> /\ UNCHANGED mem
Do(c, r) ==
  /\ CASE c.op = "Add" -> Add(c.o, c.e, r)
       [] c.op = "Remove" -> Remove(c.o, c.e, r)
       [] c.op = "Contains" -> Contains(c.o, c.e, r)
  /\ last' = [c |-> c, r |-> r]
ObsOf(s) == [has |-> [i \in Dom |-> i \in s], len |-> Cardinality(s), empty |-> (s = {})]
=============================================================================
