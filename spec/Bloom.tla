-------------------------------- MODULE Bloom --------------------------------
(* common/filter/bloom as its users see it.  added: what was added since the *)
(* last clear; yes: what has been answered "possibly present" since then;    *)
(* no: what has been answered "absent" since the last addition.  Nothing     *)
(* says when an element that was not added is reported: only that it stays   *)
(* that way until something is added (or all is cleared).                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Objs
VARIABLES added, yes, no, nbits, last
vars == <<added, yes, no, nbits, last>>
E0 == [o \in Objs |-> {}]
Init == added = E0 /\ yes = E0 /\ no = E0 /\ nbits = [o \in Objs |-> 0] /\ last = <<>>
Add(o, k, r) == /\ r = <<>> /\ added' = [added EXCEPT ![o] = @ \cup {k}]
                /\ no' = [no EXCEPT ![o] = {}] /\ UNCHANGED yes
Has(o, k, r) == /\ UNCHANGED added
  /\ \/ /\ r = <<"b", TRUE>> /\ added[o] # {} /\ k \notin no[o]
        /\ yes' = [yes EXCEPT ![o] = @ \cup {k}] /\ UNCHANGED no
     \/ /\ r = <<"b", FALSE>> /\ k \notin added[o] /\ k \notin yes[o]
        /\ no' = [no EXCEPT ![o] = @ \cup {k}] /\ UNCHANGED yes
Clear(o, r) == /\ r = <<>> /\ added' = [added EXCEPT ![o] = {}] /\ yes' = [yes EXCEPT ![o] = {}]
               /\ no' = [no EXCEPT ![o] = {}]
(* the reported number of bits: anything at first, the same ever after *)
Size(o, n) == n > 0 /\ nbits[o] \in {0, n} /\ nbits' = [nbits EXCEPT ![o] = n]
Do(c, r, n) ==
  /\ CASE c.op = "Add" -> Add(c.o, c.k, r)
       [] c.op = "Has" -> Has(c.o, c.k, r)
       [] c.op = "Clear" -> Clear(c.o, r)
  /\ Size(c.o, n)
  /\ last' = [c |-> c, r |-> r]
NoFalseNegative == \A o \in Objs : added[o] \cap no[o] = {}
=============================================================================
