------------------------------ MODULE BloomImpl ------------------------------
(* The design: an array of bits, each key mapped to a non-empty set of them. *)
(* For EVERY such mapping (chosen initially) it implements Bloom.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Keys, Bits
VARIABLES h, bits, added, yes, no, nbits, last
vars == <<h, bits, added, yes, no, nbits, last>>
NB == 3
Init == /\ h \in [Keys -> SUBSET Bits \ {{}}] /\ bits = {}
        /\ added = <<{}>> /\ yes = <<{}>> /\ no = <<{}>> /\ nbits = <<0>> /\ last = <<>>
Spec0 == INSTANCE Bloom WITH Objs <- {1}
Add(k) == bits' = bits \cup h[k] /\ added' = <<added[1] \cup {k}>> /\ no' = <<{}>> /\ UNCHANGED yes
          /\ last' = [c |-> [op |-> "Add", o |-> 1, k |-> k], r |-> <<>>]
Has(k) == LET a == h[k] \subseteq bits IN
          /\ UNCHANGED <<bits, added>> /\ last' = [c |-> [op |-> "Has", o |-> 1, k |-> k], r |-> <<"b", a>>]
          /\ yes' = IF a THEN <<yes[1] \cup {k}>> ELSE yes
          /\ no' = IF a THEN no ELSE <<no[1] \cup {k}>>
Clear == bits' = {} /\ added' = <<{}>> /\ yes' = <<{}>> /\ no' = <<{}>>
         /\ last' = [c |-> [op |-> "Clear", o |-> 1], r |-> <<>>]
Next == /\ (\E k \in Keys : Add(k) \/ Has(k)) \/ Clear
        /\ nbits' = <<NB>> /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
View == <<h, bits, added, yes, no, nbits>>
Implements == [][\E k \in Keys : Spec0!Do(last'.c, last'.r, NB)]_vars
NoFalseNegative == Spec0!NoFalseNegative /\ \A k \in added[1] : h[k] \subseteq bits
(* walks for the implementation: calls only, over the abstract part of the state *)
AView == <<added, yes, no>>
OneMap == h = [k \in Keys |-> {CHOOSE b \in Bits : TRUE}]
Emit == TLCGet("level") < 100 => PrintT(ToJson([f |-> AView, t |-> AView', c |-> last'.c]))
=============================================================================
