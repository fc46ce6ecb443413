-------------------------------- MODULE Fifo --------------------------------
(* A bounded queue of the numbers 1, 2, ...: what the rings implement.        *)
EXTENDS Naturals, Sequences
VARIABLES q, sent, got
CONSTANT cap
Init == q = <<>> /\ sent = 0 /\ got = <<>>
Put == \E k \in 1..(cap - Len(q)) : /\ q' = q \o [i \in 1..k |-> sent + i] /\ sent' = sent + k /\ UNCHANGED got
Get == \E k \in 1..Len(q) : /\ got' = got \o SubSeq(q, 1, k) /\ q' = SubSeq(q, k + 1, Len(q)) /\ UNCHANGED sent
Spec == Init /\ [][Put \/ Get]_<<q, sent, got>>
=============================================================================
