------------------------------ MODULE Handles ------------------------------
(* What a call of a file helper holds of the operating system.  A call opens  *)
(* files one after another, may fail at any step, and returns in the end;     *)
(* whatever became of it, it then holds no more than before it was made.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES open, at, last
vars == <<open, at, last>>
Init == open = {} /\ at = "idle" /\ last = <<>>

Enter(op) == at = "idle" /\ at' = op /\ UNCHANGED open
Open(f) == at # "idle" /\ f \notin open /\ open' = open \cup {f} /\ UNCHANGED at
(* the step goes through, or does not and the call gives up: no difference to what is held *)
Close(f) == at # "idle" /\ f \in open /\ open' = open \ {f} /\ UNCHANGED at
Return == at # "idle" /\ open = {} /\ at' = "idle" /\ UNCHANGED open

(* a whole call as it shows from outside: n is how much more is held after it *)
Call(op, r) == /\ at = "idle" /\ open = {} /\ r = <<"held", 0>>
               /\ UNCHANGED <<open, at>> /\ last' = [c |-> [op |-> op], r |-> r]
=============================================================================
