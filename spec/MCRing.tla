------------------------------- MODULE MCRing -------------------------------
(* nxt numbers the values written (modulo Mod, so that the graph is finite)  *)
(* and off is the read position modulo the capacity: coverage ghosts that   *)
(* make the generated walks visit every operation at every storage offset.   *)
EXTENDS Ring, Integers, TLC, Json
CONSTANTS Kind, Caps, MaxCap, Mod
VARIABLES nxt, off
mcvars == <<vars, nxt, off>>
Val(i) == (nxt + i) % Mod
Vals(n) == [i \in 1..n |-> Val(i - 1)]
Calls == [op : {"Push"}, v : {Val(0)}] \cup [op : {"MPush"}, vs : {Vals(n) : n \in 0..(Free + 1)}]
         \cup [op : {"Pop", "Peek", "Reset"}] \cup [op : {"MPop", "MPopCopy"}, n : 0..(Len(q) + 1)]
         \cup (IF Bounded THEN {} ELSE [op : {"Grow"}, n : {0, cap + 1}])
Results(c) == CASE c.op \in {"Pop", "Peek"} -> {<<"panic">>} \cup (IF q # <<>> THEN {<<"v", Head(q)>>} ELSE {})
  [] c.op = "MPop" -> {<<"vs", SubSeq(q, 1, Min(c.n, Len(q)))>>}
  [] c.op = "MPopCopy" -> {<<"vs", SubSeq(q, 1, Min(c.n, Len(q))) \o [i \in 1..(c.n - Min(c.n, Len(q))) |-> 0 - 1]>>}
  [] OTHER -> {<<>>, <<"panic">>}
NextCaps == IF Bounded THEN {cap} ELSE {cap, Max(2 * cap, 2), cap + 1}
Popped == IF last'.c.op \in {"Pop", "MPop", "MPopCopy"} THEN Len(q) - Len(q') ELSE 0
MCInit == \E n \in Caps : Create(Kind, n) /\ nxt = 0 /\ off = 0
MCNext == \E c \in Calls : \E r \in Results(c) : \E nc \in NextCaps :
   /\ Do(c, r, nc)
   /\ nxt' = (nxt + (IF Len(q') > Len(q) THEN Len(q') - Len(q) ELSE 0)) % Mod
   /\ off' = IF last'.c.op = "Reset" \/ cap' # cap \/ cap' = 0 THEN 0 ELSE (off + Popped) % cap'
   /\ (cap' # cap => c.op = "Grow" \/ (c.op = "Push" /\ Free = 0) \/ (c.op = "MPush" /\ Len(c.vs) > Free))
Spec == MCInit /\ [][MCNext]_mcvars
Bound == cap <= MaxCap
View == <<q, cap, nxt, off>>
Emit == cap' <= MaxCap => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
FIFO == [][q' = <<>> \/ q = <<>> \/ (\E i \in 0..Len(q) : SubSeq(q', 1, Min(Len(q'), Len(q) - i)) = SubSeq(q, i + 1, Len(q)))]_mcvars
=============================================================================
