------------------------------- MODULE MCHeap -------------------------------
EXTENDS Heap, TLC, Json
CONSTANTS MaxIds, Prios
Calls == [op : {"Push"}, p : Prios] \cup [op : {"Pop", "Peek"}] \cup [op : {"Remove"}, i : 0..(Cardinality(held) - 1)]
         \cup [op : {"Fix"}, e : held, p : Prios]
Results == {<<>>, <<"panic">>} \cup {<<"e", e>> : e \in held}
Next == \E c \in Calls : \E r \in Results : Do(c, r)
Spec == Init /\ [][Next]_vars
Bound == Len(pri) <= MaxIds
View == <<[e \in held |-> pri[e]], Len(pri)>>
Emit == Len(pri') <= MaxIds => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
=============================================================================
