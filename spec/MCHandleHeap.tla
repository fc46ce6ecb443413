---------------------------- MODULE MCHandleHeap ----------------------------
EXTENDS HandleHeap, TLC, Json
CONSTANTS MaxIds, Prios
Ids == 1..Len(pri)
Calls == [op : {"Push"}, p : Prios] \cup [op : {"Pop", "Peek"}] \cup [op : {"Remove"}, e : Ids]
         \cup [op : {"SetValue"}, e : Ids, p : Prios]
Results(c) == CASE c.op = "Push" -> {<<"h", Len(pri) + 1>>}
               [] c.op \in {"Remove", "SetValue"} -> {<<"b", TRUE>>, <<"b", FALSE>>}
               [] OTHER -> {<<"panic">>} \cup {<<"e", e, pri[e]>> : e \in held}
Next == \E c \in Calls : \E r \in Results(c) : Do(c, r)
Spec == Init /\ [][Next]_vars
Bound == Len(pri) <= MaxIds
View == <<[e \in held |-> pri[e]], Len(pri)>>
Emit == Len(pri') <= MaxIds => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
DeadHandleInert == [][(last'.c.op \in {"Remove", "SetValue"} /\ last'.c.e \notin held) => UNCHANGED <<pri, held>>]_vars
=============================================================================
