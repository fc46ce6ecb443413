---- MODULE MCBloom ----
EXTENDS Bloom, TLC, Json
CONSTANT Keys
Calls == [op : {"Add", "Has"}, o : Objs, k : Keys] \cup [op : {"Clear"}, o : Objs]
Results(c) == IF c.op = "Has" THEN {<<"b", TRUE>>, <<"b", FALSE>>} ELSE {<<>>}
Next == \E c \in Calls : \E r \in Results(c) : Do(c, r, 64)
Spec == Init /\ [][Next]_vars
View == <<added, yes, no, nbits>>
Emit == PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
====
