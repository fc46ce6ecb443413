----------------------------- MODULE MCKeyedHeap -----------------------------
EXTENDS KeyedHeap, TLC, Json
CONSTANTS Values
Calls == [op : {"Push"}, k : Keys, v : Values] \cup [op : {"Pop", "Peek"}] \cup [op : {"Remove", "Get", "Contains"}, k : Keys]
Results(c) == CASE c.op \in {"Push", "Remove"} -> {<<>>}
               [] c.op = "Get" -> {<<"v", 0, FALSE>>} \cup {<<"v", v, TRUE>> : v \in Values}
               [] c.op = "Contains" -> {<<"b", TRUE>>, <<"b", FALSE>>}
               [] OTHER -> {<<"panic">>} \cup {<<"e", k, v>> : k \in Keys, v \in Values}
Next == \E c \in Calls : \E r \in Results(c) : Do(c, r)
Spec == Init /\ [][Next]_vars
View == [k \in Keys |-> IF k \in Present THEN <<m[k]>> ELSE <<>>]
Emit == PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* Pop removes exactly one entry, and one with the smallest value *)
PopMinimal == [][(last'.c.op = "Pop" /\ last'.r # <<"panic">>) =>
                   \A k \in Present : m[last'.r[2]] <= m[k]]_vars
=============================================================================
