------------------------------ MODULE MCSetADT ------------------------------
EXTENDS SetADT, TLC, Json
Calls == [op : {"Add", "Remove", "Contains"}, o : Objs, e : Dom]
Next == \E c \in Calls : \E r \in (IF c.op = "Contains" THEN {<<"b", TRUE>>, <<"b", FALSE>>} ELSE {<<>>}) : Do(c, r)
Spec == Init /\ [][Next]_vars
View == mem
Emit == PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
Inert == [][(last'.c.op = "Add" /\ last'.c.e \in mem[last'.c.o]) => mem' = mem]_vars
=============================================================================
