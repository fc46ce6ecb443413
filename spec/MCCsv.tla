------------------------------- MODULE MCCsv -------------------------------
EXTENDS Csv, Json
CONSTANT Max
Fields == {<<>>, <<97>>, <<44>>, <<34>>, <<10>>, <<32>>}
RowsC == {<<a>> : a \in Fields} \cup {<<a, b>> : a, b \in Fields}
Next == \/ kind # "bad" /\ Len(rows) < Max /\ \E row \in RowsC : Do([op |-> "Write", row |-> row], <<>>)
        \/ \E op \in {"Remove", "Mangle"} : Do([op |-> op], <<>>)
        \/ Do([op |-> "Read"], IF kind = "ok" THEN <<"v", rows>> ELSE <<"none">>)
        \/ Do([op |-> "WriteNowhere"], <<"err">>)
        \/ Do([op |-> "ReadNowhere"], <<"none">>)
Spec == Init /\ [][Next]_vars
View == <<kind, rows>>
Kept == [][last'.c.op = "Write" => SubSeq(rows', 1, Len(rows)) = rows /\ Len(rows') = Len(rows) + 1]_vars
Emit == PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
=============================================================================
