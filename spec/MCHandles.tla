----------------------------- MODULE MCHandles -----------------------------
(* The helpers as they work: which files each has open at a time, in order    *)
(* ("<f" opens f, ">f" closes it, "!" is a step that may fail), with closing  *)
(* put off to the return where the code does that.                            *)
EXTENDS Handles
VARIABLES pc, later, failed
Scripts == [Copy |-> <<"<src", "<dst", "!">>, Write |-> <<"<file", "!", "!">>, Read |-> <<"<file", "!">>,
            Sum |-> <<"<file", "!">>, Put |-> <<"<chunk", "!">>, Make |-> <<"<result", "<chunk", "!", ">chunk", "<chunk", "!", ">chunk", "!">>,
            Zip |-> <<"<archive", "<one", "!", ">one", "<two", "!", ">two", "!">>, Unzip |-> <<"<archive", "<one", "!", ">one", "<two", "!", ">two">>]
Name(s) == CASE s \in {"<src"} -> "src" [] s \in {"<dst"} -> "dst" [] s \in {"<file"} -> "file" [] s \in {"<chunk", ">chunk"} -> "chunk"
             [] s \in {"<result"} -> "result" [] s \in {"<archive"} -> "archive" [] s \in {"<one", ">one"} -> "one" [] OTHER -> "two"
Opens(s) == s \in {"<src", "<dst", "<file", "<chunk", "<result", "<archive", "<one", "<two"}
MInit == Init /\ pc = 0 /\ later = {} /\ failed = FALSE
Step == at # "idle" /\ ~failed /\ pc <= Len(Scripts[at])
MNext == /\ UNCHANGED last
         /\ \/ \E op \in DOMAIN Scripts : Enter(op) /\ pc' = 1 /\ later' = {} /\ failed' = FALSE
            \/ Step /\ Opens(Scripts[at][pc]) /\ Open(Name(Scripts[at][pc])) /\ pc' = pc + 1 /\ later' = later \cup {Name(Scripts[at][pc])} /\ UNCHANGED failed
            \/ Step /\ Opens(Scripts[at][pc]) /\ failed' = TRUE /\ UNCHANGED <<open, at, pc, later>>
            \/ Step /\ Scripts[at][pc] = "!" /\ failed' \in BOOLEAN /\ pc' = pc + 1 /\ UNCHANGED <<open, at, later>>
            \/ Step /\ Scripts[at][pc] \in {">chunk", ">one", ">two"} /\ Close(Name(Scripts[at][pc])) /\ pc' = pc + 1
                    /\ later' = later \ {Name(Scripts[at][pc])} /\ UNCHANGED failed
            \/ at # "idle" /\ (failed \/ pc > Len(Scripts[at])) /\ \E f \in later : Close(f) /\ later' = later \ {f} /\ UNCHANGED <<pc, failed>>
            \/ at # "idle" /\ (failed \/ pc > Len(Scripts[at])) /\ later = {} /\ Return /\ UNCHANGED <<pc, later, failed>>
MSpec == MInit /\ [][MNext]_<<vars, pc, later, failed>> /\ WF_<<vars, pc, later, failed>>(MNext)
Nothing == at = "idle" => open = {}
Few == Cardinality(open) <= 2
Returns == [](at # "idle" => <>(at = "idle"))
=============================================================================
