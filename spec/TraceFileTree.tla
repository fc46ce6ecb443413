--------------------------- MODULE TraceFileTree ---------------------------
EXTENDS FileTree, TraceBase
SizeC == Traces[1].cfg.size
Seen(o) == [p \in {o[i][1] : i \in DOMAIN o} |->
              LET e == o[CHOOSE i \in DOMAIN o : o[i][1] = p] IN IF e[2] = "d" THEN <<"d">> ELSE <<e[2], e[3]>>]
TInit == Init /\ TraceStart
TNext == Consume /\ LET seen == Seen(Ev.o) IN Do(Ev.c, Ev.r, seen) /\ fs' = seen
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
