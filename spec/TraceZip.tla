------------------------------ MODULE TraceZip ------------------------------
EXTENDS Zip, TraceBase
HomeC == Traces[1].cfg.home
Seen(o) == [p \in {o.tree[i][1] : i \in DOMAIN o.tree} |->
              LET e == o.tree[CHOOSE i \in DOMAIN o.tree : o.tree[i][1] = p] IN
              IF e[2] = "d" THEN <<"d">> ELSE <<"f", e[3]>>]
TInit == Init /\ TraceStart
TNext == Consume /\ LET seen == Seen(Ev.o) IN Do(Ev.c, Ev.r, seen) /\ tree' = seen /\ Ev.o.outside
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
