------------------------------ MODULE TraceList ------------------------------
EXTENDS List, TraceBase
TInit == Init /\ TraceStart
TNext == /\ Consume
         /\ Do(Ev.c, Ev.r)
         /\ \A L \in Lists : Ev.o.lists[L] = ObsList(seq'[L], val')
         /\ Ev.o.stale = <<>>
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
