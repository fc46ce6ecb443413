----------------------------- MODULE TraceWords -----------------------------
EXTENDS Words, TraceBase
MapsC == 1..3
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
