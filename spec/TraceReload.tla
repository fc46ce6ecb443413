----------------------------- MODULE TraceReload -----------------------------
EXTENDS Reload, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Ev.o = Obs'
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
