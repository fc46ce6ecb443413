----------------------------- MODULE TraceMask -----------------------------
EXTENDS Mask, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Owed(Ev.c, Ev.r[2])
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
