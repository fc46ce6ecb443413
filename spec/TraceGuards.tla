---------------------------- MODULE TraceGuards ----------------------------
EXTENDS Guards, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Ev.r[1] = "b" /\ Do(Ev.c, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
