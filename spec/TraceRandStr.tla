---------------------------- MODULE TraceRandStr ----------------------------
EXTENDS RandStr, TraceBase
D == 48..57
LO == 97..122
UP == 65..90
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Full'
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
