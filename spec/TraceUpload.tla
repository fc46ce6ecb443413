---------------------------- MODULE TraceUpload ----------------------------
EXTENDS Upload, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r, Ev.o) /\ Shown(Ev.o, result')
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
