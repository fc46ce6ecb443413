---- MODULE TraceSlidingLog ----
EXTENDS SlidingLog, TraceBase
TInit == TraceStart /\ Init
TNext == Consume /\ Do(Ev.c, Ev.o.b, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
====
