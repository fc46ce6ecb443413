--------------------------- MODULE TraceDequeStack ---------------------------
EXTENDS DequeStack, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r)
         /\ \A o \in Objs : Ev.o.d[o] = Obs.d[o] /\ Ev.o.s[o] = Obs.s[o]
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
