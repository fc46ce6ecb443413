----------------------------- MODULE TraceSetADT -----------------------------
EXTENDS SetADT, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ \A o \in Objs : Ev.o[o] = ObsOf(mem'[o])
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
