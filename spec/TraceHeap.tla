------------------------------ MODULE TraceHeap ------------------------------
EXTENDS Heap, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ ObsOK(Ev.o)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
