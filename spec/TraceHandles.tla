---------------------------- MODULE TraceHandles ----------------------------
EXTENDS Handles, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Call(Ev.c.op, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
