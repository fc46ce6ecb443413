---------------------------- MODULE TraceDigests ----------------------------
EXTENDS Digests, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
