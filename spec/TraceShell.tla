----------------------------- MODULE TraceShell -----------------------------
(* o.old: every earlier result still reads as it did *)
EXTENDS Shell, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Ev.o.old
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
