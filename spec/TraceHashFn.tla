---- MODULE TraceHashFn ----
EXTENDS HashFn, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Ev.o = Ev.c.k      \* the content is as it was
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
====
