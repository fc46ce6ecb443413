---- MODULE TraceLeakyBucket ----
EXTENDS LeakyBucket, TraceBase
TInit == TraceStart /\ Init(Cfg)
TNext == Consume /\ Do(Ev.c, Ev.o.t, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
====
