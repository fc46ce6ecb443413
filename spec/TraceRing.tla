------------------------------ MODULE TraceRing ------------------------------
EXTENDS Ring, TraceBase
TInit == TraceStart /\ Create(Cfg.kind, Cfg.n)
TNext == Consume /\ Do(Ev.c, Ev.r, Ev.o.cap) /\ Ev.o = ObsOf
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
