---- MODULE TraceDatabase ----
EXTENDS Database, TraceBase
TInit == TraceStart /\ table = Cfg.rows /\ Init
TNext == Consume /\ Do(Ev.c, Ev.r[1], Ev.sts, Ev.hit) /\ Ev.o = table' /\ Ev.rest = TRUE
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
====
