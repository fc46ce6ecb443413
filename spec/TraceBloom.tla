---- MODULE TraceBloom ----
EXTENDS Bloom, TraceBase
(* a filter filled to its capacity, asked for asked elements that were not added: fp per mille of them,    *)
(* within a factor of two and six standard deviations, may be reported                                     *)
RateOK(c, r) == LET mu == (c.asked * c.fp) \div 1000
                    x == r[2] - 2 * mu - 10
                IN r[1] = "v" /\ (x <= 0 \/ x * x <= 72 * mu)
TInit == Init /\ TraceStart
TNext == /\ Consume
         /\ IF Ev.c.op = "Rate" THEN RateOK(Ev.c, Ev.r) /\ UNCHANGED vars ELSE Do(Ev.c, Ev.r, Ev.o.len)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
====
