---- MODULE TraceLinLeakyBucket ----
(* LeakyBucket under concurrent use *)
EXTENDS LeakyBucket, Lin, TraceBase
TInit == TraceStart /\ Init(Cfg) /\ LInit(Zero)
TNext == \/ Consume /\ Ev.e = "call" /\ "r" \in DOMAIN Ev /\ Call(Ev.th, Ev.c, Ev.r) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "ret" /\ Ret(Ev.th) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "tick" /\ Tick(Ev.t) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "quiet" /\ NobodyWaits /\ UNCHANGED <<vars, lvars>>
         \/ Silent /\ Must(Ev) /\ \E h \in Waiting : Do(pend[h].c, now, pend[h].r) /\ Effect(h)
TSpec == TInit /\ [][TNext]_<<vars, lvars, tr, l>>
====
