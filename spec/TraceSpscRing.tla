--------------------------- MODULE TraceSpscRing ---------------------------
EXTENDS SpscRing, TraceBase
TInit == TraceStart /\ Create(Cfg.kind, Cfg.n) /\ SInit
(* views and effects need only be guessed when a return has to be explained *)
TNext == \/ Consume /\ Ev.e = "call" /\ "r" \in DOMAIN Ev /\ Call(Ev.th, Ev.c, Ev.r)
         \/ Consume /\ Ev.e = "ret" /\ Ret(Ev.th)
         \/ Consume /\ Ev.e = "quiet" /\ (\A s \in 1..2 : pend[s].st = "idle") /\ UNCHANGED svars
         \/ Silent /\ \E s \in 1..2 : View(s) \/ Effect(s)
TSpec == TInit /\ [][TNext]_<<svars, tr, l>>
=============================================================================
