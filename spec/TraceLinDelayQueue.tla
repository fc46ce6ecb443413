------------------------- MODULE TraceLinDelayQueue -------------------------
(* DelayQueue under concurrent use.  Live: also judge who waits when nothing *)
(* can run, and that waiting does nothing.  slack: how long goroutines were   *)
(* held back in all, which may make them that much late.                      *)
EXTENDS DelayQueue, Lin, TraceBase
CONSTANT Live
TInit == TraceStart /\ Init /\ LInit(Zero)
Result == IF "r" \in DOMAIN Ev THEN Ev.r ELSE <<"never">>
Settled(s) == /\ \A h \in Threads : pend[h] = Idle \/ (pend[h].st = "open" /\ MayWait(pend[h].c, TSub(now, s)))
           /\ ReadersIdle(TSub(now, s))
TNext == \/ Consume /\ Ev.e = "call" /\ Call(Ev.th, Ev.c, Result) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "ret" /\ Ret(Ev.th) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "tick" /\ Tick(Ev.t) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "quiet" /\ (Live => Settled(Ev.slack)) /\ UNCHANGED <<vars, lvars>>
         \/ Consume /\ Ev.e = "spin" /\ ~Live /\ UNCHANGED <<vars, lvars>>
         \/ Silent /\ Must(Ev) /\
               \/ \E h \in Waiting : (\E b \in (IF pend[h].c.op = "Push" THEN pend[h].ts ELSE {now}) : Do(pend[h].c, now, b, pend[h].r)) /\ Effect(h)
               \/ \E i \in 1..Len(chans) : (Fetch(i, now) \/ Close(i)) /\ UNCHANGED lvars
TSpec == TInit /\ [][TNext]_<<vars, lvars, tr, l>>
=============================================================================
