------------------------ MODULE TraceLinTimingWheel ------------------------
EXTENDS TimingWheel, Lin, TraceBase
TInit == TraceStart /\ Init(Cfg.tick) /\ LInit(Zero)
Result == IF "r" \in DOMAIN Ev THEN Ev.r ELSE <<"never">>
Open(op) == {h \in Threads : pend[h].st # "idle" /\ pend[h].op = op}
(* as Lin's, with the operation kept for the time after its effect *)
Calls(h, c, r) == /\ pend[h] = Idle /\ UNCHANGED <<now, vars>>
                  /\ pend' = [pend EXCEPT ![h] = [st |-> "open", op |-> c.op, c |-> c, r |-> r, t0 |-> now]]
Takes(h) == pend[h].st = "open" /\ pend' = [pend EXCEPT ![h] = [pend[h] EXCEPT !.st = "done"]] /\ UNCHANGED now
Active == Open("Run") # {}
Effects(h) ==
  LET c == pend[h].c
      r == pend[h].r
  IN /\ Takes(h)
     /\ CASE c.op = "After" -> After(c.id, c.d, pend[h].t0, now, now, r)
          [] c.op = "Schedule" -> Scheduled(c.id, r)
          [] c.op = "Stop" -> Stop(c.id, r)
          [] c.op = "Cancel" -> Cancel(c.x, r)
          [] c.op = "Run" -> r = <<>> /\ c.x \in done /\ UNCHANGED vars
Settled(s) == /\ \A h \in Threads : IF pend[h] = Idle THEN TRUE ELSE pend[h].op = "Run" /\ pend[h].st = "open" /\ pend[h].c.x \notin done
              /\ AllRan
              /\ (Active => OnTime(TSub(now, s)))
(* timers whose start a call waiting when h ends may depend on *)
Wanted(h) == IF pend[h].op = "Run" THEN Ids ELSE {pend[g].c.id : g \in {g \in Waiting : pend[g].op = "Stop"}}
Concerns(h, i) == pend[h].op \in {"After", "Schedule", "Stop"} /\ pend[h].c.id = i
TNext == \/ Consume /\ Ev.e = "call" /\ Calls(Ev.th, Ev.c, Result)
         \/ Consume /\ Ev.e = "ret" /\ Ret(Ev.th) /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "tick" /\ now' = Ev.t /\ UNCHANGED pend /\ UNCHANGED vars
         \/ Consume /\ Ev.e = "run" /\ Ran(Ev.id) /\ UNCHANGED lvars
         \/ Consume /\ Ev.e = "next" /\ Named(Ev.id, Ev.from, Ev.to, now) /\ UNCHANGED lvars
         \/ Consume /\ Ev.e = "quiet" /\ Settled(Ev.slack) /\ Settle /\ UNCHANGED lvars
         (* the run loop has returned and nothing can run: no goroutine is left behind *)
         \/ Consume /\ Ev.e = "left" /\ (~Active => Ev.n = 0) /\ UNCHANGED <<vars, lvars>>
         (* effects and starts matter before an end, a run or an asking that needs them *)
         \/ /\ Silent
            /\ CASE Ev.e = "ret" /\ pend[Ev.th].st = "open" ->
                      \/ \E h \in Waiting : Effects(h)
                      \/ \E i \in Wanted(Ev.th) : Start(i, now, Active) /\ UNCHANGED lvars
                 [] Ev.e = "run" /\ tim[Ev.id].owed = 0 ->
                      \/ \E h \in Waiting : Concerns(h, Ev.id) /\ Effects(h)
                      \/ Start(Ev.id, now, Active) /\ UNCHANGED lvars
                 [] Ev.e = "next" /\ tim[Ev.id].st # "none" /\ tim[Ev.id].ask = NoTime -> Start(Ev.id, now, Active) /\ UNCHANGED lvars
                 [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, lvars, tr, l>>
=============================================================================
