-------------------------------- MODULE Lin --------------------------------
(* Concurrent use of an atomic object: a call takes effect at one moment      *)
(* between its start (Call) and its end (Ret).  The object's module gives the *)
(* effect; here is who is waiting for it and what time it is.                 *)
EXTENDS Naturals
CONSTANT Threads
VARIABLES pend, now
lvars == <<pend, now>>
Idle == [st |-> "idle"]
LInit(t0) == pend = [h \in Threads |-> Idle] /\ now = t0
Waiting == {h \in Threads : pend[h].st = "open"}
Call(h, c, r) == pend[h] = Idle /\ pend' = [pend EXCEPT ![h] = [st |-> "open", c |-> c, r |-> r, ts |-> {now}]] /\ UNCHANGED now
(* the waiting call of h takes effect: conjoin with the object's step *)
Effect(h) == pend[h].st = "open" /\ pend' = [pend EXCEPT ![h] = [st |-> "done"]] /\ UNCHANGED now
Ret(h) == pend[h].st = "done" /\ pend' = [pend EXCEPT ![h] = Idle] /\ UNCHANGED now
(* ts: the instants seen while the call waited *)
Tick(t) == /\ now' = t
           /\ pend' = [h \in Threads |-> IF pend[h].st = "open" THEN [pend[h] EXCEPT !.ts = @ \cup {t}] ELSE pend[h]]
(* effects matter before an end that needs one, and before time passes *)
Must(ev) == ev.e \in {"tick", "quiet"} \/ (ev.e = "ret" /\ pend[ev.th].st = "open")
(* nothing can run: then nothing may be waiting *)
NobodyWaits == \A h \in Threads : pend[h] = Idle
=============================================================================
