---------------------------- MODULE TimingWheel ----------------------------
(* common/timer/timingwheel as its users see it.  tim[i]: timer i,            *)
(*  st    "none", "pending" (waits for due), "idle" (nothing waits)           *)
(*  due   the instant it waits for, at the earliest; late: at the latest (the *)
(*        delay counts from some instant of the call)                         *)
(*  rec   recurring; ask: the named time its schedule is to be asked from     *)
(*  owed  runs started whose function has not been entered yet                *)
(*  near  due within a tick when it was scheduled                             *)
(*  first its schedule named a first time                                     *)
(*  fresh the schedule has just been asked (its answer may be on its way)     *)
(* tick: of the wheel.  done: contexts cancelled.                             *)
EXTENDS Time, Sequences
CONSTANT Ids
VARIABLES tim, tick, done
vars == <<tim, tick, done>>
NoTime == <<>>
NoTimer == [st |-> "none", due |-> Zero, late |-> Zero, rec |-> FALSE, ask |-> NoTime, owed |-> 0, near |-> FALSE, fresh |-> FALSE, first |-> TRUE]
Init(tk) == tim = [i \in Ids |-> NoTimer] /\ tick = tk /\ done = {}
Near(due, t) == TLe(due, TAdd(t, tick))
NotEarly(due, t) == TLe(TSub(due, tick), t)
(* scheduled with a delay that counts from an instant between b1 and b2 *)
After(i, d, b1, b2, t, r) ==
  /\ r = <<>> /\ tim[i].st = "none"
  /\ tim' = [tim EXCEPT ![i] = [NoTimer EXCEPT !.st = "pending", !.due = TAdd(b1, d), !.late = TAdd(b2, d), !.near = Near(TAdd(b1, d), t)]]
  /\ UNCHANGED <<tick, done>>
(* the schedule of i, asked from `from`, names `to` (NoTime: no further one) *)
Named(i, from, to, t) ==
  /\ tim[i].st = "none" \/ (tim[i].rec /\ tim[i].ask = from)
  /\ tim' = [tim EXCEPT ![i].rec = TRUE, ![i].ask = NoTime,
                        ![i].st = IF to = NoTime THEN "idle" ELSE "pending",
                        ![i].due = IF to = NoTime THEN Zero ELSE to,
                        ![i].late = IF to = NoTime THEN Zero ELSE to,
                        ![i].near = IF to = NoTime THEN FALSE ELSE Near(to, t),
                        ![i].fresh = TRUE,
                        ![i].first = IF tim[i].st = "none" THEN to # NoTime ELSE tim[i].first]
  /\ UNCHANGED <<tick, done>>
(* the caller of a recurring schedule learns whether there is a first time *)
Scheduled(i, r) == tim[i].rec /\ r = <<(IF tim[i].first THEN "t" ELSE "nil")>> /\ UNCHANGED vars
(* the wheel starts the task of i; loop: some run loop is active *)
Start(i, t, loop) ==
  /\ tim[i].st = "pending" /\ NotEarly(tim[i].due, t)
  /\ loop \/ tim[i].near
  /\ tim' = [tim EXCEPT ![i].st = "idle", ![i].owed = @ + 1, ![i].fresh = FALSE,
                        ![i].ask = IF tim[i].rec THEN tim[i].due ELSE NoTime]
  /\ UNCHANGED <<tick, done>>
Ran(i) == tim[i].owed > 0 /\ tim' = [tim EXCEPT ![i].owed = @ - 1] /\ UNCHANGED <<tick, done>>
(* stopping: yes exactly when something waited *)
Stop(i, r) == /\ \/ tim[i].st = "pending" /\ r = <<"b", TRUE>> /\ tim' = [tim EXCEPT ![i].st = "idle"]
                 \/ (tim[i].st = "idle" \/ tim[i].fresh) /\ r = <<"b", FALSE>> /\ UNCHANGED tim
              /\ UNCHANGED <<tick, done>>
Cancel(x, r) == r = <<>> /\ done' = done \cup {x} /\ UNCHANGED <<tim, tick>>
(* nothing can run any more at t *)
OnTime(t) == \A i \in Ids : tim[i].st = "pending" => TLe(t, TAdd(tim[i].late, tick))
AllRan == \A i \in Ids : tim[i].owed = 0 /\ tim[i].ask = NoTime
Settle == tim' = [i \in Ids |-> [tim[i] EXCEPT !.fresh = FALSE]] /\ UNCHANGED <<tick, done>>
=============================================================================
