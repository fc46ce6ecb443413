------------------------------ MODULE WheelImpl -----------------------------
(* The timing wheel as the code runs it: hierarchical wheels of buckets, a    *)
(* queue of the buckets that hold timers, a loop that opens them when due.    *)
(* One step per statement that another goroutine can notice.  Times are in    *)
(* milliseconds, the wheel's tick is one.  Refines TimingWheel.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Size, Levels, MaxT, Delays,
          Variant           \* "code", or a mistake this model must notice
VARIABLES now,
          cur, made,        \* current time of each wheel; how many wheels exist
          exp, hold, lock,  \* of a bucket <<wheel, place>>: due instant (-1: not queued), its timers, who holds its mutex
          q, wake,          \* queued buckets, pending wake-up
          readers, writer,  \* the wheel's read-write lock
          texp, tb,         \* of a timer: its instant, the bucket it believes to be in
          pc, lv,           \* AfterFunc: place, wheel it is trying
          spc, sb, sres,    \* Stop: place, bucket found, answer so far
          rpc, rb, todo, rt, rl, saw,   \* the loop
          started, near
sched == <<texp, pc, lv, near>>
stopv == <<spc, sb, sres>>
loopv == <<rpc, rb, todo, rt, rl, saw>>
wheelv == <<cur, made>>
queuev == <<q, wake>>
locks == <<readers, writer>>
v == <<now, wheelv, exp, hold, lock, queuev, locks, sched, tb, stopv, loopv, started>>
RECURSIVE TickOf(_)
TickOf(l) == IF l = 1 THEN 1 ELSE Size * TickOf(l - 1)
Buckets == (1..Levels) \X (0..(Size - 1))
None == <<0, 0>>
NoSaw == 999
Trunc(x, t) == x - (x % t)
Init == /\ now = 0
        /\ cur = [l \in 1..Levels |-> 0] /\ made = 1
        /\ exp = [b \in Buckets |-> -1] /\ hold = [b \in Buckets |-> {}] /\ lock = [b \in Buckets |-> "free"]
        /\ q = {} /\ wake = FALSE /\ readers = {} /\ writer = FALSE
        /\ texp = [i \in Ids |-> -1] /\ tb = [i \in Ids |-> None]
        /\ pc = [i \in Ids |-> "idle"] /\ lv = [i \in Ids |-> 0]
        /\ spc = [i \in Ids |-> "idle"] /\ sb = [i \in Ids |-> None] /\ sres = [i \in Ids |-> FALSE]
        /\ rpc = "wait" /\ rb = None /\ todo = {} /\ rt = 0 /\ rl = 0 /\ saw = NoSaw
        /\ started = [i \in Ids |-> 0] /\ near = [i \in Ids |-> FALSE]

(* where timer i goes from wheel l: "run", "here" or "up" *)
Where(i, l) == IF texp[i] < cur[l] + TickOf(l) THEN "run"
               ELSE IF texp[i] < cur[l] + TickOf(l) * Size THEN "here" ELSE "up"
Slot(i, l) == <<l, (texp[i] \div TickOf(l)) % Size>>
Due(i, l) == (texp[i] \div TickOf(l)) * TickOf(l)
MakeUp(l) == IF made = l THEN /\ made' = l + 1 /\ cur' = [cur EXCEPT ![l + 1] = Trunc(cur[l], TickOf(l + 1))]
             ELSE UNCHANGED wheelv
Earliest(b) == \A x \in q : exp[b] <= exp[x]
Push(b) == q' = q \cup {b} /\ (wake' = TRUE \/ (wake' = wake /\ \E x \in q : exp[x] <= exp[b]))
           /\ ((\A x \in q : exp[b] < exp[x]) => wake' = TRUE)

(* AfterFunc *)
Call(i, d) == /\ pc[i] = "idle" /\ now + d < TickOf(Levels + 1) /\ texp' = [texp EXCEPT ![i] = now + d] /\ pc' = [pc EXCEPT ![i] = "rlock"]
              /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, lv, near, tb, stopv, loopv, started>>
RLock(i) == /\ pc[i] = "rlock" /\ ~writer /\ readers' = readers \cup {i}
            /\ pc' = [pc EXCEPT ![i] = "try"] /\ lv' = [lv EXCEPT ![i] = 1]
            /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, writer, texp, near, tb, stopv, loopv, started>>
Up(i) == /\ pc[i] = "try" /\ Where(i, lv[i]) = "up" /\ MakeUp(lv[i]) /\ lv' = [lv EXCEPT ![i] = @ + 1]
         /\ UNCHANGED <<now, exp, hold, lock, queuev, locks, texp, pc, near, tb, stopv, loopv, started>>
(* in a wheel above, what would run at once is of the wheel below *)
AtOnce(i) == /\ pc[i] = "try" /\ Where(i, lv[i]) = "run"
             /\ pc' = [pc EXCEPT ![i] = "run"] /\ near' = [near EXCEPT ![i] = texp[i] <= now + 1]
             /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, texp, lv, tb, stopv, loopv, started>>
Run(i) == /\ pc[i] = "run" /\ started' = [started EXCEPT ![i] = @ + 1] /\ pc' = [pc EXCEPT ![i] = "unlock"]
          /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, texp, lv, near, tb, stopv, loopv>>
Add(i) == LET b == Slot(i, lv[i]) IN
          /\ pc[i] = "try" /\ Where(i, lv[i]) = "here" /\ lock[b] = "free"
          /\ hold' = [hold EXCEPT ![b] = @ \cup {i}] /\ tb' = [tb EXCEPT ![i] = b]
          /\ pc' = [pc EXCEPT ![i] = "exp"] /\ near' = [near EXCEPT ![i] = texp[i] <= now + 1]
          /\ UNCHANGED <<now, wheelv, exp, lock, queuev, locks, texp, lv, stopv, loopv, started>>
Set(i) == LET b == Slot(i, lv[i]) IN
          /\ pc[i] = "exp" /\ exp' = [exp EXCEPT ![b] = Due(i, lv[i])]
          /\ pc' = [pc EXCEPT ![i] = IF exp[b] # Due(i, lv[i]) THEN "push" ELSE "unlock"]
          /\ UNCHANGED <<now, wheelv, hold, lock, queuev, locks, texp, lv, near, tb, stopv, loopv, started>>
Enqueue(i) == /\ pc[i] = "push" /\ Push(Slot(i, lv[i])) /\ pc' = [pc EXCEPT ![i] = "unlock"]
              /\ UNCHANGED <<now, wheelv, exp, hold, lock, locks, texp, lv, near, tb, stopv, loopv, started>>
RUnlock(i) == /\ pc[i] = "unlock" /\ readers' = readers \ {i} /\ pc' = [pc EXCEPT ![i] = "done"]
              /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, writer, texp, lv, near, tb, stopv, loopv, started>>
After(i) == RLock(i) \/ Up(i) \/ AtOnce(i) \/ Run(i) \/ Add(i) \/ Set(i) \/ Enqueue(i) \/ RUnlock(i)

(* Stop: only who has the timer can stop it *)
SCall(i) == /\ pc[i] = "done" /\ spc[i] = "idle" /\ spc' = [spc EXCEPT ![i] = "get"]
            /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, sched, tb, sb, sres, loopv, started>>
SGet(i) == /\ spc[i] = "get" /\ sb' = [sb EXCEPT ![i] = tb[i]]
           /\ spc' = [spc EXCEPT ![i] = IF tb[i] = None THEN "end" ELSE "lock"]
           /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, sched, tb, sres, loopv, started>>
SLook(i) == LET b == sb[i] IN
            /\ spc[i] = "lock" /\ lock[b] = "free"
            /\ IF tb[i] # b THEN sres' = [sres EXCEPT ![i] = FALSE] /\ UNCHANGED <<hold, tb>>
               ELSE /\ sres' = [sres EXCEPT ![i] = TRUE] /\ hold' = [hold EXCEPT ![b] = @ \ {i}]
                    /\ tb' = [tb EXCEPT ![i] = None]
            /\ spc' = [spc EXCEPT ![i] = "get"]
            /\ UNCHANGED <<now, wheelv, exp, lock, queuev, locks, sched, sb, loopv, started>>
Stop(i) == SGet(i) \/ SLook(i)

(* the loop *)
Front(b) == b \in q /\ Earliest(b)
LWait == /\ rpc = "wait"
         /\ \/ q # {} /\ (\E b \in q : Front(b) /\ now > exp[b]) /\ rpc' = "wlock" /\ UNCHANGED saw
            \/ q # {} /\ (\E b \in q : Front(b) /\ now <= exp[b] /\ saw' = exp[b]) /\ rpc' = "asleep"
            \/ q = {} /\ saw' = NoSaw /\ rpc' = "asleep"
         /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, sched, tb, stopv, rb, todo, rt, rl, started>>
LWoken == /\ rpc = "asleep" /\ rpc' = "wait"
          /\ \/ wake /\ wake' = FALSE
             \/ saw # NoSaw /\ now > saw /\ UNCHANGED wake
          /\ UNCHANGED <<now, wheelv, exp, hold, lock, q, locks, sched, tb, stopv, rb, todo, rt, rl, saw, started>>
LLock == /\ rpc = "wlock" /\ readers = {} /\ writer' = TRUE /\ rpc' = "pop"
         /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, readers, sched, tb, stopv, rb, todo, rt, rl, saw, started>>
RECURSIVE Advanced(_, _, _)
Advanced(c, l, e) == IF l > made THEN c
                     ELSE IF e >= c[l] + TickOf(l) THEN Advanced([c EXCEPT ![l] = Trunc(e, TickOf(l))], l + 1, Trunc(e, TickOf(l)))
                     ELSE c
LPop == /\ rpc = "pop"
        /\ \/ \E b \in q : /\ Front(b) /\ now > exp[b] /\ q' = q \ {b} /\ rb' = b /\ rpc' = "open"
                           /\ cur' = Advanced(cur, 1, exp[b]) /\ UNCHANGED locks
           \/ (\A b \in q : Front(b) => now <= exp[b]) /\ rpc' = "wait" /\ writer' = FALSE /\ UNCHANGED <<q, rb, cur, readers>>
        /\ UNCHANGED <<now, made, exp, hold, lock, wake, sched, tb, stopv, todo, rt, rl, saw, started>>
LOpen == /\ rpc = "open" /\ lock[rb] = "free" /\ lock' = [lock EXCEPT ![rb] = "loop"]
         /\ todo' = hold[rb] /\ rpc' = "next"
         /\ UNCHANGED <<now, wheelv, exp, hold, queuev, locks, sched, tb, stopv, rb, rt, rl, saw, started>>
LNext == /\ rpc = "next"
         /\ \/ \E i \in todo : rt' = i /\ rl' = 1 /\ todo' = todo \ {i} /\ rpc' = "try" /\ UNCHANGED <<exp, hold, lock>>
            \/ todo = {} /\ rpc' = "pop" /\ exp' = [exp EXCEPT ![rb] = -1] /\ hold' = [hold EXCEPT ![rb] = {}]
               /\ lock' = [lock EXCEPT ![rb] = "free"] /\ UNCHANGED <<todo, rt, rl>>
         /\ UNCHANGED <<now, wheelv, queuev, locks, sched, tb, stopv, rb, saw, started>>
LUp == /\ rpc = "try" /\ Where(rt, rl) = "up" /\ MakeUp(rl) /\ rl' = rl + 1
       /\ UNCHANGED <<now, exp, hold, lock, queuev, locks, sched, tb, stopv, rpc, rb, todo, rt, saw, started>>
LRun == /\ rpc = "try" /\ Where(rt, rl) = "run" /\ started' = [started EXCEPT ![rt] = @ + 1] /\ tb' = [tb EXCEPT ![rt] = None]
        /\ rpc' = "next"
        /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, sched, stopv, rb, todo, rt, rl, saw>>
LAdd == LET b == Slot(rt, rl) IN
        /\ rpc = "try" /\ Where(rt, rl) = "here" /\ lock[b] = "free"
        /\ hold' = [hold EXCEPT ![b] = @ \cup {rt}] /\ tb' = [tb EXCEPT ![rt] = b] /\ rpc' = "exp"
        /\ UNCHANGED <<now, wheelv, exp, lock, queuev, locks, sched, stopv, rb, todo, rt, rl, saw, started>>
LSet == LET b == Slot(rt, rl) IN
        /\ rpc = "exp" /\ exp' = [exp EXCEPT ![b] = Due(rt, rl)] /\ rpc' = IF exp[b] # Due(rt, rl) THEN "push" ELSE "next"
        /\ UNCHANGED <<now, wheelv, hold, lock, queuev, locks, sched, tb, stopv, rb, todo, rt, rl, saw, started>>
LPush == /\ rpc = "push" /\ Push(Slot(rt, rl)) /\ rpc' = "next"
         /\ UNCHANGED <<now, wheelv, exp, hold, lock, locks, sched, tb, stopv, rb, todo, rt, rl, saw, started>>
Loop == LWait \/ LWoken \/ LLock \/ LPop \/ LOpen \/ LNext \/ LUp \/ LRun \/ LAdd \/ LSet \/ LPush
Pass == now < MaxT /\ now' = now + 1
        /\ UNCHANGED <<wheelv, exp, hold, lock, queuev, locks, sched, tb, stopv, loopv, started>>

(* mistakes, one per variant *)
Wrong == \/ Variant = "clearfirst" /\ rpc = "next" /\ \E i \in todo : tb[i] = rb /\ tb' = [tb EXCEPT ![i] = None]
            /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, locks, sched, stopv, loopv, started>>
         \/ Variant = "nolock" /\ \E i \in Ids : /\ pc[i] = "rlock" /\ writer /\ readers' = readers \cup {i}
                                                 /\ pc' = [pc EXCEPT ![i] = "try"] /\ lv' = [lv EXCEPT ![i] = 1]
            /\ UNCHANGED <<now, wheelv, exp, hold, lock, queuev, writer, texp, near, tb, stopv, loopv, started>>
         \/ Variant = "nowake" /\ \E i \in Ids : pc[i] = "push" /\ q' = q \cup {Slot(i, lv[i])} /\ pc' = [pc EXCEPT ![i] = "unlock"]
            /\ UNCHANGED <<now, wheelv, exp, hold, lock, wake, locks, texp, lv, near, tb, stopv, loopv, started>>
Next == (\E i \in Ids : (\E d \in Delays : Call(i, d)) \/ After(i) \/ SCall(i) \/ Stop(i)) \/ Loop \/ Pass \/ Wrong
Spec == Init /\ [][Next]_v
Fair == /\ WF_v(Loop) /\ WF_v(Pass)
        /\ \A i \in Ids : SF_v(RLock(i)) /\ SF_v(Add(i)) /\ SF_v(SLook(i))
        /\ \A i \in Ids : WF_v(Up(i) \/ AtOnce(i) \/ Run(i) \/ Set(i) \/ Enqueue(i) \/ RUnlock(i)) /\ WF_v(SGet(i))
        /\ SF_v(LLock) /\ SF_v(LOpen) /\ SF_v(LAdd)
LiveSpec == Spec /\ Fair
Sym == Permutations(Ids)

Enough == Levels >= 1 /\ made <= Levels
Once == \A i \in Ids : started[i] <= 1
(* what the buckets rely on *)
Queued == /\ \A b \in q : exp[b] # -1 /\ exp[b] >= cur[1]
          /\ \A b \in Buckets : hold[b] # {} => \/ b \in q
                                                \/ rpc \in {"open", "next", "try", "exp", "push"} /\ (rb = b \/ (rpc \in {"exp", "push"} /\ b = Slot(rt, rl)))
                                                \/ \E i \in Ids : pc[i] \in {"exp", "push"} /\ Slot(i, lv[i]) = b
          /\ \A b \in Buckets : \A i \in hold[b] : b \in q => exp[b] <= texp[i] /\ texp[i] < exp[b] + TickOf(b[1])
Home == \A i \in Ids : /\ Cardinality({b \in Buckets : i \in hold[b] /\ b # rb}) <= 1
                       /\ tb[i] # None => i \in hold[tb[i]]
(* stopping: an answer yes means never, an answer no means it runs (or ran) *)
Decided == \A i \in Ids : spc[i] = "end" => started[i] = (IF sres[i] THEN 0 ELSE 1) /\ tb[i] = None
(* nothing more can run now: nothing is late *)
Calm == /\ rpc = "asleep" /\ ~wake /\ (saw = NoSaw \/ now <= saw)
        /\ \A i \in Ids : pc[i] \in {"idle", "done"} /\ spc[i] \in {"idle", "end"}
Late(i) == tb[i] # None /\ now > texp[i] + 1
OnTime == Calm => \A i \in Ids : ~Late(i)
NeverStuck == \A i \in Ids : /\ pc[i] = "rlock" ~> pc[i] = "done"
                             /\ spc[i] = "get" ~> spc[i] = "end"

(* the specification the recorded histories are held against *)
Bar(i) == [st |-> IF pc[i] \in {"run", "exp", "push"} \/ (pc[i] \in {"unlock", "done"} /\ tb[i] # None) THEN "pending"
                  ELSE IF pc[i] \in {"unlock", "done"} THEN "idle" ELSE "none",
           due |-> <<0, 0>>, late |-> <<0, 0>>, rec |-> FALSE, ask |-> <<>>, owed |-> started[i],
           near |-> FALSE, fresh |-> FALSE, first |-> TRUE]
TimBar == [i \in Ids |-> LET b == Bar(i) IN
             IF b.st = "pending" THEN [b EXCEPT !.due = <<0, texp[i]>>, !.late = <<0, texp[i]>>, !.near = near[i]]
             ELSE IF b.st = "idle" THEN [b EXCEPT !.due = <<0, texp[i]>>, !.late = <<0, texp[i]>>, !.near = near[i]] ELSE b]
T == INSTANCE TimingWheel WITH tim <- TimBar, tick <- <<0, 1>>, done <- {}
At == <<0, now>>
Abstract == \E i \in Ids : \/ \E d \in Delays : texp[i] >= d /\ T!After(i, <<0, d>>, <<0, texp[i] - d>>, <<0, texp[i] - d>>, At, <<>>)
                           \/ T!Start(i, At, TRUE)
                           \/ \E yes \in BOOLEAN : T!Stop(i, <<"b", yes>>)
Refines == [][Abstract]_TimBar
=============================================================================
