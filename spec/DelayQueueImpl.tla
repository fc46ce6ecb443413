--------------------------- MODULE DelayQueueImpl ---------------------------
(* The waiting scheme of DelayQueue, a step per statement: under the mutex a  *)
(* taker looks at the head and remembers the wake-up channel then current; a  *)
(* push of a new head replaces that channel (closing the old one).  A taker   *)
(* waits until its channel is closed, its timer (set for the head it saw)     *)
(* fires, or its context is done.  Elements are <<number, due>>.              *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Takers, Pushes,   \* Pushes: how many elements are pushed in all
          MaxDelay, MaxT, CancelOn
VARIABLES q, chan, pushed, lock, now, pc, saw, mine, got, cancelled, ppc
v == <<q, chan, pushed, lock, now, pc, saw, mine, got, cancelled, ppc>>
Heads == {e \in q : \A x \in q : e[2] <= x[2]}
None == 999
Init == /\ q = {} /\ chan = 0 /\ pushed = 0 /\ lock = "free" /\ now = 0
        /\ pc = [t \in Takers |-> "start"] /\ saw = [t \in Takers |-> None] /\ mine = [t \in Takers |-> 0]
        /\ got = {} /\ cancelled = {} /\ ppc = "idle"
(* push *)
PLock == ppc = "idle" /\ pushed < Pushes /\ lock = "free" /\ lock' = "push" /\ ppc' = "in"
         /\ UNCHANGED <<q, chan, pushed, now, pc, saw, mine, got, cancelled>>
PAdd(d) == LET e == <<pushed + 1, now + d>> IN
           /\ ppc = "in" /\ (now + d <= MaxT \/ d = 0) /\ q' = q \cup {e} /\ pushed' = pushed + 1
           (* the heap keeps an earlier equal on top or not: both may happen *)
           /\ \/ (\A x \in q : e[2] <= x[2]) /\ chan' = chan + 1
              \/ (\E x \in q : x[2] <= e[2]) /\ chan' = chan
           /\ ppc' = "idle" /\ lock' = "free"
           /\ UNCHANGED <<now, pc, saw, mine, got, cancelled>>
(* take *)
TLock(t) == pc[t] \in {"start", "again"} /\ lock = "free" /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "look"]
            /\ UNCHANGED <<q, chan, pushed, now, saw, mine, got, cancelled, ppc>>
TLook(t) == /\ pc[t] = "look" /\ lock' = "free"
            /\ \/ \E e \in Heads : e[2] <= now /\ q' = q \ {e} /\ got' = got \cup {<<e, now>>}
                                   /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<saw, mine>>
               \/ \E e \in Heads : e[2] > now /\ saw' = [saw EXCEPT ![t] = e[2]] /\ mine' = [mine EXCEPT ![t] = chan]
                                   /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<q, got>>
               \/ q = {} /\ saw' = [saw EXCEPT ![t] = None] /\ mine' = [mine EXCEPT ![t] = chan]
                         /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<q, got>>
            /\ UNCHANGED <<chan, pushed, now, cancelled, ppc>>
TWake(t) == pc[t] = "wait" /\ (mine[t] # chan \/ saw[t] <= now) /\ pc' = [pc EXCEPT ![t] = "again"]
            /\ UNCHANGED <<q, chan, pushed, lock, now, saw, mine, got, cancelled, ppc>>
TQuit(t) == pc[t] = "wait" /\ t \in cancelled /\ pc' = [pc EXCEPT ![t] = "quit"]
            /\ UNCHANGED <<q, chan, pushed, lock, now, saw, mine, got, cancelled, ppc>>
Cancel(t) == t \in CancelOn /\ t \notin cancelled /\ cancelled' = cancelled \cup {t}
             /\ UNCHANGED <<q, chan, pushed, lock, now, pc, saw, mine, got, ppc>>
(* time passes whenever; that it need not wait for others covers every delay *)
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<q, chan, pushed, lock, pc, saw, mine, got, cancelled, ppc>>
Run(t) == TLock(t) \/ TLook(t) \/ TWake(t) \/ TQuit(t)
Next == PLock \/ (\E d \in 0..MaxDelay : PAdd(d)) \/ (\E t \in Takers : Run(t) \/ Cancel(t)) \/ Tick
Spec == Init /\ [][Next]_v /\ WF_v(Tick) /\ WF_v(PLock) /\ WF_v(\E d \in 0..MaxDelay : PAdd(d))
        /\ \A t \in Takers : SF_v(TLock(t)) /\ WF_v(TLook(t)) /\ WF_v(TWake(t)) /\ WF_v(TQuit(t))
Once == \A a, b \in got : a[1] = b[1] => a = b
NotEarly == \A a \in got : a[2] >= a[1][2]
(* nothing that can run is left at this instant, yet a taker waits: rightly so *)
Stuck == /\ lock = "free" /\ ppc = "idle"
         /\ \A t \in Takers : pc[t] \in {"end", "quit", "wait"}
         /\ \A t \in Takers : pc[t] = "wait" => ~(mine[t] # chan \/ saw[t] <= now) /\ t \notin cancelled
Rightly == Stuck => \A t \in Takers : pc[t] = "wait" => (\A e \in q : e[2] > now) /\ t \notin cancelled
EverybodyEnds == \A t \in CancelOn : t \in cancelled ~> pc[t] \in {"end", "quit"}
Delivered == <>[](q = {} \/ \A t \in Takers : pc[t] \in {"end", "quit"})
=============================================================================
