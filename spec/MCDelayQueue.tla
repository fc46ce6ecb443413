---------------------------- MODULE MCDelayQueue ----------------------------
(* One user of a delay queue, time in units; what it sees (Seen) is checked   *)
(* against the history of pushes alone.                                       *)
EXTENDS DelayQueue, FiniteSets, TLC, Json
CONSTANTS MaxEls, Delays, MaxV
VARIABLES now, n, out     \* out: what left, as <<v, when, due>>
mcvars == <<vars, now, n, out>>
T == <<now, 0>>
Results == {<<>>, <<"none">>, <<"b", TRUE>>, <<"b", FALSE>>} \cup {<<"v", e.v>> : e \in els}
Leave(r) == out' = IF r # <<>> /\ r[1] = "v" THEN Append(out, <<r[2], now', (CHOOSE e \in els : e.v = r[2]).exp[1]>>) ELSE out
MCInit == Init /\ now = 0 /\ n = 0 /\ out = <<>>
PushD(d) == Do([op |-> "Push", v |-> n + 1, d |-> <<0 + d, 0>>], T, T, <<>>) /\ n' = n + 1 /\ UNCHANGED <<now, out>>
Other(c) == \E r \in Results : Do(c, T, T, r) /\ UNCHANGED <<now, n>> /\ (IF c.op = "Pop" THEN Leave(r) ELSE UNCHANGED out)
(* a take waits for the first element, or for nothing when cancelled *)
First == CHOOSE t \in {e.exp[1] : e \in els} : \A e \in els : t <= e.exp[1]
TakeIt == /\ els # {} \/ 1 \in done
          /\ now' = (IF els # {} /\ 1 \notin done /\ First > now THEN First ELSE now)
          /\ \E r \in Results : Do([op |-> "Take", x |-> 1], <<now', 0>>, <<now', 0>>, r) /\ Leave(r)
          /\ UNCHANGED n
Adv == now' = now + 1 /\ Do([op |-> "Adv", n |-> 1], T, T, <<>>) /\ UNCHANGED <<n, out>>
MCNext == \/ \E d \in Delays : PushD(d)
          \/ \E o \in {"Pop", "Peek", "Empty"} : Other([op |-> o])
          \/ Other([op |-> "Cancel", x |-> 1])
          \/ TakeIt \/ Adv
Spec == MCInit /\ [][MCNext]_mcvars
Bound == Cardinality(els) <= MaxEls /\ n <= MaxV
Clamp(x) == IF x > 3 THEN 3 ELSE IF x < -3 THEN -3 ELSE x
View == <<{<<d, Cardinality({e \in els : Clamp(e.exp[1] - now) = d})>> : d \in -3..3}, done>>
Emit == Cardinality(els') <= MaxEls => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
NotEarly == \A i \in 1..Len(out) : out[i][2] >= out[i][3]
OnceOut == \A i, j \in 1..Len(out) : i # j => out[i][1] # out[j][1]
(* what stays is due no earlier than what was let go *)
InOrder == [][Len(out') > Len(out) => \A e \in els' : e.exp[1] >= out'[Len(out')][3]]_mcvars
=============================================================================
