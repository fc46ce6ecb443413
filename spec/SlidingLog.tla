----------------------------- MODULE SlidingLog -----------------------------
(* common/limiter/sliding_window (one strategy) and sliding_log (several).   *)
(* Objs: independent limiters.  strat[o]: set of [limit, w], w the window as *)
(* a number of small windows; log[o]: small-window index of each success.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Objs
VARIABLES strat, log, last
vars == <<strat, log, last>>
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Init == strat = [o \in Objs |-> {}] /\ log = [o \in Objs |-> <<>>] /\ last = <<>>
InWindow(o, b, w) == Cardinality({i \in 1..Len(log[o]) : log[o][i] > b - w /\ log[o][i] <= b})
Exhausted(o, b) == {s \in strat[o] : InWindow(o, b, s.w) >= s.limit}

(* ss: sequence of [limit, w, whole]; whole: the window is a whole number of small windows *)
Refuse(ss) == \/ ss = <<>>
              \/ \E i \in 1..Len(ss) : ~ss[i].whole
              \/ \E i, j \in 1..Len(ss) : ss[i].w < ss[j].w /\ ss[i].limit >= ss[j].limit
Doubtful(ss) == \E i, j \in 1..Len(ss) : i < j /\ ss[i].w = ss[j].w /\ ss[i].limit = ss[j].limit  \* twice the same
New(o, ss, r) ==
  /\ IF Refuse(ss) THEN r = <<"err">> ELSE (r = <<"ok">> \/ (Doubtful(ss) /\ r = <<"err">>))
  /\ IF r = <<"ok">> THEN /\ strat' = [strat EXCEPT ![o] = {[limit |-> ss[i].limit, w |-> ss[i].w] : i \in 1..Len(ss)}]
                          /\ log' = [log EXCEPT ![o] = <<>>]
     ELSE UNCHANGED <<strat, log>>
Admit(o, b) == log' = [log EXCEPT ![o] = Append(@, b)]
(* yes/no answer (sliding window) *)
TryBool(o, b, r) == /\ r = <<"b", Exhausted(o, b) = {}>> /\ UNCHANGED strat
                    /\ IF Exhausted(o, b) = {} THEN Admit(o, b) ELSE UNCHANGED log
(* the refusal names an exhausted strategy with the longest window *)
TryNamed(o, b, r) ==
  LET X == Exhausted(o, b) IN
  /\ UNCHANGED strat
  /\ IF X = {} THEN r = <<"ok">> /\ Admit(o, b)
     ELSE \E s \in X : r = <<"viol", s.limit, s.w>> /\ (\A x \in X : x.w <= s.w) /\ UNCHANGED log
Do(c, b, r) ==
  /\ CASE c.op = "New" -> New(c.o, c.ss, r)
       [] c.op = "Try" -> strat[c.o] # {} /\ TryNamed(c.o, b, r)
       [] c.op = "TryB" -> strat[c.o] # {} /\ TryBool(c.o, b, r)
       [] c.op = "None" -> strat[c.o] = {} /\ r = <<>> /\ UNCHANGED <<strat, log>>
       [] c.op = "Adv" -> r = <<>> /\ UNCHANGED <<strat, log>>
  /\ last' = [c |-> c, r |-> r, b |-> b]
(* no run of w consecutive small windows ever holds more than the limit *)
Bounded == \A o \in Objs : \A s \in strat[o] : \A i \in 1..Len(log[o]) :
             InWindow(o, log[o][i] + s.w - 1, s.w) <= s.limit
=============================================================================
