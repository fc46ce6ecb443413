----------------------------- MODULE DequeStack -----------------------------
(* Deques (common/container/deque) and stacks (common/container/stack):     *)
(* each object is the sequence of the values it holds, front/bottom first.  *)
EXTENDS Naturals, Sequences
CONSTANT Objs
VARIABLES dq, st, last
vars == <<dq, st, last>>
Init == dq = [o \in Objs |-> <<>>] /\ st = [o \in Objs |-> <<>>] /\ last = <<>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

PushFront(o, v, r) == r = <<>> /\ dq' = [dq EXCEPT ![o] = <<v>> \o @] /\ UNCHANGED st
PushBack(o, v, r)  == r = <<>> /\ dq' = [dq EXCEPT ![o] = Append(@, v)] /\ UNCHANGED st
PopFront(o, r) == /\ UNCHANGED st
  /\ IF dq[o] = <<>> THEN r = <<"panic">> /\ UNCHANGED dq
     ELSE r = <<"v", Head(dq[o])>> /\ dq' = [dq EXCEPT ![o] = Tail(@)]
PopBack(o, r) == /\ UNCHANGED st
  /\ IF dq[o] = <<>> THEN r = <<"panic">> /\ UNCHANGED dq
     ELSE r = <<"v", Last(dq[o])>> /\ dq' = [dq EXCEPT ![o] = Front(@)]
Push(o, v, r) == r = <<>> /\ st' = [st EXCEPT ![o] = Append(@, v)] /\ UNCHANGED dq
Pop(o, r) == /\ UNCHANGED dq
  /\ IF st[o] = <<>> THEN r = <<"panic">> /\ UNCHANGED st
     ELSE r = <<"v", Last(st[o])>> /\ st' = [st EXCEPT ![o] = Front(@)]
Peek(o, r) == /\ UNCHANGED <<dq, st>>
  /\ r = IF st[o] = <<>> THEN <<"panic">> ELSE <<"v", Last(st[o])>>

Do(c, r) ==
  /\ CASE c.op = "PushFront" -> PushFront(c.o, c.v, r)
       [] c.op = "PushBack" -> PushBack(c.o, c.v, r)
       [] c.op = "PopFront" -> PopFront(c.o, r)
       [] c.op = "PopBack" -> PopBack(c.o, r)
       [] c.op = "Push" -> Push(c.o, c.v, r)
       [] c.op = "Pop" -> Pop(c.o, r)
       [] c.op = "Peek" -> Peek(c.o, r)
  /\ last' = [c |-> c, r |-> r]
ObsOf(s) == [len |-> Len(s), empty |-> (s = <<>>)]
Obs == [d |-> [o \in Objs |-> ObsOf(dq'[o])], s |-> [o \in Objs |-> ObsOf(st'[o])]]
=============================================================================
