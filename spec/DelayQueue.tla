----------------------------- MODULE DelayQueue -----------------------------
(* common/timer/delayqueue.  els: what waits, [v, exp]; done: the contexts    *)
(* cancelled; chans: readers of due elements, each with what it has taken     *)
(* and not handed over yet (size of them in its buffer and one in its hand).  *)
EXTENDS Time, Sequences
VARIABLES els, done, chans, last
vars == <<els, done, chans, last>>
Init == els = {} /\ done = {} /\ chans = <<>> /\ last = <<>>
Due(e, t) == TLe(e.exp, t)
Earliest(e) == e \in els /\ \A x \in els : TLe(e.exp, x.exp)
AnyDue(t) == \E e \in els : Due(e, t)
Remove(e) == els' = els \ {e}
(* the delay counts from an instant b within the call *)
Push(v, d, b, r) == r = <<>> /\ els' = els \cup {[v |-> v, exp |-> TAdd(b, d)]} /\ UNCHANGED <<done, chans>>
TakeOne(t, r) == \E e \in els : Earliest(e) /\ Due(e, t) /\ r = <<"v", e.v>> /\ Remove(e)
Pop(t, r) == /\ UNCHANGED <<done, chans>>
             /\ IF AnyDue(t) THEN TakeOne(t, r) ELSE r = <<"none">> /\ UNCHANGED els
Take(x, t, r) == /\ UNCHANGED <<done, chans>>
                 /\ \/ TakeOne(t, r)
                    \/ r = <<"none">> /\ x \in done /\ UNCHANGED els
Peek(r) == /\ UNCHANGED <<els, done, chans>>
           /\ IF els = {} THEN r = <<"none">> ELSE \E e \in els : Earliest(e) /\ r = <<"v", e.v>>
Empty(r) == r = <<"b", els = {}>> /\ UNCHANGED <<els, done, chans>>
Cancel(x, r) == r = <<>> /\ done' = done \cup {x} /\ UNCHANGED <<els, chans>>
Channel(x, size, r) == /\ r = <<>> /\ UNCHANGED <<els, done>>
                       /\ chans' = Append(chans, [x |-> x, size |-> size, buf |-> <<>>, closed |-> FALSE])
Recv(i, r) ==
  /\ UNCHANGED <<els, done>>
  /\ LET c == chans[i] IN
     \/ c.buf # <<>> /\ r = <<"v", Head(c.buf)>> /\ chans' = [chans EXCEPT ![i].buf = Tail(@)]
     \/ c.buf = <<>> /\ c.closed /\ r = <<"closed">> /\ UNCHANGED chans
(* the reader behind channel i *)
Reads(i) == ~chans[i].closed /\ Len(chans[i].buf) <= chans[i].size
Fetch(i, t) == /\ Reads(i) /\ UNCHANGED <<done, last>>
               /\ \E e \in els : /\ Earliest(e) /\ Due(e, t) /\ Remove(e)
                                 /\ chans' = [chans EXCEPT ![i].buf = Append(@, e.v)]
Close(i) == /\ Reads(i) /\ chans[i].x \in done
            /\ chans' = [chans EXCEPT ![i].closed = TRUE] /\ UNCHANGED <<els, done, last>>
Do(c, t, b, r) ==
  /\ CASE c.op = "Push" -> Push(c.v, c.d, b, r)
       [] c.op = "Pop" -> Pop(t, r)
       [] c.op = "Take" -> Take(c.x, t, r)
       [] c.op = "Peek" -> Peek(r)
       [] c.op = "Empty" -> Empty(r)
       [] c.op = "Cancel" -> Cancel(c.x, r)
       [] c.op = "Channel" -> Channel(c.x, c.size, r)
       [] c.op = "Recv" -> Recv(c.ch, r)
       [] c.op = "Adv" -> r = <<>> /\ UNCHANGED <<els, done, chans>>
  /\ last' = [c |-> c, r |-> r, t |-> t]
(* nothing can run any more at t: who may still wait *)
MayWait(c, t) == \/ c.op = "Take" /\ ~AnyDue(t) /\ c.x \notin done
                 \/ c.op = "Recv" /\ chans[c.ch].buf = <<>> /\ ~chans[c.ch].closed
ReadersIdle(t) == \A i \in 1..Len(chans) : Reads(i) => ~AnyDue(t) /\ chans[i].x \notin done
(* each element is in one place at most *)
Once == \A i \in 1..Len(chans) : \A j \in 1..Len(chans[i].buf) : \A e \in els : e.v # chans[i].buf[j]
=============================================================================
