------------------------------ MODULE SpscRing ------------------------------
(* A bounded ring between one producer and one consumer (ringbuffer/fix and  *)
(* ringbuffer/round).  A call looks at the fill level once, at a moment       *)
(* between its start and its end (View), and then takes effect at one moment  *)
(* (Effect) as that level allows.  Only the producer raises the level and     *)
(* only the consumer lowers it, so what was free, or held, then still is.     *)
EXTENDS Ring
VARIABLES pend      \* side -> [c, r, st, seen]: st "open", "seen", "done"
svars == <<vars, pend>>
Idle == [st |-> "idle"]
SInit == pend = <<Idle, Idle>>
Call(s, c, r) == /\ pend[s].st = "idle"
                 /\ pend' = [pend EXCEPT ![s] = [st |-> "open", c |-> c, r |-> r, seen |-> 0, did |-> 0]]
                 /\ UNCHANGED vars
View(s) == /\ pend[s].st = "open"
           /\ pend' = [pend EXCEPT ![s].st = "seen", ![s].seen = Len(q)]
           /\ UNCHANGED vars
Producer(c) == c.op \in {"Push", "MPush"}
Looks(c, r, n) == CASE c.op = "Len" -> r = <<"n", n>>
                    [] c.op = "Avail" -> r = <<"n", cap - n>>
                    [] c.op = "Empty" -> r = <<"b", n = 0>>
                    [] c.op = "Full" -> r = <<"b", n = cap>>
                    [] OTHER -> FALSE
Take(s) == [pend EXCEPT ![s].st = "done"]
Dst(c, k) == [i \in 1..(c.n - k) |-> 0 - 1]
(* a batch may go in or come out in pieces, each piece at its own moment; it *)
(* moves at least as many as the level seen at its start allows              *)
Effect(s) ==
  /\ pend[s].st = "seen"
  /\ LET c == pend[s].c
         r == pend[s].r
         n == pend[s].seen
         d == pend[s].did
         More == [pend EXCEPT ![s].did = d + 1]
     IN CASE c.op = "Push" -> /\ IF n = cap THEN r = <<"panic">> /\ UNCHANGED q ELSE r = <<>> /\ q' = Append(q, c.v)
                              /\ pend' = Take(s)
          [] c.op = "MPush" -> /\ r = <<>>
                               /\ \/ d < Len(c.vs) /\ Len(q) < cap /\ q' = Append(q, c.vs[d + 1]) /\ pend' = More
                                  \/ d >= Min(Len(c.vs), cap - n) /\ UNCHANGED q /\ pend' = Take(s)
          [] c.op = "Pop" -> /\ IF n = 0 THEN r = <<"panic">> /\ UNCHANGED q ELSE r = <<"v", Head(q)>> /\ q' = Tail(q)
                             /\ pend' = Take(s)
          [] c.op = "Peek" -> /\ r = IF n = 0 THEN <<"panic">> ELSE <<"v", Head(q)>>
                              /\ UNCHANGED q /\ pend' = Take(s)
          [] c.op = "MPop" -> \/ /\ d < c.n /\ q # <<>> /\ r[1] = "vs" /\ Len(r[2]) > d /\ r[2][d + 1] = Head(q)
                                 /\ q' = Tail(q) /\ pend' = More
                              \/ /\ d >= Min(c.n, n) /\ r[1] = "vs" /\ Len(r[2]) = d
                                 /\ UNCHANGED q /\ pend' = Take(s)
          [] c.op = "MPopCopy" -> \/ /\ d < c.n /\ q # <<>> /\ r[1] = "vs" /\ r[2][d + 1] = Head(q)
                                     /\ q' = Tail(q) /\ pend' = More
                                  \/ /\ d >= Min(c.n, n) /\ r = <<"vs", SubSeq(r[2], 1, d) \o Dst(c, d)>>
                                     /\ UNCHANGED q /\ pend' = Take(s)
          [] OTHER -> Looks(c, r, n) /\ UNCHANGED q /\ pend' = Take(s)
  /\ UNCHANGED <<kind, cap, last>>
Ret(s) == pend[s].st = "done" /\ pend' = [pend EXCEPT ![s] = Idle] /\ UNCHANGED vars
=============================================================================
