-------------------------------- MODULE Ring --------------------------------
(* Ring buffers.  kind "fixed" (ringbuffer/fix), "pow2" (ringbuffer/round)  *)
(* and "grow" (ringbuffer/unbounded): a FIFO queue q and a capacity.         *)
EXTENDS Naturals, Sequences
VARIABLES kind, q, cap, last
vars == <<kind, q, cap, last>>
Bounded == kind # "grow"
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Free == cap - Len(q)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
CapFor(k, n) == IF k = "pow2" THEN CHOOSE p \in Pow2 : p >= n /\ \A x \in Pow2 : x >= n => p <= x ELSE n

Create(k, n) == kind = k /\ q = <<>> /\ cap = CapFor(k, n) /\ last = <<>>
(* nc: the capacity afterwards; only the growable ring may change it, and only upwards *)
Capacity(need, nc) == IF Bounded THEN nc = cap ELSE nc >= Max(cap, need)
Keep(nc) == nc = cap /\ UNCHANGED q
Push(v, r, nc) ==
  IF Bounded /\ Free = 0 THEN r = <<"panic">> /\ Keep(nc)
  ELSE r = <<>> /\ q' = Append(q, v) /\ Capacity(Len(q) + 1, nc)
MPush(vs, r, nc) ==
  LET n == IF Bounded THEN Min(Len(vs), Free) ELSE Len(vs) IN
  r = <<>> /\ q' = q \o SubSeq(vs, 1, n) /\ Capacity(Len(q) + n, nc)
Pop(r, nc) == /\ nc = cap
  /\ IF q = <<>> THEN r = <<"panic">> /\ UNCHANGED q ELSE r = <<"v", Head(q)>> /\ q' = Tail(q)
Peek(r, nc) == Keep(nc) /\ r = IF q = <<>> THEN <<"panic">> ELSE <<"v", Head(q)>>
MPop(n, r, nc) == LET k == Min(n, Len(q)) IN
  nc = cap /\ r = <<"vs", SubSeq(q, 1, k)>> /\ q' = SubSeq(q, k + 1, Len(q))
(* reads into a buffer of n cells holding -1; cells beyond what is read stay as they were *)
MPopCopy(n, r, nc) == LET k == Min(n, Len(q)) IN
  /\ nc = cap /\ q' = SubSeq(q, k + 1, Len(q))
  /\ r = <<"vs", SubSeq(q, 1, k) \o [i \in 1..(n - k) |-> 0 - 1]>>
Reset(r, nc) == r = <<>> /\ nc = cap /\ q' = <<>>
Grow(n, r, nc) == ~Bounded /\ r = <<>> /\ UNCHANGED q /\ Capacity(n, nc)
BadNew(r, nc) == r = <<"panic">> /\ Keep(nc)

Do(c, r, nc) ==
  /\ UNCHANGED kind /\ cap' = nc
  /\ CASE c.op = "Push" -> Push(c.v, r, nc)
       [] c.op = "MPush" -> MPush(c.vs, r, nc)
       [] c.op = "Pop" -> Pop(r, nc)
       [] c.op = "Peek" -> Peek(r, nc)
       [] c.op = "MPop" -> MPop(c.n, r, nc)
       [] c.op = "MPopCopy" -> MPopCopy(c.n, r, nc)
       [] c.op = "Reset" -> Reset(r, nc)
       [] c.op = "Grow" -> Grow(c.n, r, nc)
       [] c.op = "BadNew" -> BadNew(r, nc)
       [] c.op = "BigNew" -> r = <<>> /\ Keep(nc)
  /\ last' = [c |-> c, r |-> r]
ObsOf == [len |-> Len(q'), cap |-> cap', avail |-> cap' - Len(q'), empty |-> (q' = <<>>), full |-> (Len(q') = cap'),
          peek |-> IF q' = <<>> THEN <<"panic">> ELSE <<"v", q'[1]>>]
NeverOverfull == Len(q) <= cap
=============================================================================
