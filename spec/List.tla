-------------------------------- MODULE List --------------------------------
(* Doubly linked lists (common/container/list): the abstract state of each  *)
(* list is the sequence of the element handles it holds; val maps a handle  *)
(* to its value.  Handles are numbered in order of creation.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Lists
VARIABLES seq,   \* [Lists -> Seq(handle)]
          val,   \* Seq(value), indexed by handle
          last   \* last call and result (observation only)
vars == <<seq, val, last>>

Handles == 1..Len(val)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Owned(e, L) == e \in RangeOf(seq[L])
Pos(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
InsAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))   \* e ends up at position i
New == Len(val) + 1
Grow(L, at, v) == /\ seq' = [seq EXCEPT ![L] = InsAt(@, at, New)]
                  /\ val' = Append(val, v)
Same == UNCHANGED <<seq, val>>
Handle == <<"h", New>>

Init == /\ seq = [L \in Lists |-> <<>>] /\ val = <<>> /\ last = <<>>

PushFront(L, v, r) == r = Handle /\ Grow(L, 1, v)
PushBack(L, v, r)  == r = Handle /\ Grow(L, Len(seq[L]) + 1, v)
InsertBefore(L, v, m, r) ==
  IF Owned(m, L) THEN r = Handle /\ Grow(L, Pos(seq[L], m), v) ELSE r = <<"nil">> /\ Same
InsertAfter(L, v, m, r) ==
  IF Owned(m, L) THEN r = Handle /\ Grow(L, Pos(seq[L], m) + 1, v) ELSE r = <<"nil">> /\ Same
Remove(L, e, r) == /\ r = <<"v", val[e]>>        \* the value is returned even for a foreign handle
                   /\ seq' = [seq EXCEPT ![L] = Without(@, e)] /\ UNCHANGED val
RemoveFront(L, r) ==
  IF seq[L] = <<>> THEN r = <<"panic">> /\ Same
  ELSE r = <<"v", val[seq[L][1]]>> /\ seq' = [seq EXCEPT ![L] = Tail(@)] /\ UNCHANGED val
RemoveBack(L, r) ==
  IF seq[L] = <<>> THEN r = <<"panic">> /\ Same
  ELSE r = <<"v", val[seq[L][Len(seq[L])]]>> /\ seq' = [seq EXCEPT ![L] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED val
MoveToFront(L, e, r) == /\ r = <<>> /\ UNCHANGED val
  /\ seq' = IF Owned(e, L) THEN [seq EXCEPT ![L] = <<e>> \o Without(@, e)] ELSE seq
MoveToBack(L, e, r) == /\ r = <<>> /\ UNCHANGED val
  /\ seq' = IF Owned(e, L) THEN [seq EXCEPT ![L] = Append(Without(@, e), e)] ELSE seq
MoveBefore(L, e, m, r) == /\ r = <<>> /\ UNCHANGED val
  /\ seq' = IF Owned(e, L) /\ Owned(m, L) /\ e # m
            THEN [seq EXCEPT ![L] = LET s == Without(@, e) IN InsAt(s, Pos(s, m), e)] ELSE seq
MoveAfter(L, e, m, r) == /\ r = <<>> /\ UNCHANGED val
  /\ seq' = IF Owned(e, L) /\ Owned(m, L) /\ e # m
            THEN [seq EXCEPT ![L] = LET s == Without(@, e) IN InsAt(s, Pos(s, m) + 1, e)] ELSE seq
Copies(M) == [i \in 1..Len(seq[M]) |-> Len(val) + i]
CopyVals(M) == [i \in 1..Len(seq[M]) |-> val[seq[M][i]]]
PushBackList(L, M, r)  == r = <<>> /\ seq' = [seq EXCEPT ![L] = @ \o Copies(M)] /\ val' = val \o CopyVals(M)
PushFrontList(L, M, r) == r = <<>> /\ seq' = [seq EXCEPT ![L] = Copies(M) \o @] /\ val' = val \o CopyVals(M)
Clear(L, r) == r = <<>> /\ seq' = [seq EXCEPT ![L] = <<>>] /\ UNCHANGED val

Do(c, r) ==
  /\ CASE c.op = "PushFront" -> PushFront(c.l, c.v, r)
       [] c.op = "PushBack" -> PushBack(c.l, c.v, r)
       [] c.op = "InsertBefore" -> InsertBefore(c.l, c.v, c.m, r)
       [] c.op = "InsertAfter" -> InsertAfter(c.l, c.v, c.m, r)
       [] c.op = "Remove" -> Remove(c.l, c.e, r)
       [] c.op = "RemoveFront" -> RemoveFront(c.l, r)
       [] c.op = "RemoveBack" -> RemoveBack(c.l, r)
       [] c.op = "MoveToFront" -> MoveToFront(c.l, c.e, r)
       [] c.op = "MoveToBack" -> MoveToBack(c.l, c.e, r)
       [] c.op = "MoveBefore" -> MoveBefore(c.l, c.e, c.m, r)
       [] c.op = "MoveAfter" -> MoveAfter(c.l, c.e, c.m, r)
       [] c.op = "PushBackList" -> PushBackList(c.l, c.m, r)
       [] c.op = "PushFrontList" -> PushFrontList(c.l, c.m, r)
       [] c.op = "Clear" -> Clear(c.l, r)
  /\ last' = [c |-> c, r |-> r]

(* Everything visible of the lists: each element once, forwards; backwards   *)
(* is its reverse; length; detached handles lead nowhere.                    *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ObsList(s, v) == [fwd |-> [i \in 1..Len(s) |-> <<s[i], v[s[i]]>>], bwd |-> Rev(s), len |-> Len(s),
                  empty |-> (s = <<>>)]

(* Invariants of the design *)
TypeOK == \A L \in Lists : RangeOf(seq[L]) \subseteq Handles
OneOwner == \A L, M \in Lists : L # M => RangeOf(seq[L]) \cap RangeOf(seq[M]) = {}
NoDup == \A L \in Lists : Cardinality(RangeOf(seq[L])) = Len(seq[L])
=============================================================================
