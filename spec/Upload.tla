------------------------------- MODULE Upload -------------------------------
(* Resumable upload (help/utils/breakpoint_continue.go).                     *)
(* chunks: <<upload, file, number>> -> content stored last; result: assembled *)
(* files; torn: chunks whose last store was cut short.  Contents are          *)
(* sequences of symbols, each standing for a fixed block of bytes.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES chunks, torn, result, last
vars == <<chunks, torn, result, last>>
Init == chunks = <<>> /\ torn = {} /\ result = <<>> /\ last = <<>>

Put2(f, k, v) == (k :> v) @@ f
Del(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Nums(d, n) == {k[3] : k \in {x \in DOMAIN chunks : x[1] = d /\ x[2] = n}}
Complete(d, n) == Nums(d, n) # {} /\ Nums(d, n) = 0..(Cardinality(Nums(d, n)) - 1)
RECURSIVE Cat(_, _, _, _)
Cat(d, n, i, m) == IF i = m THEN <<>> ELSE chunks[<<d, n, i>>] \o Cat(d, n, i + 1, m)
Whole(d, n) == Cat(d, n, 0, Cardinality(Nums(d, n)))
TornIn(d, n) == \E k \in torn : k[1] = d /\ k[2] = n

(* one chunk arrives (again): r shows what the file at the returned path holds *)
Put(d, n, k, v, r) == /\ r = <<"v", v>>
                      /\ chunks' = Put2(chunks, <<d, n, k>>, v) /\ torn' = torn \ {<<d, n, k>>}
                      /\ UNCHANGED result
(* no room for the chunk: refused; what is left of it is not a stored chunk *)
PutFull(d, n, k, v, r) == /\ r = <<"err">> 
                          /\ chunks' = Put2(chunks, <<d, n, k>>, v) /\ torn' = torn \cup {<<d, n, k>>}
                          /\ UNCHANGED result
(* assembly; after = what is left under the file's name, <<>> if nothing is *)
Make(d, n, r, after) ==
  /\ UNCHANGED <<chunks, torn>>
  /\ IF Nums(d, n) = {} THEN r = <<"err">> /\ UNCHANGED result
     ELSE IF Complete(d, n) /\ TornIn(d, n)
          THEN result' = (IF after = <<>> THEN Del(result, {n}) ELSE Put2(result, n, after[1]))
     ELSE IF Complete(d, n) THEN r = <<"v", Whole(d, n)>> /\ result' = Put2(result, n, Whole(d, n))
     ELSE r = <<"err">> /\ result' = Del(result, {n})
(* a stored chunk cannot be read, or the result cannot be written in full *)
MakeFault(d, n, r) ==
  /\ UNCHANGED <<chunks, torn>> /\ r = <<"err">>
  /\ result' = IF Nums(d, n) = {} THEN result ELSE Del(result, {n})
(* the process dies while it writes the result *)
Crash(d, n, r, after) ==
  /\ UNCHANGED <<chunks, torn>> /\ r = <<"dead">>
  /\ result' = IF after = <<>> THEN Del(result, {n}) ELSE Put2(result, n, after[1])
Drop(d, r) == /\ r = <<>> /\ chunks' = Del(chunks, {k \in DOMAIN chunks : k[1] = d})
              /\ torn' = {k \in torn : k[1] # d} /\ UNCHANGED result
Check(same, r) == r = <<"b", same>> /\ UNCHANGED <<chunks, torn, result>>

After(n, o) == IF \E i \in DOMAIN o : o[i][1] = n THEN <<o[CHOOSE i \in DOMAIN o : o[i][1] = n][2]>> ELSE <<>>
Do(c, r, o) ==
  /\ CASE c.op = "Put" -> Put(c.d, c.n, c.k, c.v, r)
       [] c.op = "PutFull" -> PutFull(c.d, c.n, c.k, c.v, r)
       [] c.op = "Make" -> Make(c.d, c.n, r, After(c.n, o))
       [] c.op \in {"MakeFull", "MakeHidden"} -> MakeFault(c.d, c.n, r)
       [] c.op = "Crash" -> Crash(c.d, c.n, r, After(c.n, o))
       [] c.op = "Drop" -> Drop(c.d, r)
       [] c.op = "Check" -> Check(c.same, r)
  /\ last' = [c |-> c, r |-> r]
Shown(o, f) == {<<o[i][1], o[i][2]>> : i \in DOMAIN o} = {<<n, f[n]>> : n \in DOMAIN f}
=============================================================================
