------------------------------ MODULE RandStr ------------------------------
(* RandStr (help/utils/rand.go).  seen[k][i]: the characters that class k has  *)
(* produced at place i of a string.  Whatever it draws from the class is right; *)
(* after Enough draws at a place everything has to have occurred there.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Digits, Lowers, Uppers, Enough
VARIABLES seen, drawn, last
vars == <<seen, drawn, last>>
Kinds == 0..3    \* 3 stands for every other class number
Kind(k) == IF k \in 0..2 THEN k ELSE 3
Class(k) == CASE k = 0 -> Digits [] k = 1 -> Lowers [] k = 2 -> Uppers [] OTHER -> Digits \cup Lowers \cup Uppers
Init == seen = [k \in Kinds |-> <<>>] /\ drawn = [k \in Kinds |-> <<>>] /\ last = <<>>
At(f, i, d) == IF i <= Len(f) THEN f[i] ELSE d
Max2(a, b) == IF a > b THEN a ELSE b
Draw(k, n, s) ==
  /\ Len(s) = n /\ \A i \in 1..n : s[i] \in Class(k)
  /\ seen' = [seen EXCEPT ![k] = [i \in 1..Max2(n, Len(seen[k])) |-> At(seen[k], i, {}) \cup (IF i <= n THEN {s[i]} ELSE {})]]
  /\ drawn' = [drawn EXCEPT ![k] = [i \in 1..Max2(n, Len(drawn[k])) |-> At(drawn[k], i, 0) + (IF i <= n THEN 1 ELSE 0)]]
(* many strings of n characters at once, seen place by place *)
DrawMany(k, n, m, sets) ==
  /\ Len(sets) = n /\ \A i \in 1..n : sets[i] \subseteq Class(k) /\ sets[i] # {}
  /\ seen' = [seen EXCEPT ![k] = [i \in 1..Max2(n, Len(seen[k])) |-> At(seen[k], i, {}) \cup (IF i <= n THEN sets[i] ELSE {})]]
  /\ drawn' = [drawn EXCEPT ![k] = [i \in 1..Max2(n, Len(drawn[k])) |-> At(drawn[k], i, 0) + (IF i <= n THEN m ELSE 0)]]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Do(c, r) == /\ CASE c.op = "Rand" -> r[1] = "v" /\ Draw(Kind(c.kind), c.n, r[2])
                 [] c.op = "Many" -> r[1] = "sets" /\ DrawMany(Kind(c.kind), c.n, c.m, [i \in 1..Len(r[2]) |-> ToSet(r[2][i])])
            /\ last' = [c |-> c, r |-> r]
Full == \A k \in Kinds : \A i \in 1..Len(seen[k]) : drawn[k][i] >= Enough => seen[k][i] = Class(k)
Inside == \A k \in Kinds : \A i \in 1..Len(seen[k]) : seen[k][i] \subseteq Class(k)
=============================================================================
