------------------------------ MODULE MCShell ------------------------------
EXTENDS Shell
CONSTANT MaxParts
PartSet == {[k |-> "out", t |-> "a", n |-> 1], [k |-> "out", t |-> "b", n |-> 2], [k |-> "err", t |-> "a", n |-> 1],
            [k |-> "err", t |-> "c", n |-> 1], [k |-> "ok"], [k |-> "fail"], [k |-> "exit", n |-> 0], [k |-> "exit", n |-> 3]}
Cmds == UNION {[1..n -> PartSet] : n \in 0..MaxParts}
Calls == {[op |-> "Run", q |-> q] : q \in Cmds}
Res(c) == Ans(c.q)
Next == \E c \in Calls : Do(c, Res(c))
Spec == Init /\ [][Next]_vars
View == 0 * Len(<<last>>)
(* the declarative reading of the property *)
Ran(q) == LET E == {i \in 1..Len(q) : q[i].k = "exit"} IN
          IF E = {} THEN Len(q) ELSE CHOOSE i \in E : \A j \in E : i <= j
RECURSIVE Lines(_, _, _)
Lines(q, k, n) == IF n = 0 THEN <<>> ELSE Lines(q, k, n - 1) \o (IF q[n].k = k THEN [i \in 1..q[n].n |-> q[n].t] ELSE <<>>)
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE [i \in 1..Head(x)[2] |-> Head(x)[1]] \o Flat(Tail(x))
OkEnd(q) == LET n == Ran(q) IN n = 0 \/ ~(q[n].k = "fail" \/ (q[n].k = "exit" /\ q[n].n # 0))
Good == [][LET q == last'.c.q IN
           IF OkEnd(q) THEN last'.r[1] = "v" /\ Flat(last'.r[2]) = Lines(q, "out", Ran(q))
           ELSE last'.r[1] = "err" /\ Flat(last'.r[2]) = Lines(q, "err", Ran(q))]_vars
=============================================================================
