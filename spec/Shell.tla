------------------------------- MODULE Shell -------------------------------
(* ShellExec (help/utils/cmd.go).  A command text is a sequence of parts: out / err (n lines  *)
(* of text t on that stream), ok and fail (a status, nothing else), exit (leave with status    *)
(* n), cat (reads what input there is).  One state of the shell per execution: its streams,    *)
(* its status, whether it has left.  Executions share nothing.                                 *)
EXTENDS Naturals, Sequences
VARIABLES last
vars == <<last>>
Init == last = <<>>
Join(q, t, n) == IF n = 0 THEN q
                 ELSE IF q # <<>> /\ q[Len(q)][1] = t THEN [q EXCEPT ![Len(q)] = <<t, @[2] + n>>]
                 ELSE Append(q, <<t, n>>)
Fresh == [out |-> <<>>, err |-> <<>>, status |-> 0, left |-> FALSE]
Part(s, p) ==
  IF s.left THEN s
  ELSE CASE p.k = "out" -> [s EXCEPT !.out = Join(@, p.t, p.n), !.status = 0]
         [] p.k = "err" -> [s EXCEPT !.err = Join(@, p.t, p.n), !.status = 0]
         [] p.k = "ok" -> [s EXCEPT !.status = 0]
         [] p.k = "fail" -> [s EXCEPT !.status = 1]
         [] p.k = "exit" -> [s EXCEPT !.status = p.n, !.left = TRUE]
RECURSIVE Parts(_, _)
Parts(s, q) == IF q = <<>> THEN s ELSE Parts(Part(s, Head(q)), Tail(q))
Ans(q) == LET s == Parts(Fresh, q) IN IF s.status = 0 THEN <<"v", s.out>> ELSE <<"err", s.err>>

Do(c, r) == /\ CASE c.op = "Run" -> r = Ans(c.q)
                 [] c.op = "Par" -> Len(r) = Len(c.qs) /\ \A i \in 1..Len(c.qs) : r[i] = Ans(c.qs[i])
                 \* a command that reads its input: the input of the caller is not there
                 [] c.op = "Cat" -> r = <<"hidden">>
            /\ last' = [c |-> c, r |-> r]
=============================================================================
