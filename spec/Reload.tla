------------------------------- MODULE Reload -------------------------------
(* Reload (help/utils/sys.go): the caller asks its parent process, with the hang-up signal, to  *)
(* reload.  got[p]: hang-ups process p has got; odd: other signals that any process has got.     *)
(* c.kill: what becomes of the system's kill program in the caller's environment.  Whether the   *)
(* program is used at all is left open; that an answer of success and the signal go together is not. *)
EXTENDS Naturals, Sequences
VARIABLES got, odd, last
vars == <<got, odd, last>>
Procs == {"parent", "caller", "bystander"}
Init == got = [p \in Procs |-> 0] /\ odd = 0 /\ last = <<>>
Ways == {"works", "none", "fails", "crashes"}
Do(c, r) ==
  /\ CASE c.op = "Reload" -> IF r = <<"ok">> THEN got' = [got EXCEPT !["parent"] = @ + 1]
                             ELSE r = <<"err">> /\ c.kill # "works" /\ UNCHANGED got
       [] c.op = "End" -> r = <<"v">> /\ UNCHANGED got
  /\ UNCHANGED odd
  /\ last' = [c |-> c, r |-> r]
(* what the processes have counted: parent, other signals of the parent, all of the bystander *)
Obs == <<got["parent"], odd, got["bystander"]>>
=============================================================================
