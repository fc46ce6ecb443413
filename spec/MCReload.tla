------------------------------ MODULE MCReload ------------------------------
EXTENDS Reload
CONSTANT Max
Next == got["parent"] < Max /\ \E k \in Ways, r \in {<<"ok">>, <<"err">>} : Do([op |-> "Reload", kill |-> k], r)
Spec == Init /\ [][Next]_vars
OnlyParent == odd = 0 /\ \A p \in Procs \ {"parent"} : got[p] = 0
(* success and signal go together *)
Together == [][(last'.r = <<"ok">>) = (got'["parent"] = got["parent"] + 1)]_vars
(* nothing stands in the way: it is done *)
Done == [][last'.c.kill = "works" => got'["parent"] = got["parent"] + 1]_vars
=============================================================================
