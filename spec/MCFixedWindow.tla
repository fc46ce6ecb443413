--------------------------- MODULE MCFixedWindow ---------------------------
(* Time in units; the walks replay a unit as several real lengths.           *)
EXTENDS FixedWindow, TLC, Json
CONSTANTS Limit, Window, MaxT
VARIABLES now, adm      \* adm: every admission as <<time, opening of its window>>
mcvars == <<vars, now, adm>>
MCInit == Init([limit |-> Limit, window |-> <<0, Window>>]) /\ now = 0 /\ adm = <<>>
Adv(d) == now' = now + d /\ Do([op |-> "Adv", d |-> d], <<0, now + d>>, <<>>) /\ UNCHANGED adm
TryNow == \E b \in BOOLEAN : Do([op |-> "Try"], <<0, now>>, <<"b", b>>)
           /\ adm' = (IF b THEN Append(adm, <<now, opened'>>) ELSE adm) /\ UNCHANGED now
MCNext == (\E d \in {1, Window, Window + 1} : Adv(d)) \/ TryNow
Spec == MCInit /\ [][MCNext]_mcvars
Bound == now <= MaxT
View == <<opened, count, now>>
Emit == now' <= MaxT => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* each window's quota is kept, and a window lasts until its length is exceeded *)
Quota == \A i \in 1..Len(adm) :
           Max2(0, Len(SelectSeq(adm, LAMBDA a : a[2] = adm[i][2]))) <= par.limit
           /\ adm[i][1] - adm[i][2][2] <= Window
(* a refusal means the window's quota is used up by admissions of that very window *)
RefusedOnlyWhenUsed == [][(last'.c.op = "Try" /\ last'.r = <<"b", FALSE>>) =>
                            Len(SelectSeq(adm', LAMBDA a : a[2] = opened')) = par.limit]_mcvars
=============================================================================
