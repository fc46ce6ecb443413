--------------------------- MODULE MCLeakyBucket ---------------------------
(* Half-second units.                                                       *)
EXTENDS LeakyBucket, TLC, Json
CONSTANTS Peak, Rate, MaxT
VARIABLES now, adm
mcvars == <<vars, now, adm>>
At(k) == <<k \div 2, (k % 2) * 500000000>>
MCInit == Init([peak |-> Peak, rate |-> Rate]) /\ now = 0 /\ adm = <<>>
Adv(d) == now' = now + d /\ Do([op |-> "Adv", d |-> d], At(now + d), <<>>) /\ UNCHANGED adm
TryNow == \E b \in BOOLEAN : Do([op |-> "Try"], At(now), <<"b", b>>)
           /\ adm' = (IF b THEN Append(adm, now) ELSE adm) /\ UNCHANGED now
MCNext == (\E d \in {1, 3} : Adv(d)) \/ TryNow
Spec == MCInit /\ [][MCNext]_mcvars
Bound == now <= MaxT
View == <<level, fell, now>>
FullView == <<level, fell, now, adm>>
Emit == now' <= MaxT => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* no period admits more than the peak plus what can have drained in it *)
Rateful == \A i, j \in 1..Len(adm) : i <= j => j - i + 1 <= Peak + Rate * ((adm[j] - adm[i] + 2) \div 2)
=============================================================================
