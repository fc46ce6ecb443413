--------------------------- MODULE MCTokenBucket ---------------------------
EXTENDS TokenBucket, TLC, Json
CONSTANTS Cap, Rate, MaxT
VARIABLES now, adm
mcvars == <<vars, now, adm>>
At(k) == <<k \div 2, (k % 2) * 500000000>>
MCInit == Init([cap |-> Cap, rate |-> Rate]) /\ now = 0 /\ adm = <<>>
Adv(d) == now' = now + d /\ Do([op |-> "Adv", d |-> d], At(now + d), <<>>) /\ UNCHANGED adm
TryNow == \E b \in BOOLEAN : Do([op |-> "Try"], At(now), <<"b", b>>)
           /\ adm' = (IF b THEN Append(adm, now) ELSE adm) /\ UNCHANGED now
MCNext == (\E d \in {1, 3} : Adv(d)) \/ TryNow
Spec == MCInit /\ [][MCNext]_mcvars
Bound == now <= MaxT
View == <<tokens, issued, now>>
FullView == <<tokens, issued, now, adm>>
Emit == now' <= MaxT => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* every period admits at most the capacity plus what was issued in it; from the start, only what was issued *)
Rateful == /\ \A i, j \in 1..Len(adm) : i <= j => j - i + 1 <= Cap + Rate * ((adm[j] - adm[i] + 2) \div 2)
           /\ \A j \in 1..Len(adm) : j <= Rate * (adm[j] \div 2)
=============================================================================
