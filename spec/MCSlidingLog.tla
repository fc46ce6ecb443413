--------------------------- MODULE MCSlidingLog ---------------------------
EXTENDS SlidingLog, TLC, Json
CONSTANTS Strats, MaxB, MaxOps, Named
WinStrats == {[limit |-> 2, w |-> 3]}
LogStrats == {[limit |-> 3, w |-> 4], [limit |-> 2, w |-> 2]}
VARIABLES now, n
mcvars == <<vars, now, n>>
MCInit == /\ strat = [o \in Objs |-> Strats] /\ log = [o \in Objs |-> <<>>] /\ last = <<>> /\ now = 0 /\ n = 0
Adv(d) == now' = now + d /\ Do([op |-> "Adv", d |-> d], now + d, <<>>) /\ UNCHANGED n
Res == IF Named THEN {<<"ok">>} \cup {<<"viol", s.limit, s.w>> : s \in Strats} ELSE {<<"b", TRUE>>, <<"b", FALSE>>}
TryNow == \E o \in Objs : \E r \in Res : Do([op |-> IF Named THEN "Try" ELSE "TryB", o |-> o], now, r) /\ n' = n + 1 /\ UNCHANGED now
MCNext == (\E d \in {1, 2} : Adv(d)) \/ TryNow
Spec == MCInit /\ [][MCNext]_mcvars
Bound == now <= MaxB /\ n <= MaxOps
View == <<log, now, n>>
WView == <<log, now>>
Emit == now' <= MaxB => PrintT(ToJson([f |-> WView, t |-> WView', c |-> last'.c]))
=============================================================================
