------------------------------ MODULE MCGuards ------------------------------
(* every text up to MaxLen over characters of every kind: the requirement can be met (by the rule    *)
(* written in the code's comments, without what a browser ignores), and not by that rule alone        *)
EXTENDS Guards, TLC
CONSTANT MaxLen
Alphabet == {47, 92, 46, 97, 9, 32, 58}
VARIABLE s
MCInit == Init /\ s = <<>>
Grow == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Next == Grow /\ UNCHANGED last
Spec == MCInit /\ [][Next]_<<s, last>>
Commented == Len(s) >= 2 /\ s[1] = 47 /\ s[2] \notin Slashes
Rule == Commented /\ \A i \in DOMAIN s : s[i] \notin Ignored
SiteMet == SameSite(s, Rule)
PathMet == Malicious(s, (s # <<>> /\ s[1] = Slash) \/ TwoDots(s))
ASSUME ~ SameSite(<<47, 9, 47, 97>>, TRUE)
ASSUME ~ Malicious(<<97, 47, 46, 46, 47, 46, 46>>, FALSE) /\ Stays(<<97, 47, 46, 46>>) /\ ~Stays(<<47, 97>>)
=============================================================================
