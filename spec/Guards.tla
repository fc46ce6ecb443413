------------------------------- MODULE Guards -------------------------------
(* IsSameSiteURLPath and IsMaliciousPath (help/utils/files.go).  Texts are    *)
(* sequences of byte values.  What an admitted text leads to is decided here  *)
(* by resolving it, as a browser resolves a reference on a page of the site   *)
(* and as a file system resolves a name below a directory.                    *)
EXTENDS Naturals, Sequences
VARIABLE last
vars == <<last>>
Init == last = <<>>

Slash == 47
Absolute(s) == IF s = <<>> THEN FALSE ELSE s[1] = Slash
Slashes == {47, 92}                      \* a browser takes either
Lower == 97..122
Upper == 65..90
Digit == 48..57
(* a reference: spaces and controls around it go, tabs and line breaks anywhere *)
Ignored == {9, 10, 13}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] <= 32 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] <= 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Seen(s) == SelectSeq(TrimR(TrimL(s)), LAMBDA c : c \notin Ignored)
NamesHost(q) == Len(q) >= 2 /\ q[1] \in Slashes /\ q[2] \in Slashes
NamesScheme(q) == \E i \in 2..Len(q) : /\ q[i] = 58 /\ q[1] \in Lower \cup Upper
                                       /\ \A j \in 2..(i - 1) : q[j] \in Lower \cup Upper \cup Digit \cup {43, 45, 46}
LeavesSite(s) == LET q == Seen(s) IN NamesHost(q) \/ NamesScheme(q)
(* what surely is a path of the site *)
Plain(s) == /\ Len(s) >= 2 /\ s[1] = Slash /\ s[2] \notin Slashes
            /\ \A i \in DOMAIN s : s[i] \in 33..126
SameSite(s, b) == /\ b => ~LeavesSite(s) /\ Absolute(s)
                  /\ Plain(s) => b

(* a name: components, where .. goes up *)
RECURSIVE Parts(_, _)
Parts(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF s[1] = Slash THEN <<cur>> \o Parts(Tail(s), <<>>)
                 ELSE Parts(Tail(s), Append(cur, s[1]))
Up == <<46, 46>>
RECURSIVE Depth(_, _)
(* the least depth reached below the directory, plus one; 0: outside *)
Depth(ps, d) == IF ps = <<>> THEN TRUE
                ELSE IF Head(ps) = Up THEN d > 0 /\ Depth(Tail(ps), d - 1)
                ELSE IF Head(ps) \in {<<>>, <<46>>} THEN Depth(Tail(ps), d)
                ELSE Depth(Tail(ps), d + 1)
Stays(s) == ~Absolute(s) /\ Depth(Parts(s, <<>>), 0)
TwoDots(s) == \E i \in 1..(Len(s) - 1) : s[i] = 46 /\ s[i + 1] = 46
Malicious(s, b) == /\ ~b => Stays(s)
                   /\ b => Absolute(s) \/ TwoDots(s)

Do(c, r) == /\ \/ c.op = "Site" /\ SameSite(c.s, r[2])
               \/ c.op = "Path" /\ Malicious(c.s, r[2])
            /\ last' = [c |-> c, r |-> r]
=============================================================================
