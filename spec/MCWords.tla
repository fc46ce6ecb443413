------------------------------ MODULE MCWords -------------------------------
(* what the definitions promise, over every short text *)
EXTENDS Words
CONSTANT MaxLen
MapsC == {1}
Alphabet == {47, 46, 48, 97}
VARIABLE s
MCInit == Init /\ s = <<>>
Next == Len(s) < MaxLen /\ (\E c \in Alphabet : s' = Append(s, c)) /\ UNCHANGED vars
Spec == MCInit /\ [][Next]_<<s, vars>>
Texts == {<<>>, <<48>>, <<97>>, <<47, 97>>, <<97, 47>>}
UrlShape == \A k, v \in Texts : LET u == Url(s, <<k, v>>) IN
              /\ u # <<>> => u[1] = Slash /\ u[Len(u)] # Slash
              \* a separator at either end of the prefix makes no difference, nor does a text without partner
              /\ u = Url(<<Slash>> \o s, <<k, v>>) /\ u = Url(s \o <<Slash>>, <<k, v>>) /\ u = Url(s, <<k, v, v>>)
SuffixShape == \A seg \in {<<46>>, <<46, 97>>} : LET x == Suffix(s, seg) IN
              /\ Places(x, seg) = {}
              /\ Places(s, seg) # {} => \E p \in 0..Len(s) : s = SubSeq(s, 1, p) \o seg \o x
(* cutting in two loses nothing *)
CutShape == \A a \in 0..Len(s) : Cut(s, 0, a) \o Cut(s, a, Len(s)) = s /\ Len(Cut(s, a, Len(s))) = Len(s) - a
(* a directory's name is absolute and plain, and a program in it has it as its directory *)
HomeShape == LET h == HomeDir(s, <<47, 97>>) IN
  /\ h[1] = Slash
  /\ \A x \in {Comps(h, <<>>)[i] : i \in 2..Len(Comps(h, <<>>))} : x \notin Dots \/ h = <<Slash>>
  /\ HomeDir(h \o <<Slash, 97>>, <<47>>) = h
ASSUME DayPath(0) = <<49, 57, 55, 48, 47, 48, 49, 47, 48, 49>>
ASSUME DayPath(11016) = <<50, 48, 48, 48, 47, 48, 50, 47, 50, 57>>
ASSUME DayPath(47540) = <<50, 49, 48, 48, 47, 48, 50, 47, 50, 56>> /\ DayPath(47541) = <<50, 49, 48, 48, 47, 48, 51, 47, 48, 49>>
=============================================================================
