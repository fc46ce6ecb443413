-------------------------------- MODULE Zip --------------------------------
(* ZipFiles and Unzip (help/utils/zip.go).  Names are sequences of character *)
(* codes.  src: files that can be packed; arch: what the archive holds, a      *)
(* sequence of [n, dir, v]; tree: everything below the destination directory, *)
(* path (sequence of names) -> <<"d">> or <<"f", content>>; Home: where the   *)
(* destination lies.  What lies outside is recorded as one flag per event.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Home
VARIABLES src, arch, tree, last
vars == <<src, arch, tree, last>>
Arch(k, es) == [k |-> k, es |-> es]
NoArch == Arch("none", <<>>)
Init == src = <<>> /\ arch = NoArch /\ tree = <<>> /\ last = <<>>

Slash == 47
Dot == 46
Put2(f, k, v) == (k :> v) @@ f
Front(s) == SubSeq(s, 1, Len(s) - 1)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* a name as the names between its slashes *)
RECURSIVE Segments(_, _)
Segments(n, cur) == IF n = <<>> THEN <<cur>>
                    ELSE IF Head(n) = Slash THEN <<cur>> \o Segments(Tail(n), <<>>)
                    ELSE Segments(Tail(n), Append(cur, Head(n)))
(* follow it from the destination: where it ends, and whether it ever left on the way *)
RECURSIVE Walk(_, _, _)
Walk(at, segs, left) ==
  IF segs = <<>> THEN <<at, left>>
  ELSE LET s == Head(segs) IN
       IF s = <<>> \/ s = <<Dot>> THEN Walk(at, Tail(segs), left)
       ELSE IF s = <<Dot, Dot>> THEN
              LET up == IF at = <<>> THEN at ELSE Front(at) IN Walk(up, Tail(segs), left \/ ~Prefix(Home, up))
       ELSE Walk(Append(at, s), Tail(segs), left)
End(n) == Walk(Home, Segments(n, <<>>), FALSE)
Inside(n) == Prefix(Home, End(n)[1])
Wanders(n) == Inside(n) /\ End(n)[2]             \* leaves and comes back
Below(n) == SubSeq(End(n)[1], Len(Home) + 1, Len(End(n)[1]))

(* every occurrence of old replaced *)
RECURSIVE Replace(_, _, _)
Replace(s, old, new) == IF old = <<>> \/ Len(s) < Len(old) THEN s
                        ELSE IF Prefix(old, s) THEN new \o Replace(SubSeq(s, Len(old) + 1, Len(s)), old, new)
                        ELSE <<Head(s)>> \o Replace(Tail(s), old, new)

(* one entry onto a tree: <<>> if it cannot be *)
IsDirAt(t, p) == p = <<>> \/ (p \in DOMAIN t /\ t[p][1] = "d")
CanMk(t, p) == \A i \in 1..Len(p) : LET q == SubSeq(p, 1, i) IN q \notin DOMAIN t \/ t[q][1] = "d"
Mk(t, p) == [q \in {SubSeq(p, 1, i) : i \in 1..Len(p)} |-> <<"d">>] @@ t
Enter(t, p, isdir, v) ==
  IF isdir THEN (IF CanMk(t, p) THEN <<Mk(t, p)>> ELSE <<>>)
  ELSE IF p = <<>> \/ IsDirAt(t, p) \/ ~CanMk(t, Front(p)) THEN <<>>
  ELSE <<Put2(Mk(t, Front(p)), p, <<"f", v>>)>>
RECURSIVE All(_, _)
All(t, es) == IF es = <<>> THEN <<t>>
              ELSE IF ~Inside(Head(es).n) THEN <<>>
              ELSE LET u == Enter(t, Below(Head(es).n), Head(es).dir, Head(es).v) IN
                   IF u = <<>> THEN <<>> ELSE All(u[1], Tail(es))

Src(n, v, r) == r = <<>> /\ src' = Put2(src, n, v) /\ UNCHANGED <<arch, tree>>
Pre(n, isdir, v, r) ==
  LET u == Enter(tree, Below(n), isdir, v) IN
  /\ UNCHANGED <<src, arch>>
  /\ IF u = <<>> THEN r = <<"err">> /\ UNCHANGED tree ELSE r = <<>> /\ tree' = u[1]
(* packing; r: what a reference reader finds in the archive *)
Packed(fs, old, new) == [i \in DOMAIN fs |-> [n |-> Replace(fs[i], old, new), dir |-> FALSE, v |-> src[fs[i]]]]
ZipIt(fs, old, new, r) ==
  /\ UNCHANGED <<src, tree>>
  /\ IF \A i \in DOMAIN fs : fs[i] \in DOMAIN src
     THEN r = <<"v", Packed(fs, old, new)>> /\ arch' = Arch("ok", Packed(fs, old, new))
     ELSE r = <<"err">> /\ arch' = NoArch
ZipFull(r) == r = <<"err">> /\ arch' = NoArch /\ UNCHANGED <<src, tree>>
Raw(es, r) == r = <<>> /\ arch' = Arch("ok", es) /\ UNCHANGED <<src, tree>>
(* the archive made unreadable: not an archive, or one whose content does not match its check sum *)
Spoil(r) == r = <<>> /\ arch' = Arch("spoilt", <<>>) /\ UNCHANGED <<src, tree>>
SpoilData(r) == r = <<>> /\ arch' = Arch("lying", <<>>) /\ UNCHANGED <<src, tree>>
(* unpacking; seen: the tree afterwards *)
Unzip(r, seen) ==
  /\ UNCHANGED <<src, arch>> /\ arch.k # "none"
  /\ IF arch.k = "spoilt" THEN r = <<"err">> /\ UNCHANGED tree
     ELSE IF arch.k = "lying" THEN r = <<"err">> /\ tree' = seen
     ELSE LET u == All(tree, arch.es) IN
          IF u = <<>> THEN r = <<"err">> /\ tree' = seen
          ELSE \/ r = <<"v", [i \in DOMAIN arch.es |-> Below(arch.es[i].n)]>> /\ tree' = u[1]
               \/ r = <<"err">> /\ tree' = seen /\ \E i \in DOMAIN arch.es : Wanders(arch.es[i].n)
UnzipFull(r, seen) == r = <<"err">> /\ tree' = seen /\ UNCHANGED <<src, arch>>

Do(c, r, seen) ==
  /\ CASE c.op = "Src" -> Src(c.n, c.v, r)
       [] c.op = "Pre" -> Pre(c.n, c.dir, c.v, r)
       [] c.op = "Zip" -> ZipIt(c.fs, c.old, c.new, r)
       [] c.op = "ZipFull" -> ZipFull(r)
       [] c.op = "Raw" -> Raw(c.es, r)
       [] c.op = "Spoil" -> Spoil(r)
       [] c.op = "SpoilData" -> SpoilData(r)
       [] c.op = "Unzip" -> Unzip(r, seen)
       [] c.op = "UnzipFull" -> UnzipFull(r, seen)
  /\ last' = [c |-> c, r |-> r]
=============================================================================
