------------------------------ MODULE FileTree ------------------------------
(* The file helpers of help/utils/files.go on an ideal tree.                 *)
(* fs: path (sequence of names) -> <<"d">>, <<"f", content>> or                *)
(* <<"l", path>>, a symbolic link to that path from the root; the root is       *)
(* always there.  Size: bytes each content symbol stands for.  dig: digests    *)
(* seen so far.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Size
VARIABLES fs, dig, last
vars == <<fs, dig, last>>
Init == fs = <<>> /\ dig = <<>> /\ last = <<>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Has(t, p) == p = <<>> \/ p \in DOMAIN t
Dir(t, p) == p = <<>> \/ (p \in DOMAIN t /\ t[p][1] = "d")
File(t, p) == p \in DOMAIN t /\ t[p][1] = "f"
Link(t, p) == p \in DOMAIN t /\ t[p][1] = "l"

(* where a path leads: <<"at", place>>, its directory being there; <<"gone">>:  *)
(* no such directory; <<"below">>: its directory is a file; <<"loop">>: too     *)
(* many links.  Links on the way are followed, the last one if follow.         *)
RECURSIVE Way(_, _, _, _, _)
Way(t, done, rest, follow, fuel) ==
  IF rest = <<>> THEN <<"at", done>> ELSE
  LET x == Append(done, Head(rest)) final == Len(rest) = 1 IN
  IF x \notin DOMAIN t THEN IF final THEN <<"at", x>> ELSE <<"gone">>
  ELSE IF Link(t, x) /\ (~final \/ follow)
       THEN IF fuel = 0 THEN <<"loop">> ELSE Way(t, <<>>, t[x][2] \o Tail(rest), follow, fuel - 1)
  ELSE IF File(t, x) /\ ~final THEN <<"below">>
  ELSE Way(t, x, Tail(rest), follow, fuel)
Full(t, p) == Way(t, <<>>, p, TRUE, 40)     \* what it names
Self(t, p) == Way(t, <<>>, p, FALSE, 40)    \* the entry itself
IsD(t, p) == Full(t, p)[1] = "at" /\ Dir(t, Full(t, p)[2])
IsF(t, p) == Full(t, p)[1] = "at" /\ File(t, Full(t, p)[2])
There(t, p) == Full(t, p)[1] = "at" /\ Has(t, Full(t, p)[2])

(* the directory that making p makes, or <<"no">>: nothing is made through a    *)
(* link that leads to no directory                                            *)
RECURSIVE Spot(_, _, _)
Spot(t, done, rest) ==
  IF rest = <<>> THEN <<"at", done>> ELSE
  LET x == Append(done, Head(rest)) IN
  IF x \notin DOMAIN t THEN <<"at", done \o rest>>
  ELSE IF File(t, x) THEN <<"no">>
  ELSE IF Link(t, x) THEN IF IsD(t, t[x][2]) THEN Spot(t, Full(t, t[x][2])[2], Tail(rest)) ELSE <<"no">>
  ELSE Spot(t, x, Tail(rest))
Made(t, p) == IF Full(t, p)[1] = "loop" THEN <<"no">> ELSE Spot(t, <<>>, p)
Mk(t, p) == [q \in {SubSeq(p, 1, i) : i \in 1..Len(p)} |-> <<"d">>] @@ t
Set(t, p, v) == (p :> <<"f", v>>) @@ t
Sub(t, p) == {q \in DOMAIN t : Prefix(p, q)}
Without(t, qs) == [q \in DOMAIN t \ qs |-> t[q]]
RECURSIVE Bytes(_)
Bytes(v) == IF v = <<>> THEN 0
            ELSE IF Head(v) = -1 THEN v[2]            \* the cut rest of a symbol
            ELSE Size[Head(v)] + Bytes(Tail(v))
(* t and u agree everywhere but at p *)
SameBut(t, u, p) == Without(t, {p}) = Without(u, {p})
CanWrite(t, p) == /\ Full(t, p)[1] = "at"
                  /\ LET x == Full(t, p)[2] IN x # <<>> /\ ~Dir(t, x)
ERR == <<"err">>

Put(p, v, r) == IF CanWrite(fs, p) THEN r = <<>> /\ fs' = Set(fs, Full(fs, p)[2], v) ELSE r = ERR /\ UNCHANGED fs
MakeLink(p, q, r) ==
  LET x == Self(fs, p) IN
  IF x[1] = "at" /\ ~Has(fs, x[2]) THEN r = <<>> /\ fs' = (x[2] :> <<"l", q>>) @@ fs ELSE r = ERR /\ UNCHANGED fs

(* seen: the tree afterwards, wherever the outcome is left open *)
CopyFile(dst, src, r, seen) ==
  IF IsF(fs, src) /\ CanWrite(fs, dst)
  THEN LET v == fs[Full(fs, src)[2]][2] IN r = <<"v", Bytes(v)>> /\ fs' = Set(fs, Full(fs, dst)[2], v)
  ELSE /\ r = ERR
       /\ IF IsD(fs, src) /\ CanWrite(fs, dst) THEN SameBut(seen, fs, Full(fs, dst)[2]) /\ fs' = seen ELSE UNCHANGED fs
CopyFull(dst, src, r, seen) == r = ERR /\ SameBut(seen, fs, Full(fs, dst)[2]) /\ fs' = seen

Moved(t, src, dst) ==
  LET u == Without(t, Sub(t, src) \cup {dst})
      to(q) == dst \o SubSeq(q, Len(src) + 1, Len(q)) IN
  [x \in {to(q) : q \in Sub(t, src)} |-> t[src \o SubSeq(x, Len(dst) + 1, Len(x))]] @@ u
Move(src, dst, r) ==
  IF dst = <<>> THEN r = ERR /\ UNCHANGED fs ELSE
  LET up == Made(fs, Front(dst))
      t == IF up[1] = "at" THEN Mk(fs, up[2]) ELSE fs
      s == Self(t, src) IN
  IF up[1] = "at" /\ src # <<>> /\ s[1] = "at" /\ Has(t, s[2])
  THEN LET S == s[2] D == Append(up[2], dst[Len(dst)]) IN
       IF Dir(t, S) /\ S = D /\ src # dst THEN r \in {<<>>, ERR} /\ UNCHANGED fs   \* two names for one directory
       ELSE IF ~Dir(t, D) /\ ~(Dir(t, S) /\ (Prefix(S, D) \/ Has(t, D)))
       THEN r = <<>> /\ fs' = IF S = D THEN t ELSE Moved(t, S, D)
       ELSE r = ERR /\ fs' \in {fs, t}
  ELSE r = ERR /\ fs' \in {fs, t}
MoveNowhere(r) == r = <<>> /\ UNCHANGED fs

RECURSIVE MkAll(_, _)
MkAll(t, ps) == IF ps = <<>> THEN <<TRUE, t>>
                ELSE LET x == Made(t, Head(ps)) IN
                     IF x[1] = "at" THEN MkAll(Mk(t, x[2]), Tail(ps)) ELSE <<FALSE, t>>
MkDirs(ps, r) == LET m == MkAll(fs, ps) IN r = (IF m[1] THEN <<>> ELSE ERR) /\ fs' = m[2]
Delete(p, r) == LET x == Self(fs, p) IN
                /\ r = <<>> \/ (x[1] \in {"below", "loop"} /\ r = ERR)
                /\ fs' = IF x[1] # "at" \/ x[2] = <<>> THEN fs ELSE Without(fs, Sub(fs, x[2]))

SetOf(q) == {q[i] : i \in DOMAIN q}
(* links below are listed, not followed *)
Scan(p, r) == /\ UNCHANGED fs
              /\ IF IsD(fs, p)
                 THEN LET x == Full(fs, p)[2] IN
                      /\ r[1] = "vs"
                      /\ SetOf(r[2]) = {p \o SubSeq(q, Len(x) + 1, Len(q)) : q \in {q \in Sub(fs, x) : ~Dir(fs, q)}}
                      /\ Len(r[2]) = Cardinality(SetOf(r[2]))
                 ELSE r = ERR
(* too many links: existence is not known *)
Ask(op, p, b) ==
  CASE op = "FileExist" -> LET x == Self(fs, p) IN
         \/ b = (x[1] = "at" /\ Has(fs, x[2]) /\ ~Dir(fs, x[2]))
         \/ x[1] = "loop" /\ b
    [] op = "FileIsExisted" -> b = There(fs, p) \/ (Full(fs, p)[1] = "loop" /\ b)
    [] op = "IsDir" -> b = IsD(fs, p)
    [] op = "IsFile" -> b = IsF(fs, p)
PathExists(p, r) == \/ r = <<"b", IsD(fs, p), IsF(fs, p)>>
                    \/ Full(fs, p)[1] \in {"below", "loop"} /\ r = <<"b", FALSE, TRUE>>
(* a digest is a function of content; ref: by an independent implementation *)
Digest(v, ref, r) == /\ r = <<"v", ref>>
                     /\ IF v \in DOMAIN dig THEN dig[v] = ref /\ UNCHANGED dig
                        ELSE (\A w \in DOMAIN dig : dig[w] # ref) /\ dig' = (v :> ref) @@ dig
FileDigest(p, ref, r) == IF IsF(fs, p) THEN Digest(fs[Full(fs, p)[2]][2], ref, r) ELSE r = ERR /\ UNCHANGED dig
Image(p, r) == r = (IF IsF(fs, p) THEN <<"v", fs[Full(fs, p)[2]][2]>> ELSE <<"none">>)

Do(c, r, seen) ==
  /\ CASE c.op = "Put" -> Put(c.p, c.v, r) /\ UNCHANGED dig
       [] c.op = "Link" -> MakeLink(c.p, c.q, r) /\ UNCHANGED dig
       [] c.op = "CopyFile" -> CopyFile(c.p, c.q, r, seen) /\ UNCHANGED dig
       [] c.op = "CopyFull" -> CopyFull(c.p, c.q, r, seen) /\ UNCHANGED dig
       [] c.op = "FileMove" -> Move(c.q, c.p, r) /\ UNCHANGED dig
       [] c.op = "MoveNowhere" -> MoveNowhere(r) /\ UNCHANGED dig
       [] c.op = "CreateDir" -> MkDirs(c.ps, r) /\ UNCHANGED dig
       [] c.op = "MkDir" -> MkDirs(<<c.p>>, r) /\ UNCHANGED dig
       [] c.op = "DeLFile" -> Delete(c.p, r) /\ UNCHANGED dig
       [] c.op = "ScanDir" -> Scan(c.p, r) /\ UNCHANGED dig
       [] c.op = "PathExists" -> PathExists(c.p, r) /\ UNCHANGED <<fs, dig>>
       [] c.op = "FileMd5" -> FileDigest(c.p, c.ref, r) /\ UNCHANGED fs
       [] c.op = "Digest" -> Digest(c.v, c.ref, r) /\ UNCHANGED fs
       [] c.op = "Image" -> Image(c.p, r) /\ UNCHANGED <<fs, dig>>
       [] OTHER -> r \in {<<"b", TRUE>>, <<"b", FALSE>>} /\ Ask(c.op, c.p, r[2]) /\ UNCHANGED <<fs, dig>>
  /\ last' = [c |-> c, r |-> r]
=============================================================================
