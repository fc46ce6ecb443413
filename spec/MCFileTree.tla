----------------------------- MODULE MCFileTree -----------------------------
EXTENDS FileTree, Json
CONSTANTS Names, Vals, Links, Most
SizeC == <<1, 1, 1>>
Paths == {<<a>> : a \in Names} \cup {<<a, b>> : a, b \in Names}
AsSet(f) == {<<k, f[k]>> : k \in DOMAIN f}
SeqOf(s) == LET RECURSIVE Go(_)
                Go(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<e>> \o Go(x \ {e}) IN Go(s)
Calls == [op : {"Put"}, p : Paths, v : {<<v>> : v \in Vals}]
    \cup [op : {"CopyFile", "FileMove"}, p : Paths, q : Paths]
    \cup [op : {"MkDir", "DeLFile", "ScanDir", "PathExists", "FileExist", "FileIsExisted", "IsDir", "IsFile"}, p : Paths]
    \cup [op : IF Links THEN {"Link"} ELSE {}, p : Paths, q : Paths \cup {<<>>}]
    \cup [op : {"CreateDir"}, ps : {<<a, b>> : a \in {<<"a">>, <<"a", "b">>}, b \in {<<"b">>, <<"b", "a">>}}]
Results(c) ==
  CASE c.op \in {"Put", "Link", "FileMove", "MkDir", "CreateDir", "DeLFile"} -> {<<>>, ERR}
    [] c.op = "CopyFile" -> {<<"v", 1>>, ERR}
    [] c.op = "ScanDir" -> {<<"vs", SeqOf({c.p \o SubSeq(q, Len(x) + 1, Len(q)) : q \in {q \in Sub(fs, x) : ~Dir(fs, q)}})>> :
                                x \in IF IsD(fs, c.p) THEN {Full(fs, c.p)[2]} ELSE {}} \cup {ERR}
    [] c.op = "PathExists" -> {<<"b", x, y>> : x, y \in BOOLEAN}
    [] OTHER -> {<<"b", TRUE>>, <<"b", FALSE>>}
Next == /\ \E c \in Calls : \E r \in Results(c) : Do(c, r, fs)
        /\ DOMAIN fs' \subseteq Paths /\ Cardinality(DOMAIN fs') <= Most
Spec == Init /\ [][Next]_vars
View == fs
Tree == \A p \in DOMAIN fs : Dir(fs, Front(p))
Moves == [][last'.c.op = "FileMove" /\ last'.r = <<>> =>
             LET S == Self(fs, last'.c.q)[2]
                 D == Append(Made(fs, Front(last'.c.p))[2], last'.c.p[Len(last'.c.p)]) IN
             S # D => /\ ~Has(fs', S) /\ fs'[D] = fs[S]
                      /\ (Dir(fs, S) => Cardinality(Sub(fs', D)) = Cardinality(Sub(fs, S)))]_vars
Copies == [][last'.c.op = "CopyFile" /\ last'.r # ERR =>
             LET S == Full(fs, last'.c.q)[2] D == Full(fs, last'.c.p)[2] IN fs'[D] = fs[S] /\ fs'[S] = fs[S]]_vars
(* removing a link leaves what it leads to *)
Deletes == [][last'.c.op = "DeLFile" => LET x == Self(fs, last'.c.p) IN
              \A p \in DOMAIN fs : (x[1] = "at" => ~Prefix(x[2], p)) => p \in DOMAIN fs']_vars
Node == AsSet(fs)
Emit == PrintT(ToJson([f |-> Node, t |-> Node', c |-> last'.c]))
=============================================================================
