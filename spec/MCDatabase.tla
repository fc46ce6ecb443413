---- MODULE MCDatabase ----
(* Small tables; every call, every fault, every way to cut a call into pieces (MaxValues, MaxRows scaled down). *)
EXTENDS Database, Json
CONSTANTS Kind, Values, Records, MaxTable
N == IF Kind = "one" THEN 4 ELSE IF Kind = "ins" THEN 2 ELSE 3
Ids == {"1", "2", "3"}
NoFault == <<>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
St(n, rows, out, hit) == [n |-> n, rows |-> rows, out |-> out, hit |-> hit]
Faults == {NoFault} \cup {<<k, o>> : k \in {"1", "2"}, o \in {"fail", "dup", "zero"}}

(* ---- insertions: pieces of at most MaxValues values ---- *)
Recs == {<<i, v>> : i \in {"1", "2", "-"}, v \in Values \cup {"-"}} \ {<<"-", "-">>}
(* the pieces in which n records of w columns go, cut at the fault *)
RECURSIVE Pieces(_, _, _, _, _)
Pieces(n, w, per, k, flt) ==
  IF n = 0 THEN <<>>
  ELSE LET m == IF n < per THEN n ELSE per
           o == IF flt # <<>> /\ flt[1] = ToString(k) THEN flt[2] ELSE "ok"
       IN <<St(m * w, m, o, <<>>)>> \o (IF o = "ok" THEN Pieces(n - m, w, per, k + 1, flt) ELSE <<>>)
InsertSts(c) == LET w == Width(c.recs) IN
  IF c.recs = <<>> \/ (c.op = "Split" /\ w > MaxValues) THEN <<>>
  ELSE Pieces(Len(c.recs), w, IF c.op = "Split" THEN MaxValues \div w ELSE Len(c.recs), 1, c.fault)
Result(c, sts) == IF c.op = "Split" /\ Width(c.recs) > MaxValues THEN "err"
  ELSE IF ~Faulty(c, sts) THEN "ok" ELSE IF sts[Len(sts)].out = "dup" THEN "dup" ELSE "err"
Insertions == {[op |-> o, recs |-> rs, fault |-> f, typed |-> FALSE] :
                 o \in {"Split", "Batch"}, rs \in SeqsUpTo(Recs, Records), f \in {NoFault, <<"1", "fail">>, <<"1", "dup">>, <<"1", "zero">>, <<"2", "fail">>, <<"2", "dup">>}}

(* ---- updates by id ---- *)
FieldSets == {<<"-", a, b>> : a \in Values \cup {"-"}, b \in {"7", "-"}}
Upds == {us \in SeqsUpTo({<<i, f>> : i \in Ids, f \in FieldSets}, 2) : Len(us) = 2 => us[1][1] # us[2][1]}
Updates == {[op |-> o, ups |-> us, fault |-> f] : o \in {"SplitUpdate", "BatchUpdate"}, us \in Upds,
              f \in {NoFault, <<"1", "fail">>, <<"2", "fail">>}}
RECURSIVE UpPieces(_, _, _, _)
UpPieces(S, per, k, flt) ==
  IF S = <<>> THEN <<>>
  ELSE LET m == IF Len(S) < per THEN Len(S) ELSE per
           o == IF flt # <<>> /\ flt[1] = ToString(k) THEN flt[2] ELSE "ok"
           here == {table[j][1] : j \in DOMAIN table}
       IN <<St(0, 0, o, SelectSeq(SubSeq(S, 1, m), LAMBDA i : i \in here))>>
            \o (IF o = "ok" THEN UpPieces(SubSeq(S, m + 1, Len(S)), per, k + 1, flt) ELSE <<>>)
UpdateSts(c) ==
  IF c.ups = <<>> \/ ~Consistent(c.ups) \/ Fields(c.ups[1][2]) = {} THEN <<>>
  ELSE UpPieces([i \in DOMAIN c.ups |-> c.ups[i][1]], IF c.op = "SplitUpdate" THEN MaxRows ELSE Len(c.ups), 1, c.fault)
UpResult(c, sts) == IF c.ups # <<>> /\ ~Consistent(c.ups) THEN "err" ELSE IF Faulty(c, sts) THEN "err" ELSE "ok"

(* ---- single statements ---- *)
Vals == {<<"-", v, "-", "-">> : v \in Values \cup {"-"}}
Wheres == {<<>>, << <<2, <<"~">>>> >>, << <<2, <<"5">>>> >>, << <<2, <<"5", "7">>>> >>, << <<2, <<>>>> >>,
           << <<1, <<"1">>>>, <<2, <<"5">>>> >>}
IdLists == {<<>>, <<"1">>, <<"2", "1">>, <<"2", "2">>, <<"3">>}
Ones == {[op |-> "Delete", ids |-> s, fault |-> NoFault] : s \in IdLists}
  \cup {[op |-> "Update", id |-> i, vals |-> v, fault |-> f] : i \in {"1", "3"}, v \in Vals, f \in {NoFault, <<"1", "fail">>}}
  \cup {[op |-> "UpdateIds", ids |-> s, vals |-> v, fault |-> NoFault] : s \in IdLists, v \in Vals}
  \cup {[op |-> "UpdateWhere", where |-> w, vals |-> v, fault |-> NoFault] : w \in Wheres, v \in Vals}
  \cup {[op |-> "SoftDel", id |-> "1", updated |-> 3, deleted |-> 4, now |-> "77", fault |-> f] : f \in {NoFault, <<"1", "fail">>}}
  \cup {[op |-> "Insert", recs |-> <<<<"2", v, "1", "0">>>>, typed |-> FALSE, fault |-> f] : v \in Values, f \in {NoFault, <<"1", "dup">>}}
OneHit(c) == c.fault # <<>>
OneResult(c) == IF c.op = "UpdateWhere" /\ c.where = <<>> THEN "err" ELSE IF OneHit(c) THEN (IF c.fault[2] = "dup" THEN "dup" ELSE "err") ELSE "ok"

Start == CASE Kind = "ins" -> {<<>>}
           [] Kind = "upd" -> {<<<<"1", "5", "~">>, <<"2", "x", "7">>>>}
           [] Kind = "one" -> {<<<<"1", "5", "1", "0">>>>}
Tx == \/ saved = None /\ Kind # "upd" /\ Do([op |-> "Begin"], "ok", <<>>, FALSE)
      \/ saved # None /\ \E o \in {"Commit", "Rollback"} : Do([op |-> o], "ok", <<>>, FALSE)
Next == \/ Tx
        \/ Kind = "ins" /\ \E c \in Insertions : \E sts \in {InsertSts(c)} : Do(c, Result(c, sts), sts, FALSE)
        \/ Kind = "upd" /\ \E c \in Updates : \E sts \in {UpdateSts(c)} : Do(c, UpResult(c, sts), sts, FALSE)
        \/ Kind = "one" /\ \E c \in Ones : Do(c, OneResult(c), <<>>, OneHit(c))
Spec == table \in Start /\ Init /\ [][Next]_vars
Small == Len(table) <= MaxTable
View == <<table, saved>>
Emit == Len(table') > MaxTable \/ PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))

(* ---- what the specification promises, said without it ---- *)
Shape == \A i \in DOMAIN table : Len(table[i]) = N /\ \A j \in 1..N : table[i][j] # "-"
(* a reported success left no record out, an insertion never changes or reorders what was there *)
Grows == [][last'.c.op \in {"Split", "Batch", "Insert"} =>
              /\ SubSeq(table', 1, Len(table)) = table
              /\ last'.r = "ok" => Len(table') = Len(table) + Len(last'.c.recs)]_vars
(* changes by id leave other rows and other fields alone, and never add or remove a row *)
Keeps == [][last'.c.op \in {"SplitUpdate", "BatchUpdate", "Update", "UpdateIds", "UpdateWhere", "SoftDel"} =>
              /\ Len(table') = Len(table)
              /\ \A k \in DOMAIN table : table'[k][1] = table[k][1]
              /\ last'.c.op \in {"SplitUpdate", "BatchUpdate"} => \A k \in DOMAIN table :
                   table'[k] # table[k] => \E u \in Range(last'.c.ups) : u[1] = table[k][1] /\ table'[k] = Over(table[k], u[2])]_vars
(* every call of the model has an outcome: the specification never refuses all answers *)
Total == /\ Kind = "ins" /\ table \in Start /\ saved = None => \A c \in Insertions : \E sts \in {InsertSts(c)} : ENABLED Do(c, Result(c, sts), sts, FALSE)
         /\ Kind = "upd" /\ table \in Start /\ saved = None => \A c \in Updates : \E sts \in {UpdateSts(c)} : ENABLED Do(c, UpResult(c, sts), sts, FALSE)
         /\ Kind = "one" => \A c \in Ones : ENABLED Do(c, OneResult(c), <<>>, OneHit(c))
(* nothing is half done unless a statement was refused *)
Whole == [][last'.r # "ok" /\ table' # table => \E i \in DOMAIN last'.sts : last'.sts[i].out # "ok"]_vars
====
