------------------------------ MODULE Database ------------------------------
(* gorm_tools: one table behind a database connection.  A row is the sequence  *)
(* of its values, one per column (Cols of them, the first is the id); a value  *)
(* is a string, "~" is null.  In what a caller supplies "-" stands for a field  *)
(* that is not there.                                                          *)
(*                                                                             *)
(* A call reaches the database as a sequence of statements, each             *)
(*   [n |-> values bound, rows |-> rows inserted, out |-> "ok", "fail", "dup",  *)
(*    "zero" (nothing affected) or "bad" (not a statement the database knows),  *)
(*    hit |-> ids of the rows an update changes or a deletion removes]          *)
(* and comes back with "ok", "err" or "dup".                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxValues, MaxRows     \* most values of a split insert, most rows of a split update
VARIABLES table, saved, last
vars == <<table, saved, last>>

None == <<>>                     \* no transaction
Init == saved = None /\ last = <<>>

Range(s) == {s[i] : i \in DOMAIN s}
Fill(rec) == [j \in DOMAIN rec |-> IF rec[j] = "-" THEN "~" ELSE rec[j]]
Over(row, up) == [j \in DOMAIN row |-> IF up[j] = "-" THEN row[j] ELSE up[j]]
Fields(rec) == {j \in DOMAIN rec : rec[j] # "-"}
Ok(sts) == {i \in DOMAIN sts : sts[i].out = "ok"}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Rows(sts) == Sum([i \in DOMAIN sts |-> sts[i].rows])

(* statements are only refused where the fault of the call says so, and the first refusal is the last statement *)
Faulty(c, sts) == sts # <<>> /\ sts[Len(sts)].out # "ok"
Sane(c, sts) == \A i \in DOMAIN sts : sts[i].out # "ok" => i = Len(sts) /\ c.fault = <<ToString(i), sts[i].out>>

Nothing == UNCHANGED table

(* ---- D01: insertion in pieces (c.op = "Split"), in one statement ("Batch") ---- *)
Width(recs) == Cardinality(UNION {Fields(recs[i]) : i \in DOMAIN recs})
Insert(c, r, sts, limited) ==
  LET n == Len(c.recs)
      bad == IF "bad" \in DOMAIN c THEN c.bad ELSE 0          \* a record that has no columns at all
      stored == Sum([i \in DOMAIN sts |-> IF sts[i].out = "ok" THEN sts[i].rows ELSE 0])
      flt == Faulty(c, sts)
      wide == limited /\ Width(c.recs) > MaxValues
  IN /\ Sane(c, sts)
     /\ \A i \in DOMAIN sts : sts[i].rows >= 1 /\ (limited => sts[i].n <= MaxValues)
     /\ ~limited => Len(sts) <= 1
     /\ Rows(sts) <= n
     /\ table' = table \o [i \in 1..stored |-> Fill(c.recs[i])]
     /\ IF bad > 0 THEN stored < bad /\ (r = "err" \/ (flt /\ r = "dup"))
        ELSE IF wide THEN sts = <<>> /\ r = "err"
        ELSE IF flt THEN r = IF sts[Len(sts)].out = "dup" THEN "dup" ELSE "err"
        ELSE stored = n /\ r = "ok"

(* ---- D02: new values by id; c.ups is a sequence of <<id, fields>> with different ids ---- *)
Consistent(ups) == LET f == Fields(ups[1][2]) IN \A i \in DOMAIN ups : Fields(ups[i][2]) = f
UpdateMany(c, r, sts, limited) ==
  LET ups == c.ups
      given == [i \in {ups[k][1] : k \in DOMAIN ups} |-> (CHOOSE k \in DOMAIN ups : ups[k][1] = i)]
      done == UNION {Range(sts[i].hit) : i \in Ok(sts)}
      there == {table[k][1] : k \in DOMAIN table} \cap DOMAIN given
  IN IF ups = <<>> THEN sts = <<>> /\ r = "ok" /\ Nothing
     ELSE IF ~Consistent(ups) THEN sts = <<>> /\ r = "err" /\ Nothing
     ELSE IF Fields(ups[1][2]) = {} THEN Nothing /\ r \in {"ok", "err", "dup"}
     ELSE /\ Sane(c, sts)
          /\ limited => \A i \in DOMAIN sts : Len(sts[i].hit) <= MaxRows
          /\ done \subseteq there
          /\ table' = [k \in DOMAIN table |->
                         IF table[k][1] \in done THEN Over(table[k], ups[given[table[k][1]]][2]) ELSE table[k]]
          /\ IF Faulty(c, sts) THEN r \in {"err", "dup"} ELSE r = "ok" /\ done = there

(* ---- D03: one statement on the rows that match; c.hit: a fault came up ---- *)
Matches(c, row) ==
  CASE c.op \in {"Update", "SoftDel"} -> row[1] = c.id
    [] c.op \in {"UpdateIds", "Delete"} -> row[1] \in Range(c.ids)
    [] c.op = "UpdateWhere" -> \A i \in DOMAIN c.where : row[c.where[i][1]] \in Range(c.where[i][2])
New(c, row) == IF c.op = "SoftDel" THEN [row EXCEPT ![c.updated] = c.now, ![c.deleted] = c.now] ELSE Over(row, c.vals)
One(c, r, hit) ==
  IF c.op = "UpdateWhere" /\ c.where = <<>>
  THEN Nothing /\ r \in (IF Fields(c.vals) # {} THEN {"err"} ELSE {"ok", "err"})
  ELSE IF hit THEN Nothing /\ r \in {"err", "dup"}
  ELSE /\ r = "ok"
       /\ table' = IF c.op = "Delete" THEN SelectSeq(table, LAMBDA row : ~Matches(c, row))
                   ELSE [k \in DOMAIN table |-> IF Matches(c, table[k]) THEN New(c, table[k]) ELSE table[k]]
InsertOne(c, r, hit) ==
  IF hit THEN Nothing /\ r \in {"err", "dup"}
  ELSE r = "ok" /\ table' = table \o [i \in DOMAIN c.recs |-> Fill(c.recs[i])]

(* ---- the caller's transaction ---- *)
Begin(r) == saved = None /\ saved' = <<table>> /\ r = "ok" /\ Nothing
Commit(r) == saved # None /\ saved' = None /\ r = "ok" /\ Nothing
Rollback(r) == saved # None /\ saved' = None /\ r = "ok" /\ table' = saved[1]

Do(c, r, sts, hit) ==
  /\ CASE c.op = "Begin" -> Begin(r)
       [] c.op = "Commit" -> Commit(r)
       [] c.op = "Rollback" -> Rollback(r)
       [] c.op \in {"Split", "Batch"} -> Insert(c, r, sts, c.op = "Split") /\ UNCHANGED saved
       [] c.op \in {"SplitUpdate", "BatchUpdate"} -> UpdateMany(c, r, sts, c.op = "SplitUpdate") /\ UNCHANGED saved
       [] c.op = "Insert" -> InsertOne(c, r, hit) /\ UNCHANGED saved
       [] OTHER -> One(c, r, hit) /\ UNCHANGED saved
  /\ last' = [c |-> c, r |-> r, sts |-> sts]
=============================================================================
