-------------------------------- MODULE Csv --------------------------------
(* ReadCsv / WriteCsv (help/utils/csv.go): one file of rows; a field is a     *)
(* sequence of bytes.  kind: "none" (no file), "ok", "bad" (malformed),        *)
(* "cut" (a failed write left it undetermined).                               *)
EXTENDS Naturals, Sequences, TLC
VARIABLES kind, rows, last
vars == <<kind, rows, last>>
Init == kind = "none" /\ rows = <<>> /\ last = <<>>

Write(row, r) == /\ r = <<>>
                 /\ IF kind \in {"none", "ok"} THEN kind' = "ok" /\ rows' = Append(rows, row)
                    ELSE UNCHANGED <<kind, rows>>
(* no room: the failure is reported; earlier rows may have been left unreadable by half a row *)
WriteFull(r) == r = <<"err">> /\ kind' = "cut" /\ rows' = <<>>
WriteNowhere(r) == r = <<"err">> /\ UNCHANGED <<kind, rows>>
Read(r) == /\ UNCHANGED <<kind, rows>>
           /\ CASE kind = "ok" -> r = <<"v", rows>>
                [] kind \in {"none", "bad"} -> r = <<"none">>
                [] kind = "cut" -> TRUE
ReadNowhere(r) == r = <<"none">> /\ UNCHANGED <<kind, rows>>
Mangle(r) == r = <<>> /\ kind' = "bad" /\ rows' = <<>>
Given(rs, r) == r = <<>> /\ kind' = "ok" /\ rows' = rs
Remove(r) == r = <<>> /\ kind' = "none" /\ rows' = <<>>

Do(c, r) ==
  /\ CASE c.op = "Write" -> Write(c.row, r)
       [] c.op = "WriteFull" -> WriteFull(r)
       [] c.op = "WriteNowhere" -> WriteNowhere(r)
       [] c.op = "Read" -> Read(r)
       [] c.op = "ReadNowhere" -> ReadNowhere(r)
       [] c.op = "Mangle" -> Mangle(r)
       [] c.op = "Given" -> Given(c.rows, r)
       [] c.op = "Remove" -> Remove(r)
  /\ last' = [c |-> c, r |-> r]
=============================================================================
