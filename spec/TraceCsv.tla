------------------------------ MODULE TraceCsv ------------------------------
(* o.seen: the file read by an independent reader; o.kept: what the file held *)
(* before is still its beginning                                              *)
EXTENDS Csv, TraceBase
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r)
         /\ (kind' = "ok" => Ev.o.seen = <<"v", rows'>>)
         /\ (Ev.c.op \in {"Write", "Read", "WriteNowhere", "ReadNowhere"} => Ev.o.kept)
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
