---------------------------- MODULE TraceCipher ----------------------------
(* o: the caller's memory around key and data, and every earlier result, are as they were *)
EXTENDS Cipher, TraceBase
SizesC == {16, 24, 32}
TInit == Init /\ TraceStart
TNext == Consume /\ Do(Ev.c, Ev.r) /\ Ev.o.mem /\ Ev.o.old
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
=============================================================================
