------------------------------- MODULE Digests ------------------------------
(* Md5, Md5Crypt, ComputeFileMD5 (help/utils/md5.go), FileMd5 (files.go).     *)
EXTENDS Md5, TLC
VARIABLES last, known
vars == <<last, known>>
Init == last = <<>> /\ known = <<>>
(* whole: the content could be read to its end.  Long contents go by a name,  *)
(* different contents by different names; known: their digests so far.  sum:  *)
(* what the Go library computes.                                              *)
Long(c, r) == IF ~c.whole THEN r = (IF c.f = "file" THEN <<"err">> ELSE <<"v", <<>>>>) /\ UNCHANGED known
              ELSE /\ r = <<"v", c.sum>>
                   /\ c.k \in DOMAIN known => known[c.k] = r[2]
                   /\ \A k \in DOMAIN known : known[k] = r[2] => k = c.k
                   /\ known' = (c.k :> r[2]) @@ known
Do(c, r) == IF c.op = "Long" THEN Long(c, r) /\ last' = [c |-> c, r |-> r] ELSE
            /\ UNCHANGED known
            /\ CASE c.op = "Sum" -> r = <<"v", Hex(Digest(c.s))>>
                 [] c.op = "Read" -> r = IF c.whole THEN <<"v", Hex(Digest(c.s))>> ELSE <<"v", <<>>>>
                 [] c.op = "File" -> IF c.whole THEN r = <<"v", Hex(Digest(c.s))>> ELSE r = <<"err">>
            /\ last' = [c |-> c, r |-> r]
=============================================================================
