------------------------------- MODULE Cipher -------------------------------
(* AesEncrypt / AesDecrypt (help/utils/md5.go).  enc: what is known of the    *)
(* cipher, <<key, content>> -> cipher text.  All texts are byte sequences.     *)
(* raw: what the block mode alone makes of the data under the key, by an      *)
(* independent implementation; from it follows whether the padding can be     *)
(* right.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS B, KeySizes
VARIABLES enc, last
vars == <<enc, last>>
Init == enc = <<>> /\ last = <<>>
ERR == <<"err">>

Padded(n) == B * (n \div B + 1)
PadOK(raw) == LET n == raw[Len(raw)] IN
              /\ n >= 1 /\ n <= B /\ n <= Len(raw)
              /\ \A i \in (Len(raw) - n + 1)..Len(raw) : raw[i] = n
Stripped(raw) == SubSeq(raw, 1, Len(raw) - raw[Len(raw)])

Enc(k, v, r) ==
  IF Len(k) \notin KeySizes THEN r = ERR /\ UNCHANGED enc
  ELSE /\ r[1] = "v" /\ Len(r[2]) = Padded(Len(v))
       /\ IF <<k, v>> \in DOMAIN enc THEN r[2] = enc[<<k, v>>] /\ UNCHANGED enc
          ELSE /\ \A x \in DOMAIN enc : enc[x] # r[2]
               /\ enc' = (<<k, v>> :> r[2]) @@ enc
Dec(k, d, raw, r) ==
  /\ UNCHANGED enc
  /\ IF Len(k) \notin KeySizes \/ Len(d) % B # 0 \/ d = <<>> THEN r = ERR
     ELSE /\ IF PadOK(raw) THEN r = <<"v", Stripped(raw)>> ELSE r = ERR
          /\ \A x \in DOMAIN enc : x[1] = k /\ enc[x] = d => r = <<"v", x[2]>>

Do(c, r) == /\ CASE c.op = "Enc" -> Enc(c.k, c.v, r) [] c.op = "Dec" -> Dec(c.k, c.d, c.raw, r)
            /\ last' = [c |-> c, r |-> r]
=============================================================================
