------------------------------ MODULE MCCipher ------------------------------
(* blocks of two, bytes 0..2; a block cipher is any injective choice *)
EXTENDS Cipher
Keys == {<<1>>, <<2>>, <<1, 1, 1>>}
SizesC == {1}
Bytes == 0..2
Texts == {<<>>} \cup {<<a>> : a \in Bytes}
Blocks == {<<a, b>> : a, b \in Bytes}
Pad(v) == v \o [i \in 1..(Padded(Len(v)) - Len(v)) |-> Padded(Len(v)) - Len(v)]
Next == \/ \E k \in Keys, v \in Texts : \E ct \in Blocks : Do([op |-> "Enc", k |-> k, v |-> v], IF Len(k) = 1 THEN <<"v", ct>> ELSE ERR)
        \/ \E k \in Keys, d \in Blocks \cup {<<>>, <<1>>} : \E raw \in Blocks :
             /\ \A x \in DOMAIN enc : x[1] = k => (enc[x] = d) = (raw = Pad(x[2]))
             /\ Do([op |-> "Dec", k |-> k, d |-> d, raw |-> raw],
                   IF Len(k) # 1 \/ Len(d) # 2 \/ ~PadOK(raw) THEN ERR ELSE <<"v", Stripped(raw)>>)
Spec == Init /\ [][Next]_vars
View == enc
Injective == \A x, y \in DOMAIN enc : enc[x] = enc[y] => x = y
RoundTrip == [][last'.c.op = "Dec" => \A x \in DOMAIN enc : x[1] = last'.c.k /\ enc[x] = last'.c.d => last'.r = <<"v", x[2]>>]_vars
\* padding is undone exactly
ASSUME \A v \in Texts \cup Blocks : PadOK(Pad(v)) /\ Stripped(Pad(v)) = v
Bound == Cardinality(DOMAIN enc) <= 3
=============================================================================
