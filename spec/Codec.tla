-------------------------------- MODULE Codec -------------------------------
(* base64.go, ints.go, StringToInt(64) and the JSON maps of help/utils.       *)
(* json: texts made of maps so far, text -> map.  Numbers are limbs and sign. *)
EXTENDS Limbs, JsonText, FiniteSets, TLC
VARIABLES json, last
vars == <<json, last>>
Init == json = <<>> /\ last = <<>>

(* RFC 4648 *)
Char(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 43 ELSE 47
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
Base64(s) ==
  LET g == (Len(s) + 2) \div 3
      six(i) == LET o == 3 * ((i - 1) \div 4)
                    k == (i - 1) % 4
                IN CASE k = 0 -> At(s, o + 1) \div 4
                     [] k = 1 -> (At(s, o + 1) % 4) * 16 + (At(s, o + 2) \div 16)
                     [] k = 2 -> (At(s, o + 2) % 16) * 4 + (At(s, o + 3) \div 64)
                     [] OTHER -> At(s, o + 3) % 64
      n == (4 * Len(s) + 2) \div 3
  IN [i \in 1..(4 * g) |-> IF i <= n THEN Char(six(i)) ELSE 61]

(* decimal text *)
Digits == 48..57
IsNat(t) == t # <<>> /\ \A i \in DOMAIN t : t[i] \in Digits
RECURSIVE ValFrom(_, _, _)
ValFrom(t, i, a) == IF i > Len(t) THEN a ELSE ValFrom(t, i + 1, Add(Mul(<<10>>, a), Norm(<<t[i] - 48>>)))
Val(t) == ValFrom(t, 1, <<>>)
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
IsInt(t) == IsNat(Unsigned(t))
Neg(t) == t # <<>> /\ t[1] = 45 /\ Val(Tail(t)) # <<>>
Least63 == <<0, 0, 0, 0, 8>>            \* 2^63
Fits(t) == LET v == Val(Unsigned(t)) IN IF Neg(t) THEN LessEq(v, Least63) ELSE LessFrom(v, Least63, Big(v, Least63))
Canonical(t) == IsInt(t) /\ t[1] # 43 /\ (Unsigned(t)[1] = 48 => t = <<48>>)

(* what a text says that is an object of small whole numbers under plain keys; *)
(* of members with one key the last counts                                    *)
Least31 == <<0, 0, 2>>
Fits31(t) == LET v == Val(Unsigned(t)) IN IF Neg(t) THEN LessEq(v, Least31) ELSE LessFrom(v, Least31, Big(v, Least31))
Plain(e) == /\ \A i \in DOMAIN e[1] : e[1][i] \in 32..126 \ {92}
            /\ IsInt(e[2]) /\ Fits31(e[2])
Written(t) == IF Neg(t) \/ t[1] # 45 THEN t ELSE <<48>>
Says(t) == LET es == MembersOf(t) IN
           {<<es[i][1], Written(es[i][2])>> : i \in {i \in DOMAIN es : \A k \in i + 1..Len(es) : es[k][1] # es[i][1]}}
ReadsAs(t, m) ==
  IF ~IsObject(t) THEN m = <<>>
  ELSE (\A i \in DOMAIN MembersOf(t) : Plain(MembersOf(t)[i])) =>
         /\ {m[i] : i \in DOMAIN m} = Says(t)
         /\ Len(m) = Cardinality(Says(t))

Number(neg, n) == <<"v", neg, n>>
Do(c, r) ==
  /\ CASE c.op = "Enc" -> r = <<"v", Base64(c.s)>> /\ UNCHANGED json
       \* what a decoder makes of a text that is no encoding is open
       [] c.op = "Dec" -> /\ r[1] = "v" /\ UNCHANGED json
                          /\ c.valid => c.t = Base64(r[2])
       [] c.op = "Show" -> /\ r[1] = "v" /\ UNCHANGED json
                           /\ Canonical(r[2]) /\ Val(Unsigned(r[2])) = c.n /\ Neg(r[2]) = c.neg
       [] c.op = "Parse" -> /\ UNCHANGED json /\ r[1] = "v"
                            /\ IF ~IsInt(c.t) THEN r = Number(FALSE, <<>>)
                               ELSE Fits(c.t) => r = Number(Neg(c.t), Val(Unsigned(c.t)))
       \* equal maps are written alike, different ones differently
       [] c.op = "Write" -> /\ r[1] = "v" /\ IsObject(r[2]) /\ ReadsAs(r[2], c.m)
                            /\ r[2] \in DOMAIN json => json[r[2]] = c.m
                            /\ \A t \in DOMAIN json : json[t] = c.m => t = r[2]
                            /\ json' = (r[2] :> c.m) @@ json
       [] c.op = "Read" -> /\ UNCHANGED json /\ r[1] = "v"
                           /\ c.t \in DOMAIN json => r = <<"v", json[c.t]>>
                           /\ ReadsAs(c.t, r[2])
  /\ last' = [c |-> c, r |-> r]
=============================================================================
