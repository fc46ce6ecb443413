------------------------------ MODULE MCCodec -------------------------------
(* the encoding loses nothing and is what RFC 4648 shows; decimal texts and numbers correspond *)
EXTENDS Codec
CONSTANT MaxLen
ASSUME Base64(<<>>) = <<>>
ASSUME Base64(<<102>>) = <<90, 103, 61, 61>>
ASSUME Base64(<<102, 111>>) = <<90, 109, 56, 61>>
ASSUME Base64(<<102, 111, 111>>) = <<90, 109, 57, 118>>
ASSUME Base64(<<102, 111, 111, 98>>) = <<90, 109, 57, 118, 89, 103, 61, 61>>
ASSUME Base64(<<102, 111, 111, 98, 97>>) = <<90, 109, 57, 118, 89, 109, 69, 61>>
ASSUME Base64(<<102, 111, 111, 98, 97, 114>>) = <<90, 109, 57, 118, 89, 109, 70, 121>>
ASSUME Base64(<<251, 255, 254>>) = <<43, 47, 47, 43>>
VARIABLE s
Bytes == {0, 1, 63, 64, 128, 200, 255}
MCInit == Init /\ s = <<>>
Next == Len(s) < MaxLen /\ (\E b \in Bytes : s' = Append(s, b)) /\ UNCHANGED <<json, last>>
Spec == MCInit /\ [][Next]_<<s, vars>>
Code(ch) == CHOOSE x \in 0..63 : Char(x) = ch
ASSUME \A x, y \in 0..63 : Char(x) = Char(y) => x = y
(* undo it by the bits *)
RECURSIVE Undo(_)
Undo(t) == IF t = <<>> THEN <<>>
           ELSE LET v(i) == IF t[i] = 61 THEN 0 ELSE Code(t[i])
                    b == <<v(1) * 4 + (v(2) \div 16), (v(2) % 16) * 16 + (v(3) \div 4), (v(3) % 4) * 64 + v(4)>>
                IN (IF t[3] = 61 THEN <<b[1]>> ELSE IF t[4] = 61 THEN <<b[1], b[2]>> ELSE b) \o Undo(SubSeq(t, 5, Len(t)))
Inverse == Undo(Base64(s)) = s
D(x) == IF x < 10 THEN <<48 + x>> ELSE IF x < 100 THEN <<48 + (x \div 10), 48 + (x % 10)>> ELSE <<49, 48 + ((x \div 10) % 10), 48 + (x % 10)>>
ASSUME \A x \in 0..199 : Canonical(D(x)) /\ Val(D(x)) = (IF x = 0 THEN <<>> ELSE <<x>>)
Max63 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
ASSUME Fits(Max63) /\ ~Fits(SubSeq(Max63, 1, 18) \o <<56>>) /\ Fits(<<45>> \o SubSeq(Max63, 1, 18) \o <<56>>) /\ ~Fits(<<45>> \o SubSeq(Max63, 1, 18) \o <<57>>)
(* texts as bytes: "{}", [], {"a":1}, ... *)
Q == 34
Abj == <<123, Q, 97, Q, 58, 49, 125>>                  \* {"a":1}
ASSUME IsObject(<<123, 125>>) /\ IsObject(<<32, 123, 32, 125, 10>>) /\ MembersOf(<<123, 125>>) = <<>>
ASSUME IsObject(Abj) /\ MembersOf(Abj) = <<<<<<97>>, <<49>>>>>> /\ Says(Abj) = {<<<<97>>, <<49>>>>}
ASSUME ~IsJson(Abj \o Abj) /\ ~IsJson(<<>>) /\ ~IsJson(<<123>>) /\ ~IsJson(<<Q>>) /\ ~IsJson(Abj \o <<120>>)
ASSUME \A i \in 1..7 : ~IsJson(SubSeq(Abj, 1, i - 1))
ASSUME \A i \in 1..7 : i # 3 => ~IsObject(SubSeq(Abj, 1, i - 1) \o SubSeq(Abj, i + 1, 7))
ASSUME IsJson(<<91, 49, 44, 91, 93, 93>>) /\ ~IsJson(<<91, 49, 44, 93>>) /\ ~IsJson(<<91, 44, 93>>) /\ ~IsJson(<<48, 49>>)
ASSUME IsJson(<<45, 48>>) /\ ~IsJson(<<45>>) /\ ~IsJson(<<49, 46>>) /\ IsJson(<<49, 46, 48, 101, 43, 49>>) /\ ~IsJson(<<43, 49>>)
ASSUME IsJson(<<110, 117, 108, 108>>) /\ ~IsJson(<<110, 117, 108>>) /\ IsJson(<<Q, 92, 117, 48, 48, 101, 57, Q>>) /\ ~IsJson(<<Q, 92, 120, Q>>)
(* with the last of two equal keys *)
ASSUME Says(<<123, Q, 97, Q, 58, 49, 44, Q, 97, Q, 58, 45, 48, 125>>) = {<<<<97>>, <<48>>>>}
=============================================================================
