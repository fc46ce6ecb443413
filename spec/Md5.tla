-------------------------------- MODULE Md5 ---------------------------------
(* RFC 1321 on sequences of byte values.  A 32-bit word is <<high, low>>.     *)
EXTENDS Integers, Sequences, Bitwise
W == 65536
Plus(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div W) % W, lo % W>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Not2(a) == <<65535 - a[1], 65535 - a[2]>>
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Rot(a0, s0) == LET s == s0 % 16
                   a == IF s0 >= 16 THEN <<a0[2], a0[1]>> ELSE a0
                   m == P2[s + 1]
                   d == W \div m
               IN <<(a[1] % d) * m + a[2] \div d, (a[2] % d) * m + a[1] \div d>>
S == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
T == << <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
        <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
        <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
        <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
        <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
        <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
        <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
        <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>> >>
F(i, b, c, d) == CASE i < 16 -> Or2(And2(b, c), And2(Not2(b), d))
                   [] i \in 16..31 -> Or2(And2(d, b), And2(Not2(d), c))
                   [] i \in 32..47 -> Xor2(b, Xor2(c, d))
                   [] OTHER -> Xor2(c, Or2(b, Not2(d)))
G(i) == CASE i < 16 -> i [] i \in 16..31 -> (5 * i + 1) % 16 [] i \in 32..47 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
Word(bl, j) == <<bl[4 * j + 4] * 256 + bl[4 * j + 3], bl[4 * j + 2] * 256 + bl[4 * j + 1]>>
RECURSIVE Steps(_, _, _)
Steps(bl, i, v) ==
  IF i = 64 THEN v
  ELSE LET x == Plus(Plus(v[1], F(i, v[2], v[3], v[4])), Plus(T[i + 1], Word(bl, G(i))))
       IN Steps(bl, i + 1, <<v[4], Plus(v[2], Rot(x, S[i \div 16 + 1][(i % 4) + 1])), v[2], v[3]>>)
Padding(n) == LET z == (119 - (n % 64)) % 64 IN
              <<128>> \o [i \in 1..z |-> 0]
              \o [i \in 1..8 |-> IF i > 4 THEN 0 ELSE ((8 * n) \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
RECURSIVE Blocks(_, _, _)
Blocks(p, o, v) == IF o >= Len(p) THEN v
                   ELSE LET w == Steps(SubSeq(p, o + 1, o + 64), 0, v) IN
                        Blocks(p, o + 64, [k \in 1..4 |-> Plus(v[k], w[k])])
V0 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
Digest(s) == LET v == Blocks(s \o Padding(Len(s)), 0, V0) IN
             [i \in 1..16 |-> LET w == v[(i - 1) \div 4 + 1] IN
                CASE i % 4 = 1 -> w[2] % 256 [] i % 4 = 2 -> w[2] \div 256 [] i % 4 = 3 -> w[1] % 256 [] OTHER -> w[1] \div 256]
HexChar(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Hex(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
=============================================================================
