-------------------------------- MODULE Words -------------------------------
(* BuildUrl (url.go), GetSuffixName, IsImage, IsTextFile, IsImageFile,        *)
(* IsPDFFile, IsVideoFile (files.go), UpperFirst (strings.go), the switches   *)
(* of maps.go and GetTimeDir (times.go).  Texts are sequences of characters   *)
(* (contents: of bytes).  sw[o]: the switches set in option map o.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Maps
VARIABLES sw, last
vars == <<sw, last>>
Init == sw = [o \in Maps |-> <<>>] /\ last = <<>>

RECURSIVE TrimL(_, _), TrimR(_, _)
TrimL(s, cs) == IF s # <<>> /\ s[1] \in cs THEN TrimL(Tail(s), cs) ELSE s
TrimR(s, cs) == IF s # <<>> /\ s[Len(s)] \in cs THEN TrimR(SubSeq(s, 1, Len(s) - 1), cs) ELSE s
Trim(s, cs) == TrimR(TrimL(s, cs), cs)
Slash == 47
(* pairs of key and value; a missing key or the value 0 leaves the pair out *)
RECURSIVE Pairs(_)
Pairs(ps) == IF Len(ps) < 2 THEN <<>>
             ELSE (IF ps[1] = <<>> \/ ps[2] = <<48>> THEN <<>> ELSE <<Slash>> \o ps[1] \o <<Slash>> \o ps[2])
                  \o Pairs(SubSeq(ps, 3, Len(ps)))
Url(prefix, ps) == TrimR(<<Slash>> \o Trim(prefix, {Slash}) \o Pairs(ps), {Slash})

OccursAt(s, seg, i) == i + Len(seg) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(seg) - 1) = seg
Places(s, seg) == {i \in 1..Len(s) : OccursAt(s, seg, i)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* one separator never reaches into the next *)
Separate(seg) == \A k \in 1..(Len(seg) - 1) : SubSeq(seg, k + 1, Len(seg)) # SubSeq(seg, 1, Len(seg) - k)
Suffix(s, seg) == LET P == Places(s, seg) IN IF P = {} THEN <<>> ELSE SubSeq(s, MaxOf(P) + Len(seg), Len(s))

UpperOf(c) == IF c \in 97..122 \/ (c \in 224..254 /\ c # 247) THEN c - 32 ELSE IF c \in 1072..1103 THEN c - 32 ELSE c
LowerOf(c) == IF c \in 65..90 THEN c + 32 ELSE c
Cased(s) == s # <<>> /\ (s[1] \in 0..126 \cup (192..254 \ {247, 223}) \cup 1040..1103 \cup 19968..40000 \cup {128512})
UpperFirst(s) == IF s = <<>> THEN s ELSE <<UpperOf(s[1])>> \o Tail(s)
Spaces == {9, 10, 11, 12, 13, 32}
Images == {<<106, 112, 101, 103>>, <<106, 112, 103>>, <<103, 105, 102>>, <<112, 110, 103>>, <<98, 109, 112>>, <<116, 105, 102>>, <<116, 105, 102, 102>>}
ImageName(s) == [i \in DOMAIN Trim(Suffix(s, <<46>>), Spaces) |-> LowerOf(Trim(Suffix(s, <<46>>), Spaces)[i])] \in Images
HasDot(s) == Places(s, <<46>>) # {}

(* what the first bytes of a content say *)
Starts(d, p) == Len(d) >= Len(p) /\ \A i \in DOMAIN p : p[i] = d[i] \/ p[i] = -1
ImageSigs == {<<137, 80, 78, 71, 13, 10, 26, 10>>, <<71, 73, 70, 56, 55, 97>>, <<71, 73, 70, 56, 57, 97>>, <<255, 216, 255>>,
              <<66, 77>>, <<82, 73, 70, 70, -1, -1, -1, -1, 87, 69, 66, 80, 86, 80>>}
PdfSigs == {<<37, 80, 68, 70, 45>>}
VideoSigs == {<<26, 69, 223, 163>>, <<82, 73, 70, 70, -1, -1, -1, -1, 65, 86, 73, 32>>}
TextByte(b) == b >= 32 \/ b \in {9, 10, 12, 13, 27}
Is(d, sigs) == \E p \in sigs : Starts(d, p)
(* readable, and nothing that other programs' formats start with *)
PlainText(d) == /\ \A i \in DOMAIN d : TextByte(d[i]) /\ d[i] < 127
                /\ d # <<>> => d[1] \in 97..122
Kind(d) == CASE Is(d, ImageSigs) -> "image" [] Is(d, PdfSigs) -> "pdf" [] Is(d, VideoSigs) -> "video"
             [] PlainText(d) -> "text" [] d[1] \in 97..122 /\ \E i \in DOMAIN d : i < 500 /\ ~TextByte(d[i]) -> "binary" [] OTHER -> "unknown"
Kinds == <<"text", "image", "pdf", "video">>
KindOk(d, r) == /\ Cardinality({i \in 1..4 : r[i]}) <= 1
                /\ Kind(d) # "unknown" => \A i \in 1..4 : r[i] => (Kinds[i] = Kind(d) \/ (Kind(d) = "binary" /\ Kinds[i] # "text"))
                /\ \A i \in 1..4 : Kind(d) = Kinds[i] => r[i]

(* the day d days after 1970-01-01 *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE Year(_, _), Month(_, _, _)
Year(y, d) == LET n == IF Leap(y) THEN 366 ELSE 365 IN IF d < n THEN <<y, d>> ELSE Year(y + 1, d - n)
Month(y, m, d) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE Month(y, m + 1, d - MonthLen(y, m))
Dig(x) == 48 + (x % 10)
DayPath(d) == LET a == Year(1970, d)
                  b == Month(a[1], 1, a[2])
              IN <<Dig(a[1] \div 1000), Dig(a[1] \div 100), Dig(a[1] \div 10), Dig(a[1]), Slash,
                   Dig(b[1] \div 10), Dig(b[1]), Slash, Dig(b[2] \div 10), Dig(b[2])>>

(* the characters from position a up to b *)
Cut(s, a, b) == SubSeq(s, a + 1, b)
Part(s, x) == \E a \in 0..Len(s) : \E b \in a..Len(s) : x = Cut(s, a, b)

(* the absolute name of the directory of a program started under name p in directory wd *)
RECURSIVE Comps(_, _), Walk(_, _)
Comps(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF s[1] = Slash THEN <<cur>> \o Comps(Tail(s), <<>>) ELSE Comps(Tail(s), Append(cur, s[1]))
Dots == {<<>>, <<46>>, <<46, 46>>}
Walk(at, q) == IF q = <<>> THEN at
               ELSE LET x == q[1] IN
                    Walk(IF x = <<>> \/ x = <<46>> THEN at
                         ELSE IF x = <<46, 46>> THEN (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1))
                         ELSE Append(at, x), Tail(q))
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE <<Slash>> \o q[1] \o Joined(Tail(q))
Named(s) == LET q == Comps(s, <<>>) IN q[Len(q)] \notin Dots
Upto(q) == SubSeq(q, 1, Len(q) - 1)
HomeDir(s, wd) == LET q == Upto(Comps(s, <<>>))
                      at == Walk(IF s # <<>> /\ s[1] = Slash THEN <<>> ELSE Walk(<<>>, Comps(wd, <<>>)), q)
                      t == IF at = <<>> THEN <<Slash>> ELSE Joined(at)
                  IN [i \in DOMAIN t |-> IF t[i] = 92 THEN Slash ELSE t[i]]

Do(c, r) ==
  /\ r[1] \in {"v", "b", "k"} \/ (c.op = "Cut" /\ r[1] = "panic")
  /\ CASE c.op = "Cut" -> /\ UNCHANGED sw
                          /\ IF 0 <= c.a /\ c.a <= c.b /\ c.b <= Len(c.s) THEN r = <<"v", Cut(c.s, c.a, c.b)>>
                             \* outside of the text: refused, or something of the text, never anything else
                             ELSE IF r[1] = "panic" THEN r = <<"panic">> ELSE Part(c.s, r[2])
       [] c.op = "Home" -> (Named(c.s) => r = <<"v", HomeDir(c.s, c.wd)>>) /\ UNCHANGED sw
       [] c.op = "Url" -> r[2] = Url(c.s, c.ps) /\ UNCHANGED sw
       [] c.op = "Suffix" -> (c.seg # <<>> /\ Separate(c.seg) => r[2] = Suffix(c.s, c.seg)) /\ UNCHANGED sw
       [] c.op = "Image" -> (HasDot(c.s) => r[2] = ImageName(c.s)) /\ UNCHANGED sw
       [] c.op = "Upper" -> /\ UNCHANGED sw
                            /\ Cased(c.s) \/ c.s = <<>> => r[2] = UpperFirst(c.s)
                            /\ c.s # <<>> => Tail(r[2]) = Tail(c.s)
       [] c.op = "Kind" -> KindOk(c.d, r[2]) /\ UNCHANGED sw
       [] c.op = "Day" -> r[2] = DayPath(c.d) /\ UNCHANGED sw
       [] c.op = "SetSw" -> sw' = [sw EXCEPT ![c.o] = (c.k :> c.b) @@ @]
       [] c.op = "GetSw" -> r[2] = (IF c.k \in DOMAIN sw[c.o] THEN sw[c.o][c.k] ELSE TRUE) /\ UNCHANGED sw
       [] c.op = "NilSw" -> r[2] = TRUE /\ UNCHANGED sw
  /\ last' = [c |-> c, r |-> r]
=============================================================================
