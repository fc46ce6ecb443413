----------------------------- MODULE MCDigests ------------------------------
(* the test suite of RFC 1321, and the lengths around a block's end *)
EXTENDS Digests, TLC, FiniteSets
H(s) == Hex(Digest(s))
R(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
ASSUME H(<<>>) =
  <<100, 52, 49, 100, 56, 99, 100, 57, 56, 102, 48, 48, 98, 50, 48, 52, 101, 57, 56, 48, 48, 57, 57, 56, 101, 99, 102, 56, 52, 50, 55, 101>>
ASSUME H(<<97>>) =
  <<48, 99, 99, 49, 55, 53, 98, 57, 99, 48, 102, 49, 98, 54, 97, 56, 51, 49, 99, 51, 57, 57, 101, 50, 54, 57, 55, 55, 50, 54, 54, 49>>
ASSUME H(<<97, 98, 99>>) =
  <<57, 48, 48, 49, 53, 48, 57, 56, 51, 99, 100, 50, 52, 102, 98, 48, 100, 54, 57, 54, 51, 102, 55, 100, 50, 56, 101, 49, 55, 102, 55, 50>>
ASSUME H(<<109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116>>) =
  <<102, 57, 54, 98, 54, 57, 55, 100, 55, 99, 98, 55, 57, 51, 56, 100, 53, 50, 53, 97, 50, 102, 51, 49, 97, 97, 102, 49, 54, 49, 100, 48>>
ASSUME H(<<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122>>) =
  <<99, 51, 102, 99, 100, 51, 100, 55, 54, 49, 57, 50, 101, 52, 48, 48, 55, 100, 102, 98, 52, 57, 54, 99, 99, 97, 54, 55, 101, 49, 51, 98>>
ASSUME H(<<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>) =
  <<100, 49, 55, 52, 97, 98, 57, 56, 100, 50, 55, 55, 100, 57, 102, 53, 97, 53, 54, 49, 49, 99, 50, 99, 57, 102, 52, 49, 57, 100, 57, 102>>
ASSUME H(<<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>) =
  <<53, 55, 101, 100, 102, 52, 97, 50, 50, 98, 101, 51, 99, 57, 53, 53, 97, 99, 52, 57, 100, 97, 50, 101, 50, 49, 48, 55, 98, 54, 55, 97>>
VARIABLE n
MCInit == Init /\ n = 0
Next == n < 130 /\ n' = n + 1 /\ UNCHANGED vars
Spec == MCInit /\ [][Next]_<<n, vars>>
Shape == LET p == Padding(n) IN (n + Len(p)) % 64 = 0 /\ Len(p) \in 9..72
(* one more zero is another content *)
Differs == H([i \in 1..n |-> 0]) # H([i \in 1..(n + 1) |-> 0]) /\ Len(H([i \in 1..n |-> 255])) = 32
=============================================================================
