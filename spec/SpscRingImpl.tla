---------------------------- MODULE SpscRingImpl ----------------------------
(* The bounded ring as the code runs it: one storage slot or index read or    *)
(* written per step, the two sides interleaved freely.  Refines a queue: what *)
(* lies between the indexes is what was sent and not yet received.            *)
EXTENDS Naturals, Sequences
CONSTANTS Cap, Slots,   \* capacity asked for, storage cells (a power of two for the rounded ring)
          Total,        \* elements the producer sends: 1..Total
          Batch         \* largest batch
ASSUME Cap = Slots
VARIABLES cell, in, out,
          wpc, wn, wi, sent,      \* producer: place, size of its batch, cells written, elements accepted
          rpc, rn, ri, buf, got   \* consumer: likewise
v == <<cell, in, out, wpc, wn, wi, sent, rpc, rn, ri, buf, got>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ cell = [i \in 0..(Slots - 1) |-> 0] /\ in = 0 /\ out = 0
        /\ wpc = "idle" /\ wn = 0 /\ wi = 0 /\ sent = 0
        /\ rpc = "idle" /\ rn = 0 /\ ri = 0 /\ buf = <<>> /\ got = <<>>
(* producer: read the other side's index once, write cells, publish *)
WLook(k) == /\ wpc = "idle" /\ sent + k <= Total
            /\ wn' = Min(k, Cap - (in - out)) /\ wi' = 0
            /\ wpc' = IF wn' = 0 THEN "idle" ELSE "write"
            /\ UNCHANGED <<cell, in, out, sent, rpc, rn, ri, buf, got>>
WCell == /\ wpc = "write" /\ wi < wn
         /\ cell' = [cell EXCEPT ![(in + wi) % Slots] = sent + wi + 1] /\ wi' = wi + 1
         /\ UNCHANGED <<in, out, wpc, wn, sent, rpc, rn, ri, buf, got>>
WPublish == /\ wpc = "write" /\ wi = wn
            /\ in' = in + wn /\ sent' = sent + wn /\ wpc' = "idle"
            /\ UNCHANGED <<cell, out, wn, wi, rpc, rn, ri, buf, got>>
(* consumer: read the other side's index once, read cells, give them back *)
RLook(k) == /\ rpc = "idle"
            /\ rn' = Min(k, in - out) /\ ri' = 0 /\ buf' = <<>>
            /\ rpc' = IF rn' = 0 THEN "idle" ELSE "read"
            /\ UNCHANGED <<cell, in, out, wpc, wn, wi, sent, got>>
RCell == /\ rpc = "read" /\ ri < rn
         /\ buf' = Append(buf, cell[(out + ri) % Slots]) /\ ri' = ri + 1
         /\ UNCHANGED <<cell, in, out, wpc, wn, wi, sent, rpc, rn, got>>
RPublish == /\ rpc = "read" /\ ri = rn
            /\ out' = out + rn /\ got' = got \o buf /\ rpc' = "idle"
            /\ UNCHANGED <<cell, in, wpc, wn, wi, sent, rn, ri, buf>>
Next == (\E k \in 1..Batch : WLook(k) \/ RLook(k)) \/ WCell \/ WPublish \/ RCell \/ RPublish
Spec == Init /\ [][Next]_v /\ WF_v(WCell \/ WPublish) /\ WF_v(RCell \/ RPublish)
(* the reader has the written elements in order, each once *)
InOrder == \A i \in 1..Len(got) : got[i] = i
Level == in >= out /\ in - out <= Cap
(* the queue this refines *)
Held == [i \in 1..(in - out) |-> cell[(out + i - 1) % Slots]]
Kept == /\ Len(Held) = sent - Len(got)
        /\ \A i \in 1..Len(Held) : Held[i] = Len(got) + i
(* no cell is written and read in the same window (no race on memory) *)
Apart == wpc = "write" /\ rpc = "read" =>
           \A i \in 0..(wn - 1), j \in 0..(rn - 1) : (in + i) % Slots # (out + j) % Slots
Q == INSTANCE Fifo WITH q <- Held, sent <- sent, got <- got, cap <- Cap
Refines == Q!Spec
Ends == (wpc = "write" ~> wpc = "idle") /\ (rpc = "read" ~> rpc = "idle")
=============================================================================
