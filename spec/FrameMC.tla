------------------------------ MODULE FrameMC ------------------------------
(***************************************************************************)
(* The layout of signed messages: for every length and count byte there is *)
(* at most one way to read it, the parts lie inside the byte string, cover *)
(* it without overlap, and what a signer writes is read as it was written. *)
(***************************************************************************)
EXTENDS LessParams, FiniteSets
CONSTANT Slack
VARIABLES len, cnt
vars == << len, cnt >>
Init == /\ len \in 0..(SigBytes(MaxSeeds) + Slack)
        /\ cnt \in {0, 1, MaxSeeds - 1, MaxSeeds, MaxSeeds + 1, 254, 255}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepts == len >= SigBytes(0) /\ cnt <= MaxSeeds /\ len >= SigBytes(cnt)
MLen == len - SigBytes(cnt)
Parts == << [o |-> 0, l |-> MLen], [o |-> MLen, l |-> HL], [o |-> MLen + HL, l |-> W * ActionBytes],
            [o |-> MLen + HL + W * ActionBytes, l |-> HL], [o |-> MLen + 2 * HL + W * ActionBytes, l |-> cnt * SL],
            [o |-> len - 1, l |-> 1] >>
Inside == Accepts => \A i \in 1..6 : Parts[i].o >= 0 /\ Parts[i].l >= 0 /\ Parts[i].o + Parts[i].l <= len
Covers == Accepts => \A i \in 1..5 : Parts[i].o + Parts[i].l = Parts[i + 1].o
\* room for the message a caller has to provide
Fits == Accepts => MLen <= len - SigBytes(0)
\* a signer's output of a message of any length is read as that message
Inverse == \A n \in 0..MaxSeeds : \A ml \in {0, 1, 33} : (ml + SigBytes(n)) - SigBytes(n) = ml
Max == SigBytes(MaxSeeds) = 2 * HL + W * ActionBytes + MaxSeeds * SL + 1
Inv == Inside /\ Covers /\ Fits /\ Inverse /\ Max /\ MaxSeeds <= 255
=============================================================================
