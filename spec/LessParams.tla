----------------------------- MODULE LessParams -----------------------------
(***************************************************************************)
(* Parameters of an instance of LESS and the quantities derived from them. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS
    N,      \* code length
    K,      \* code dimension
    S,      \* number of key pairs (s), the first being the public code itself
    T,      \* number of rounds
    W,      \* weight of the challenge
    SL,     \* seed length in bytes
    MAXB,   \* bytes reserved for published seeds
    CAT     \* security category (1, 3, 5); 0 in design-level models

Q  == 127
HL == 2 * SL            \* digest and salt length
PL == 2 * SL            \* private seed length
MaxSeeds == MAXB \div SL

RECURSIVE BitLen(_)
BitLen(n) == IF n < 2 THEN 1 ELSE 1 + BitLen(n \div 2)

\* width of a position in a packed response
PosBits == IF CAT = 1 THEN 8 ELSE IF CAT = 3 THEN 9 ELSE 10

CeilDiv(a, b) == (a + b - 1) \div b

ActionBytes == CeilDiv(7 * K, 8) + CeilDiv(PosBits * K, 8)
RrefBytes   == CeilDiv(7 * (N - K) * K, 8) + CeilDiv(N, 8)
PkBytes     == SL + (S - 1) * RrefBytes
SkBytes     == PL + SL
SigBytes(nseeds) == 2 * HL + ActionBytes * W + nseeds * SL + 1

\* the seed tree is a complete binary tree; nodes are numbered 0 .. Nodes-1
\* with children 2i+1 and 2i+2; leaf r stands for round r
Leaves == 2^BitLen(T)
Nodes  == 2 * Leaves - 1
=============================================================================
