-------------------------------- MODULE Drbg --------------------------------
(***************************************************************************)
(* The generators of the known-answer tools: CTR_DRBG of SP 800-90A with   *)
(* AES-256, without derivation function, and the seed expander, AES-256 in *)
(* counter mode with the length limit in the counter block.                *)
(***************************************************************************)
EXTENDS Aes, Integers

\* big-endian numbers as sequences of bytes; addition modulo 256^Len
RECURSIVE AddBE(_,_)
AddBE(b, n) == IF n = 0 \/ b = << >> THEN b
               ELSE LET v == b[Len(b)] + n
                    IN Append(AddBE(SubSeq(b, 1, Len(b) - 1), v \div 256), v % 256)
Zeros(n) == [i \in 1..n |-> 0]
LOCAL XorS(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

\* bytes from+1 .. to of the concatenation of Block(0), Block(1), ...
Window(Block(_), from, to) ==
    IF to <= from THEN << >>
    ELSE LET lo == from \div 16
             b  == TLCEval([i \in lo..((to - 1) \div 16) |-> Block(i)])
         IN [j \in 1..(to - from) |-> b[(from + j - 1) \div 16][((from + j - 1) % 16) + 1]]

-----------------------------------------------------------------------------
\* state: key and V; the counter is incremented before each use
DrbgUpdate(g, data) ==
    LET t == Window(LAMBDA i : Aes256(g.k, AddBE(g.v, i + 1)), 0, 48)
        u == XorS(t, data)
    IN [k |-> SubSeq(u, 1, 32), v |-> SubSeq(u, 33, 48)]
\* pers: 48 bytes, or empty for none
DrbgInit(entropy, pers) ==
    DrbgUpdate([k |-> Zeros(32), v |-> Zeros(16)], IF pers = << >> THEN entropy ELSE XorS(entropy, pers))
\* the last "tail" bytes of a request of n bytes, and the state after it
DrbgBytes(g, n, tail) == Window(LAMBDA i : Aes256(g.k, AddBE(g.v, i + 1)), n - tail, n)
\* the same for nb blocks and nr < 16 bytes, which may be more than TLC's integers hold
DrbgFarBytes(g, nb, nr, tail) ==
    LET d == (tail \div 16) + 2
    IN Window(LAMBDA i : Aes256(g.k, AddBE(g.v, (nb - d) + i + 1)), 16 * d + nr - tail, 16 * d + nr)
DrbgFarNext(g, nb, nr) == DrbgUpdate([g EXCEPT !.v = AddBE(@, nb + (nr + 15) \div 16)], Zeros(48))
DrbgNext(g, n) == DrbgUpdate([g EXCEPT !.v = AddBE(@, (n + 15) \div 16)], Zeros(48))

-----------------------------------------------------------------------------
\* a limit is a big-endian number of 8 bytes below 2^32
LimitOk(max) == \A i \in 1..4 : max[i] = 0
\* the limit in TLC's integers; the streams looked at are shorter than 2^31 - 1
Limit(max) == IF max[5] >= 128 THEN 2147483647 ELSE ((max[5] * 256 + max[6]) * 256 + max[7]) * 256 + max[8]
ExpanderBytes(seed, div, max, from, to) ==
    Window(LAMBDA i : Aes256(seed, div \o SubSeq(max, 5, 8) \o AddBE(Zeros(4), i)), from, to)
=============================================================================
