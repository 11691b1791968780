-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Little-endian bit fields in byte sequences.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Bit(x, j) == (x \div (2^j)) % 2

\* bit number j (from 0) of a byte sequence
BitOf(bytes, j) == Bit(bytes[(j \div 8) + 1], j % 8)

RECURSIVE SumBits(_,_,_,_)
SumBits(f(_), i, n, acc) == IF i = n THEN acc ELSE SumBits(f, i+1, n, acc + (2^i) * f(i))

\* field of width w which starts at bit `off`
Field(bytes, off, w) == LET f(i) == BitOf(bytes, off + i) IN SumBits(f, 0, w, 0)

\* cnt consecutive fields of width w from bit `off` on
Unpack(bytes, off, w, cnt) == TLCEval([i \in 1..cnt |-> Field(bytes, off + (i-1) * w, w)])

\* nbytes bytes which hold the fields vals (width w each) from bit 0 on, then zeros
Pack(vals, w, nbytes) ==
    LET bit(j) == IF j \div w < Len(vals) THEN Bit(vals[(j \div w) + 1], j % w) ELSE 0
    IN TLCEval([b \in 1..nbytes |-> LET f(i) == bit(8*(b-1) + i) IN SumBits(f, 0, 8, 0)])

\* fields of two widths, one group directly after the other
Pack2(v1, w1, v2, w2, nbytes) ==
    LET n1 == w1 * Len(v1)
        n2 == w2 * Len(v2)
        bit(j) == IF j < n1 THEN Bit(v1[(j \div w1) + 1], j % w1)
                  ELSE IF j < n1 + n2 THEN Bit(v2[((j - n1) \div w2) + 1], (j - n1) % w2)
                  ELSE 0
    IN TLCEval([b \in 1..nbytes |-> LET f(i) == bit(8*(b-1) + i) IN SumBits(f, 0, 8, 0)])
=============================================================================
