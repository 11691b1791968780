------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* Rejection samplers on an extendable-output stream.  A stream is given   *)
(* by its seed; XofBytes(seed, n) are its first n bytes.                   *)
(***************************************************************************)
EXTENDS LessParams, Keccak, Bits

XofBytes(seed, n) == IF CAT = 1 THEN SHAKE128(seed, n) ELSE SHAKE256(seed, n)

Hash(msg) == IF SL = 16 THEN SHA3_256(msg) ELSE IF SL = 24 THEN SHA3_384(msg) ELSE SHA3_512(msg)

-----------------------------------------------------------------------------
(* Field elements: consecutive 7-bit fields of 64-bit little-endian words, *)
(* nine fields to a word, fields above the span are discarded, as is the   *)
(* rest of the word in which the last element is found.                    *)

RECURSIVE TakeWord(_,_,_,_,_,_,_)
TakeWord(stream, w, j, span, min, cnt, acc) ==
    IF Len(acc) = cnt \/ j = 9 THEN acc
    ELSE LET v == Field(stream, 64*w + 7*j, 7)
         IN TakeWord(stream, w, j+1, span, min, cnt, IF v <= span THEN Append(acc, v + min) ELSE acc)

\* elements found, starting with word w; [els, words] ; words = number of words read
RECURSIVE TakeWords(_,_,_,_,_,_)
TakeWords(stream, w, span, min, cnt, acc) ==
    IF 8 * (w + 1) > Len(stream) THEN [els |-> acc, words |-> w, done |-> FALSE]
    ELSE LET a == TLCEval(TakeWord(stream, w, 0, span, min, cnt, acc))
         IN IF Len(a) = cnt THEN [els |-> a, words |-> w + 1, done |-> TRUE]
            ELSE TakeWords(stream, w + 1, span, min, cnt, a)

\* elements min .. min+span; at least one word is read
SampleElems(stream, span, min, cnt) == TakeWords(stream, 0, span, min, cnt, << >>)

FieldElems(stream, cnt)     == SampleElems(stream, Q-1, 0, cnt)
FieldStarElems(stream, cnt) == SampleElems(stream, Q-2, 1, cnt)

\* enough stream for cnt elements with overwhelming probability
StreamFor(cnt) == 8 * (CeilDiv(cnt, 9) + CeilDiv(cnt, 60) + 16)

-----------------------------------------------------------------------------
(* Permutations: Fisher-Yates shuffle driven by n little-endian 32-bit     *)
(* words, step i swapping position i with i + (word mod (n-i)).            *)

\* a 32-bit little-endian word modulo m, without leaving TLC's integers
Mod32(stream, off, m) ==
    LET b(i) == stream[off + i]
    IN ((((((b(4) % m) * 256 + b(3)) % m) * 256 + b(2)) % m) * 256 + b(1)) % m

RECURSIVE FisherYates(_,_,_,_)
FisherYates(p, stream, i, n) ==      \* p: sequence of 0..n-1, i from 0
    IF i >= n - 1 THEN p
    ELSE LET j == i + Mod32(stream, 4*i, n - i)
         IN FisherYates(TLCEval([p EXCEPT ![i+1] = p[j+1], ![j+1] = p[i+1]]), stream, i+1, n)

Shuffle(stream, n) == FisherYates(TLCEval([i \in 1..n |-> i - 1]), stream, 0, n)

\* a monomial matrix from a seed: N nonzero coefficients, then the permutation.
\* c[i], p[i]: coefficient and destination of column i-1.
SampleMonomial(seed) ==
    LET len == StreamFor(N) + 4*N
        str == TLCEval(XofBytes(seed, len))
        co  == TLCEval(FieldStarElems(str, N))
        off == 8 * co.words
    IN [c |-> co.els, p |-> Shuffle(SubSeq(str, off + 1, off + 4*N), N), used |-> off + 4*N]

\* the non-identity part of the public code: K rows of N-K elements, each row
\* starting with a fresh 64-bit word
RECURSIVE SampleRows(_,_,_,_,_)
SampleRows(stream, off, i, cnt, acc) ==
    IF i = 0 THEN [rows |-> acc, used |-> off]
    ELSE LET r == TLCEval(FieldElems(SubSeq(stream, off + 1, Len(stream)), cnt))
         IN SampleRows(stream, off + 8 * r.words, i - 1, cnt, Append(acc, r.els))

SampleSystematic(seed) ==
    SampleRows(TLCEval(XofBytes(seed, K * StreamFor(N-K))), 0, K, N - K, << >>).rows
=============================================================================
