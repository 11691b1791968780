----------------------------- MODULE SamplerMC -----------------------------
(***************************************************************************)
(* The rejection sampler on streams of a few words whose fields are drawn  *)
(* from a set of values, and the shuffle for all draws.                    *)
(***************************************************************************)
EXTENDS Sampler, FiniteSets
CONSTANTS Vals, Words
VARIABLE f            \* the values of the fields of all words
Init == f \in [1..(3 * Words) -> Vals]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
\* word w (from 0): three drawn fields, each three times, and a set top bit
WordBytes(w) == LET v == [j \in 1..9 |-> f[3 * w + ((j - 1) % 3) + 1]]
                    p == Pack(v \o << 1 >>, 7, 8)
                IN p
RECURSIVE Stream(_)
Stream(w) == IF w = 0 THEN << >> ELSE Stream(w - 1) \o WordBytes(w - 1)
\* declaratively: the fields of all words in order, those within the span
AllFields == [i \in 1..(9 * Words) |-> f[3 * ((i - 1) \div 9) + ((((i - 1) % 9)) % 3) + 1]]
Good(span) == SelectSeq(AllFields, LAMBDA v : v <= span)
Takes(span, min, cnt) ==
    LET s == TLCEval(SampleElems(Stream(Words), span, min, cnt))
        g == Good(span)
    IN /\ s.done = (Len(g) >= cnt)
       /\ s.done => /\ Len(s.els) = cnt
                    /\ \A i \in 1..cnt : s.els[i] = g[i] + min /\ s.els[i] \in min..(min + span)
                    \* it stops in the word of the last element
                    /\ \E w \in 1..Words : /\ s.words = w
                         /\ Len(SelectSeq(SubSeq(AllFields, 1, 9 * (w - 1)), LAMBDA v : v <= span)) < cnt
                         /\ Len(SelectSeq(SubSeq(AllFields, 1, 9 * w), LAMBDA v : v <= span)) >= cnt
Inv == \A cnt \in {1, 4, 9, 10} : Takes(Q - 1, 0, cnt) /\ Takes(Q - 2, 1, cnt)
\* the shuffle is a bijection between draws and permutations
Bytes4(v) == << v, 0, 0, 0 >>
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
Draws(n) == {d \in [1..n -> 0..(n-1)] : \A i \in 1..n : d[i] <= n - i}
Fact(n) == IF n = 4 THEN 24 ELSE 120
ASSUME \A n \in {4, 5} : LET out == {Shuffle(Cat([i \in 1..n |-> Bytes4(d[i])]), n) : d \in Draws(n)}
                         IN /\ Cardinality(out) = Fact(n)
                            /\ \A p \in out : {p[i] : i \in 1..n} = 0..(n-1)
\* words are reduced without overflow: 2^32 - 1 modulo 252, 400 and 548
ASSUME /\ Mod32(<< 255, 255, 255, 255 >>, 0, 252) = 3
       /\ Mod32(<< 255, 255, 255, 255 >>, 0, 400) = 95
       /\ Mod32(<< 255, 255, 255, 255 >>, 0, 548) = 307
       /\ Mod32(<< 0, 1, 2, 3, 4 >>, 1, 251) = 84
=============================================================================
