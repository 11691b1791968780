------------------------------ MODULE LessHist ------------------------------
(***************************************************************************)
(* Histories of an application that uses the scheme: it seeds the platform *)
(* generator, makes keys, signs, opens genuine and damaged signed messages *)
(* and draws random bytes of its own.  All of them up to Length operations *)
(* are enumerated; each is replayed into the implementation.               *)
(*                                                                         *)
(* What the operations draw is modelled: an operation that draws takes the *)
(* next bytes of the stream of the present seed.  Draws made since one and *)
(* the same seeding never overlap (Disjoint), hence no two signatures have *)
(* ephemeral seed or salt in common and no two keys their seeds.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Length, MaxKeys, MaxSigs, Seeds, KeyBytes, SignBytes
VARIABLES epoch, seed, pos, keys, sigs, draws, hist
vars == << epoch, seed, pos, keys, sigs, draws, hist >>
Init == /\ epoch = 0 /\ seed = 0 /\ pos = 0
        /\ keys = << >> /\ sigs = << >> /\ draws = << >> /\ hist = << >>
Did(o) == hist' = Append(hist, o)
Draw(n) == /\ draws' = Append(draws, [e |-> epoch, seed |-> seed, from |-> pos, to |-> pos + n])
           /\ pos' = pos + n
           /\ UNCHANGED << epoch, seed >>
Seed(i) == /\ keys # << >>
           /\ epoch' = epoch + 1 /\ seed' = i /\ pos' = 0
           /\ Did([o |-> "seed", i |-> i])
           /\ UNCHANGED << keys, sigs, draws >>
Key == /\ Len(keys) < MaxKeys
       /\ Draw(KeyBytes)
       /\ keys' = Append(keys, << seed, pos >>)
       /\ Did([o |-> "key"])
       /\ UNCHANGED sigs
Sign(k, m) == /\ Len(sigs) < MaxSigs
              /\ Draw(SignBytes)
              /\ sigs' = Append(sigs, [k |-> k, m |-> m, at |-> << seed, pos >>])
              /\ Did([o |-> "sign", k |-> k, i |-> m])
              /\ UNCHANGED keys
Quiet == UNCHANGED << epoch, seed, pos, keys, sigs, draws >>
Open(k, i)   == Quiet /\ Did([o |-> "open", k |-> k, i |-> i])
Bad(i, b)    == Quiet /\ Did([o |-> "bad", k |-> sigs[i].k, i |-> i, b |-> b])
Junk(k)      == Quiet /\ Did([o |-> "junk", k |-> k])
Probe(n)     == Draw(n) /\ Did([o |-> "probe", i |-> n]) /\ UNCHANGED << keys, sigs >>
Next == /\ Len(hist) < Length
        /\ \/ \E i \in Seeds : Seed(i)
           \/ Key
           \/ \E k \in 1..Len(keys) : \E m \in {0, 1} : Sign(k, m)
           \/ \E i \in 1..Len(sigs) : \E k \in 1..Len(keys) : Open(k, i)
           \/ \E i \in 1..Len(sigs) : \E b \in {0, 3} : Bad(i, b)
           \/ IF keys = << >> THEN FALSE ELSE Junk(1)
           \/ IF keys = << >> THEN FALSE ELSE Probe(5)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Disjoint == \A i, j \in 1..Len(draws) : (i # j /\ draws[i].e = draws[j].e)
                => (draws[i].to <= draws[j].from \/ draws[j].to <= draws[i].from)
\* no draw leaves a gap: the generator is used by nothing else
NoGap == \A i \in 1..Len(draws) : \/ draws[i].from = 0
                                  \/ \E j \in 1..Len(draws) : draws[j].e = draws[i].e /\ draws[j].to = draws[i].from
\* two signatures share their draw only when the generator was seeded alike in between
Fresh == \A i, j \in 1..Len(sigs) : (i # j /\ sigs[i].at = sigs[j].at) => epoch > 0
\* opening draws nothing
OpenDrawsNothing == [][hist'[Len(hist')].o \in {"open", "bad", "junk"} => pos' = pos /\ seed' = seed]_vars
Inv == Disjoint /\ NoGap /\ Fresh
-----------------------------------------------------------------------------
Emit == IF Len(hist) = Length THEN PrintT(<< "HIST", ToJson(hist) >>) ELSE TRUE
=============================================================================
