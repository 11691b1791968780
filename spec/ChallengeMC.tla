---------------------------- MODULE ChallengeMC ----------------------------
(***************************************************************************)
(* The challenge sampler on every stream: it reads words until W rounds    *)
(* are challenged.  Every word has every value of its significant bits.    *)
(***************************************************************************)
EXTENDS Challenge
VARIABLES x, n
vars == << x, n >>
Words == 0..(2^(ValBits + PosFieldBits) - 1)
Init == x = [i \in 1..T |-> 0] /\ n = 0
Next == /\ n < W
        /\ \E w \in Words : /\ x' = ChallengeStep(x, w)
                            /\ n' = IF x' = x THEN n ELSE n + 1
Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..T : x[i] \in 0..(S - 1)
Counted == Weight(x) = n /\ n <= W
\* a free position takes every nonzero value, from equally many words
Fair == \A p \in 1..T : x[p] = 0 => \A v \in 1..(S - 1) :
           Cardinality({w \in Words : ChallengeStep(x, w) = [x EXCEPT ![p] = v]}) = 1
\* the sampler can always go on
Live == n < W => \E w \in Words : ChallengeStep(x, w) # x
Inv == Typed /\ Counted /\ Fair /\ Live
\* what is set stays
Kept == [][\A i \in 1..T : x[i] # 0 => x'[i] = x[i]]_vars
\* bits of a word beyond the two fields do not matter
ASSUME \A w \in Words : \A h \in {1, 3} : LET y == [i \in 1..T |-> 0]
          IN ChallengeStep(y, w) = ChallengeStep(y, w + h * 2^(ValBits + PosFieldBits))
=============================================================================
