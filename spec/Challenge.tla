------------------------------ MODULE Challenge ------------------------------
(***************************************************************************)
(* The challenge derived from a digest: 16-bit little-endian words of the  *)
(* digest's stream; the low bits give the value, the next bits the         *)
(* position.  Words with a value >= S, a position >= T, or the position of *)
(* an entry already set are skipped; zero values set nothing.              *)
(***************************************************************************)
EXTENDS Sampler, FiniteSets

ValBits == BitLen(S - 1)
PosFieldBits == BitLen(T - 1)

ValOf(w) == w % (2^ValBits)
PosOf(w) == (w \div (2^ValBits)) % (2^PosFieldBits)

\* one step of the sampler on word w
ChallengeStep(x, w) ==
    IF ValOf(w) >= S \/ PosOf(w) >= T THEN x
    ELSE IF x[PosOf(w) + 1] # 0 THEN x
    ELSE [x EXCEPT ![PosOf(w) + 1] = ValOf(w)]


Weight(x) == Cardinality({i \in 1..Len(x) : x[i] # 0})

RECURSIVE ChallengeFrom(_,_,_,_)
ChallengeFrom(x, cnt, stream, i) ==
    IF cnt = W THEN [x |-> x, done |-> TRUE]
    ELSE IF 2*i + 2 > Len(stream) THEN [x |-> x, done |-> FALSE]
    ELSE LET w  == stream[2*i + 1] + 256 * stream[2*i + 2]
             y  == TLCEval(ChallengeStep(x, w))
         IN ChallengeFrom(y, IF y = x THEN cnt ELSE cnt + 1, stream, i + 1)

RECURSIVE ChallengeWith(_,_)
ChallengeWith(digest, len) ==
    LET r == TLCEval(ChallengeFrom([i \in 1..T |-> 0], 0, TLCEval(XofBytes(digest, len)), 0))
    IN IF r.done THEN r.x ELSE ChallengeWith(digest, 4 * len)

ChallengeOf(digest) == ChallengeWith(digest, 16 * W + 64)

Hidden(x) == TLCEval([i \in 1..Len(x) |-> IF x[i] # 0 THEN 1 ELSE 0])
=============================================================================
