------------------------------- MODULE DrbgMC -------------------------------
(***************************************************************************)
(* The two generators with a block of B bytes and a block cipher that is   *)
(* symbolic: a byte of output is << key, counter, offset >>, a key made by *)
(* an update is named by the key and the counters it was made from.        *)
(* The expander keeps a buffer between calls, as the code does.  Sizes are *)
(* in bytes; every sequence of operations is emitted for replay.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS B, Sizes, MaxOps, Max
VARIABLES key, ctr, out, ectr, epos, eleft, eout, ops
vars == << key, ctr, out, ectr, epos, eleft, eout, ops >>
\* the key after an update: a new name; the counter restarts at an unrelated value,
\* so that a pair << key, ctr >> names a block
Init == /\ key = 0 /\ ctr = 0 /\ out = << >>
        /\ ectr = 0 /\ epos = B /\ eleft = Max /\ eout = << >> /\ ops = << >>
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Blocks(_,_,_)
Blocks(k, c, n) == IF n = 0 THEN << >>
                   ELSE [i \in 1..Min(n, B) |-> << k, c + 1, i - 1 >>] \o Blocks(k, c + 1, n - Min(n, B))
\* a request, then an update whose blocks are never output
Request(n) == /\ out' = out \o Blocks(key, ctr, n)
              /\ key' = key + 1 /\ ctr' = 0
              /\ ops' = Append(ops, << "r", n >>)
              /\ UNCHANGED << ectr, epos, eleft, eout >>
RECURSIVE Pour(_,_,_,_)
Pour(c, p, o, n) ==      \* buffer of block c - 1 used up to p
    IF n <= B - p THEN [c |-> c, p |-> p + n, o |-> o \o [i \in 1..n |-> << c - 1, p + i - 1 >>]]
    ELSE Pour(c + 1, 0, o \o [i \in 1..(B - p) |-> << c - 1, p + i - 1 >>], n - (B - p))
Expand(n) == /\ ops' = Append(ops, << "x", n >>)
             /\ IF n >= eleft THEN UNCHANGED << ectr, epos, eleft, eout >>
                ELSE LET q == Pour(ectr, epos, eout, n)
                     IN ectr' = q.c /\ epos' = q.p /\ eout' = q.o /\ eleft' = eleft - n
             /\ UNCHANGED << key, ctr, out >>
Next == Len(ops) < MaxOps /\ \E n \in Sizes : Request(n) \/ Expand(n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* no byte of the generator is returned twice
NoRepeat == Cardinality({out[i] : i \in 1..Len(out)}) = Len(out)
\* what a request returned does not come from the key in use after it
Backtrack == \A i \in 1..Len(out) : out[i][1] < key
\* the expander returns one stream without gap or repetition
Stream == eout = [i \in 1..Len(eout) |-> << (i - 1) \div B, (i - 1) % B >>]
Limited == Len(eout) <= Max /\ eleft = Max - Len(eout)
Inv == NoRepeat /\ Backtrack /\ Stream /\ Limited
Emit == IF Len(ops) = MaxOps THEN PrintT(<< "OPS", ToJson(ops) >>) ELSE TRUE
=============================================================================
