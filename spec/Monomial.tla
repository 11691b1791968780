------------------------------ MODULE Monomial ------------------------------
(***************************************************************************)
(* Monomial matrices [c, p]: in G*Q, column i (from 0) of G is multiplied  *)
(* by c[i+1] and lands at column p[i+1].  Partial actions [c, p] with K    *)
(* entries: column i of the result is column p[i+1] of the source times    *)
(* c[i+1].                                                                 *)
(***************************************************************************)
EXTENDS LessParams, FiniteSets

MulQ(a, b) == (a * b) % Q
RECURSIVE PowQ(_,_)
PowQ(x, e) == IF e = 0 THEN 1
              ELSE LET h == PowQ(MulQ(x, x), e \div 2) IN IF e % 2 = 1 THEN MulQ(x, h) ELSE h
InvQ(x) == PowQ(x, Q - 2)       \* 0 for x = 0

IsPerm(p, n) == /\ \A i \in 1..n : p[i] \in 0..(n-1)
                /\ Cardinality({p[i] : i \in 1..n}) = n
IsMonomial(m) == /\ \A i \in 1..N : m.c[i] \in 1..(Q-1)
                 /\ IsPerm(m.p, N)

\* where the column that lands at position d comes from
RECURSIVE FindPos(_,_,_)
FindPos(p, d, i) == IF p[i] = d THEN i ELSE FindPos(p, d, i+1)

MonoId == [c |-> [i \in 1..N |-> 1], p |-> [i \in 1..N |-> i - 1]]

\* first A then B
MonoMul(A, B) == [c |-> TLCEval([i \in 1..N |-> MulQ(A.c[i], B.c[A.p[i] + 1])]),
                  p |-> TLCEval([i \in 1..N |-> B.p[A.p[i] + 1]])]

\* seq version of the inverse permutation: for each d the source i (1-based)
RECURSIVE InvPerm(_,_,_)
InvPerm(p, i, acc) == IF i > Len(p) THEN acc ELSE InvPerm(p, i+1, [acc EXCEPT ![p[i] + 1] = i])
Sources(p) == TLCEval(InvPerm(p, 1, [i \in 1..Len(p) |-> 0]))

MonoInv(A) == LET s == Sources(A.p)
              IN [c |-> TLCEval([d \in 1..N |-> InvQ(A.c[s[d]])]),
                  p |-> TLCEval([d \in 1..N |-> s[d] - 1])]

\* the partial action obtained by first applying A, then selecting by a
MonoCompose(A, a) ==
    LET s == Sources(A.p)
    IN [c |-> TLCEval([i \in 1..K |-> MulQ(a.c[i], A.c[s[a.p[i] + 1]])]),
        p |-> TLCEval([i \in 1..K |-> s[a.p[i] + 1] - 1])]

\* a K-entry action is a partial monomial map
ActionValid(a) == /\ \A i \in 1..K : a.c[i] \in 1..(Q-1)
                  /\ \A i \in 1..K : a.p[i] \in 0..(N-1)
                  /\ Cardinality({a.p[i] : i \in 1..K}) = K
=============================================================================
