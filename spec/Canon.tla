-------------------------------- MODULE Canon --------------------------------
(***************************************************************************)
(* The canonical form hashed for a round: the non-pivot columns of the     *)
(* reduced generator, each scaled to leading entry one, sorted             *)
(* lexicographically.                                                      *)
(***************************************************************************)
EXTENDS Codes

Column(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])

RECURSIVE FirstNonZero(_,_)
FirstNonZero(col, i) == IF i > Len(col) THEN 0 ELSE IF col[i] # 0 THEN col[i] ELSE FirstNonZero(col, i+1)

NormCol(col) == LET f == InvQ(FirstNonZero(col, 1))
                IN TLCEval([i \in 1..Len(col) |-> MulQ(col[i], f)])

RECURSIVE LexLeqFrom(_,_,_)
LexLeqFrom(a, b, i) == IF i > Len(a) THEN TRUE
                       ELSE IF a[i] = b[i] THEN LexLeqFrom(a, b, i+1) ELSE a[i] < b[i]
LexLeq(a, b) == LexLeqFrom(a, b, 1)

\* insertion sort of a sequence of columns
RECURSIVE InsertCol(_,_,_)
InsertCol(cols, c, i) == IF i > Len(cols) \/ LexLeq(c, cols[i])
                         THEN SubSeq(cols, 1, i-1) \o << c >> \o SubSeq(cols, i, Len(cols))
                         ELSE InsertCol(cols, c, i+1)
RECURSIVE SortColsFrom(_,_,_)
SortColsFrom(in, i, acc) == IF i > Len(in) THEN acc
                            ELSE SortColsFrom(in, i+1, TLCEval(InsertCol(acc, in[i], 1)))
SortCols(cols) == SortColsFrom(cols, 1, << >>)

IsSortedCols(cols) == \A i \in 1..(Len(cols)-1) : LexLeq(cols[i], cols[i+1])

\* matrix (sequence of rows) from its columns
FromCols(cols, r) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..Len(cols) |-> cols[j][i]])])
ColsOf(M) == TLCEval([j \in 1..Len(M[1]) |-> Column(M, j)])

SortMatrix(V) == FromCols(SortCols(ColsOf(V)), Len(V))

\* canonical form of a set of columns, given as a sequence
CanonCols(cols) == SortCols(TLCEval([j \in 1..Len(cols) |-> NormCol(cols[j])]))

\* canonical form of the code generated by M: [ok, v, piv]; v by rows
CanonOf(M) ==
    LET r  == TLCEval(RREF(M))
        np == TLCEval(NonPivots(r.piv, Len(M[1])))
    IN [ok |-> r.ok, piv |-> r.piv,
        v  |-> IF r.ok THEN FromCols(CanonCols(TLCEval([j \in 1..Len(np) |-> Column(r.m, np[j])])), Len(M))
               ELSE << >>]

\* commitment of a round: canonical form of G*A, and the action on the
\* information set: for each pivot of G*A in order, the source column and
\* its coefficient
Commit(G, A) ==
    LET c == TLCEval(CanonOf(MonoAct(G, A)))
        s == TLCEval(Sources(A.p))
    IN [v |-> c.v, ok |-> c.ok,
        act |-> [p |-> TLCEval([i \in 1..Len(c.piv) |-> s[c.piv[i]] - 1]),
                 c |-> TLCEval([i \in 1..Len(c.piv) |-> A.c[s[c.piv[i]]]])]]

\* what the verifier recomputes from a response
Respond(G, a) == CanonOf(ActionAct(G, a))

\* commitments for a sequence of maps, and answers to a sequence of
\* [g, a] (generator, action)
CommitAll(G, maps) == TLCEval([i \in 1..Len(maps) |-> Commit(G, maps[i])])
RespondAll(jobs)   == TLCEval([i \in 1..Len(jobs) |-> Respond(jobs[i].g, jobs[i].a)])

\* bytes of a sequence of canonical forms, row by row
FlatForms(vs) == FlattenSeq(TLCEval([i \in 1..Len(vs) |-> FlattenSeq(vs[i])]))
=============================================================================
