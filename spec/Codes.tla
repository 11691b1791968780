-------------------------------- MODULE Codes --------------------------------
(***************************************************************************)
(* Generator matrices: K rows (sequences) of N field elements.             *)
(***************************************************************************)
EXTENDS Monomial, Bits, SequencesExt

SubQ(a, b) == (a + Q - b) % Q

IsMatrix(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c /\ \A j \in 1..c : M[i][j] \in 0..(Q-1)

\* G * A
MonoAct(G, A) ==
    LET s == Sources(A.p)
        n == Len(A.p)
    IN TLCEval([i \in 1..Len(G) |-> TLCEval([d \in 1..n |-> MulQ(G[i][s[d]], A.c[s[d]])])])

\* the selected and scaled columns first, then the remaining ones in order
ActionAct(G, a) ==
    LET picked == {a.p[i] + 1 : i \in 1..K}
        rest   == SelectSeq([j \in 1..N |-> j], LAMBDA j : j \notin picked)
    IN TLCEval([i \in 1..K |-> TLCEval([j \in 1..N |->
          IF j <= K THEN MulQ(G[i][a.p[j] + 1], a.c[j]) ELSE G[i][rest[j - K]]])])

-----------------------------------------------------------------------------
(* Reduced row echelon form by Gauss-Jordan elimination: one step takes    *)
(* the next pivot.  piv is the sequence of pivot columns (1-based).        *)

RECURSIVE PivotRow(_,_,_)
PivotRow(M, r, c) == IF r > Len(M) THEN 0 ELSE IF M[r][c] # 0 THEN r ELSE PivotRow(M, r+1, c)

\* first column >= c with a nonzero entry in rows r.. ; <<row, col>> or <<0,0>>
RECURSIVE FindPivot(_,_,_,_)
FindPivot(M, r, c, n) ==
    IF c > n THEN << 0, 0 >>
    ELSE LET j == PivotRow(M, r, c) IN IF j # 0 THEN << j, c >> ELSE FindPivot(M, r, c + 1, n)

SwapRows(M, a, b) == [M EXCEPT ![a] = M[b], ![b] = M[a]]
ScaleRow(row, f)  == TLCEval([j \in 1..Len(row) |-> MulQ(row[j], f)])
ElimRow(row, prow, f) == TLCEval([j \in 1..Len(row) |-> SubQ(row[j], MulQ(f, prow[j]))])

\* one elimination step with pivot row j, column c, for target row r
ElimStep(M, r, j, c) ==
    LET M1   == SwapRows(M, r, j)
        prow == ScaleRow(M1[r], InvQ(M1[r][c]))
    IN TLCEval([i \in 1..Len(M) |-> IF i = r THEN prow
                                    ELSE IF M1[i][c] = 0 THEN M1[i] ELSE ElimRow(M1[i], prow, M1[i][c])])

RECURSIVE RrefFrom(_,_,_,_)
RrefFrom(M, r, c, piv) ==
    IF r > Len(M) THEN [ok |-> TRUE, m |-> M, piv |-> piv]
    ELSE LET jc == TLCEval(FindPivot(M, r, c, Len(M[1])))
         IN IF jc[1] = 0 THEN [ok |-> FALSE, m |-> M, piv |-> piv]
            ELSE RrefFrom(TLCEval(ElimStep(M, r, jc[1], jc[2])), r + 1, jc[2] + 1, Append(piv, jc[2]))

\* [ok, m, piv]
RREF(M) == RrefFrom(M, 1, 1, << >>)

\* declarative: R is in reduced row echelon form with full rank and pivots piv
IsReduced(R, piv) ==
    /\ Len(piv) = Len(R)
    /\ \A r \in 1..(Len(R)-1) : piv[r] < piv[r+1]
    /\ \A r \in 1..Len(R) : /\ \A j \in 1..(piv[r]-1) : R[r][j] = 0
                            /\ \A i \in 1..Len(R) : R[i][piv[r]] = IF i = r THEN 1 ELSE 0

\* one-hot pivot flags
Flags(piv, n) == TLCEval([j \in 1..n |-> IF \E r \in 1..Len(piv) : piv[r] = j THEN 1 ELSE 0])
NonPivots(piv, n) == SelectSeq([j \in 1..n |-> j], LAMBDA j : \A r \in 1..Len(piv) : piv[r] # j)

-----------------------------------------------------------------------------
(* Packed and compact forms                                                *)

\* packed form of a reduced generator with pivot flags fl
PackRref(M, fl) ==
    LET np == SelectSeq([j \in 1..N |-> j], LAMBDA j : fl[j] = 0)
        w  == Len(np)
        fb == Pack(fl, 1, CeilDiv(N, 8))
        vals == [x \in 1..(K*w) |-> M[((x-1) \div w) + 1][np[((x-1) % w) + 1]]]
    IN fb \o Pack(vals, 7, CeilDiv(7*(N-K)*K, 8))

\* flags and entries found in a packed form; the matrix they describe when
\* there are exactly K flags
UnpackRref(b) ==
    LET fb  == CeilDiv(N, 8)
        fl  == TLCEval(Unpack(b, 0, 1, N))
        piv == SelectSeq([j \in 1..N |-> j], LAMBDA j : fl[j] = 1)
        np  == TLCEval(SelectSeq([j \in 1..N |-> j], LAMBDA j : fl[j] = 0))
        good == Len(piv) = K
        vals == IF good THEN TLCEval(Unpack(b, 8*fb, 7, (N-K)*K)) ELSE << >>
        rank(seq, j) == CHOOSE x \in 1..Len(seq) : seq[x] = j
        \* for each column its place among the pivots / non-pivots
        RECURSIVE Place(_,_,_,_)
        Place(j, a, z, acc) == IF j > N THEN acc
                               ELSE IF fl[j] = 1 THEN Place(j+1, a+1, z, Append(acc, a+1))
                               ELSE Place(j+1, a, z+1, Append(acc, z+1))
        pl == TLCEval(Place(1, 0, 0, << >>))
    IN [ok |-> good /\ \A x \in 1..Len(vals) : vals[x] < Q,
        fl |-> fl,
        m  |-> IF ~good THEN << >> ELSE
               TLCEval([i \in 1..K |-> TLCEval([j \in 1..N |->
                  IF fl[j] = 1 THEN (IF pl[j] = i THEN 1 ELSE 0)
                  ELSE vals[(i-1)*(N-K) + pl[j]]])])]

\* full matrix from the systematic part: identity, then rows
Systematic(rows) == TLCEval([i \in 1..K |-> TLCEval([j \in 1..N |->
                       IF j <= K THEN (IF i = j THEN 1 ELSE 0) ELSE rows[i][j - K]])])

PackAction(a) == Pack2(a.p, PosBits, a.c, 7, ActionBytes)
UnpackAction(b) == [p |-> Unpack(b, 0, PosBits, K), c |-> Unpack(b, PosBits * K, 7, K)]
=============================================================================
