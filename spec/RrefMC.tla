------------------------------- MODULE RrefMC -------------------------------
(***************************************************************************)
(* Row reduction on all K x N matrices over a few field elements.          *)
(***************************************************************************)
EXTENDS Codes
CONSTANT Elems
VARIABLE m
Init == m \in [1..K -> [1..N -> Elems]]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
R == RREF(m)
AddQ(a, b) == (a + b) % Q
RECURSIVE Combine(_,_,_)       \* sum of coefficients times rows
Combine(co, rows, i) == IF i = 0 THEN [j \in 1..N |-> 0]
                        ELSE LET p == Combine(co, rows, i - 1) IN [j \in 1..N |-> AddQ(p[j], MulQ(co[i], rows[i][j]))]
\* full rank, for one and two rows
Minor(a, b) == SubQ(MulQ(m[1][a], m[2][b]), MulQ(m[1][b], m[2][a]))
Full == IF K = 1 THEN \E j \in 1..N : m[1][j] # 0
        ELSE \E a, b \in 1..N : Minor(a, b) # 0
Right == LET r == TLCEval(R)
         IN /\ r.ok = Full
            /\ r.ok => /\ IsReduced(r.m, r.piv)
                       \* every row of m is a combination of the rows of the result
                       /\ \A i \in 1..K : m[i] = Combine([k \in 1..K |-> m[i][r.piv[k]]], r.m, K)
                       \* and idempotent
                       /\ RREF(r.m).m = r.m /\ RREF(r.m).piv = r.piv
\* row operations do not change the result
Row(f) == [m EXCEPT ![1] = ScaleRow(m[1], f)]
Mix(f) == [m EXCEPT ![K] = [j \in 1..N |-> AddQ(m[K][j], MulQ(f, m[1][j]))]]
Same(a) == LET r == TLCEval(R) q == TLCEval(RREF(a)) IN r.ok = q.ok /\ (r.ok => r.m = q.m /\ r.piv = q.piv)
Invariant == Same(Row(126)) /\ Same(Row(2)) /\ (K > 1 => Same(Mix(1)) /\ Same(Mix(77)) /\ Same(SwapRows(m, 1, K)))
\* packing keeps a reduced matrix
Packs == LET r == TLCEval(R)
         IN r.ok => LET fl == Flags(r.piv, N)
                        u  == TLCEval(UnpackRref(PackRref(r.m, fl)))
                    IN u.ok /\ u.fl = fl /\ u.m = r.m /\ Len(PackRref(r.m, fl)) = RrefBytes
Inv == Right /\ Invariant /\ Packs
=============================================================================
