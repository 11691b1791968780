------------------------------ MODULE CanonMC ------------------------------
(***************************************************************************)
(* The canonical form on all small matrices: it does not change under      *)
(* permutations and nonzero multiples of columns, it is sorted and         *)
(* normalised, and forms of inequivalent matrices differ.                  *)
(***************************************************************************)
EXTENDS Canon
CONSTANTS Elems, Cols
VARIABLE m
Init == m \in [1..K -> [1..Cols -> Elems]]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
CF(v) == CanonCols(ColsOf(v))
Perms == {p \in [1..Cols -> 1..Cols] : Cardinality({p[i] : i \in 1..Cols}) = Cols}
Scales == [1..Cols -> {1, 2, 126}]
Acted(p, s) == [i \in 1..K |-> [j \in 1..Cols |-> MulQ(m[i][p[j]], s[j])]]
Leading(c) == LET f == FirstNonZero(c, 1) IN f \in {0, 1}
Sorted == LET c == TLCEval(CF(m)) IN /\ Len(c) = Cols /\ IsSortedCols(c)
                                     /\ \A j \in 1..Cols : Leading(c[j])
Stable == LET c == TLCEval(CF(m)) IN \A p \in Perms, s \in Scales : CF(Acted(p, s)) = c
\* the form is itself a matrix of the class
Class == LET c == TLCEval(CF(m))
         IN /\ CanonCols(c) = c
            /\ \E p \in Perms : \A j \in 1..Cols : c[j] = NormCol(Column(m, p[j]))
\* sorting a matrix sorts its columns and loses none
SortsAll == LET v == TLCEval(SortMatrix(m)) IN IsSortedCols(ColsOf(v)) /\
               \A c \in {Column(m, j) : j \in 1..Cols} :
                  Cardinality({j \in 1..Cols : Column(m, j) = c}) = Cardinality({j \in 1..Cols : Column(v, j) = c})
Inv == Sorted /\ Stable /\ Class /\ SortsAll
=============================================================================
