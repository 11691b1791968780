----------------------------- MODULE SeedTreeMC -----------------------------
(***************************************************************************)
(* The seed tree for every pattern of challenged rounds of a small number  *)
(* of rounds: what is published is exactly the maximal subtrees without a  *)
(* challenged round, gives away no challenged leaf, lets the verifier      *)
(* rebuild every other leaf, and is never more than the exact maximum.     *)
(***************************************************************************)
EXTENDS SeedTree, FiniteSets
VARIABLE hid
Init == hid \in [1..T -> {0, 1}]
Next == UNCHANGED hid
Spec == Init /\ [][Next]_hid

WeightOf(h) == Cardinality({r \in 1..T : h[r] = 1})
Salt == [i \in 1..HL |-> 7]
Root == [i \in 1..SL |-> i]
Tree == TreeFromRoot(Root, Salt)
P == Published(hid)
PSet == {P[i] : i \in 1..Len(P)}
Anc(i) == {a \in 0..(Nodes - 1) : i \in Descend({a})}

Maximal == IF WeightOf(hid) = 0 THEN P = << >> ELSE PSet = MaximalClear(hid)
Ordered == \A i \in 1..(Len(P) - 1) : P[i] < P[i + 1]
\* no challenged leaf, nor any node above one, can be derived
Hiding  == \A i \in Descend(PSet) : LeavesBelow(i) \cap HiddenLeaves(hid) = {}
Covers  == WeightOf(hid) > 0 => {LeafOf(r - 1) : r \in {x \in 1..T : hid[x] = 0}} \subseteq Descend(PSet)
\* no published node lies below another
Antichain == \A i, j \in PSet : i # j => i \notin Descend({j})
Bounded == WeightOf(hid) > 0 => /\ Len(P) <= MaxPub(T, WeightOf(hid))
                                /\ (T & (T - 1)) # 0 => Len(P) <= WorstCase(Leaves, WeightOf(hid))
\* the verifier finds the leaves of all other rounds and none of these
Rebuilds == WeightOf(hid) > 0 =>
    LET tree == TLCEval(Tree)
        r == TLCEval(Rebuild(hid, Path(tree, hid), Salt))
    IN /\ r.used = Len(P)
       /\ \A n \in 1..T : r.leaf[n] = IF hid[n] = 1 THEN << >> ELSE tree[LeafOf(n - 1) + 1]
Inv == Maximal /\ Ordered /\ Hiding /\ Covers /\ Antichain /\ Bounded /\ Rebuilds
\* the maximum is attained
Attained == \A w \in 1..T : \E h \in [1..T -> {0, 1}] : WeightOf(h) = w /\ Len(Published(h)) = MaxPub(T, w)
ASSUME Attained
=============================================================================
