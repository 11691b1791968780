------------------------------ MODULE SeedTree ------------------------------
(***************************************************************************)
(* The tree of ephemeral seeds.                                            *)
(***************************************************************************)
EXTENDS Sampler, Integers

Parent(i) == (i - 1) \div 2
LeafOf(r) == Leaves - 1 + r                 \* node of round r (from 0)
IsLeafNode(i) == i >= Leaves - 1

\* children of a node: one expansion of salt || seed
Children(salt, seed) == XofBytes(salt \o seed, 2 * SL)

\* complete tree: sequence of Nodes seeds (node i at i+1), level by level
RECURSIVE GrowLevels(_,_,_)
GrowLevels(done, level, salt) ==
    IF Len(level) = Leaves THEN done \o level
    ELSE LET ch == TLCEval([i \in 1..Len(level) |-> TLCEval(Children(salt, level[i]))])
         IN GrowLevels(TLCEval(done \o level),
                       TLCEval([j \in 1..(2 * Len(level)) |-> LET c == ch[(j + 1) \div 2]
                                                              IN IF j % 2 = 1 THEN SubSeq(c, 1, SL) ELSE SubSeq(c, SL + 1, 2 * SL)]),
                       salt)
TreeFromRoot(root, salt) == GrowLevels(<< >>, << root >>, salt)
-----------------------------------------------------------------------------
(* Which nodes are published: hid is a sequence of T flags, 1 for a        *)
(* challenged round.  A node is closed when its subtree contains a         *)
(* challenged round; published are the children of closed nodes that are   *)
(* not closed themselves.  Leaves beyond round T-1 are never challenged.   *)

RECURSIVE CloseUp(_)
CloseUp(level) ==      \* flags of all nodes from the root down to this level
    IF Len(level) = 1 THEN level
    ELSE CloseUp(TLCEval([i \in 1..(Len(level) \div 2) |-> IF level[2*i-1] = 1 \/ level[2*i] = 1 THEN 1 ELSE 0])) \o level
Closed(hid) == TLCEval(CloseUp(TLCEval([n \in 1..Leaves |-> IF n <= T THEN hid[n] ELSE 0])))
\* published nodes in increasing order
Published(hid) ==
    LET cl == TLCEval(Closed(hid))
    IN SelectSeq([n \in 1..Nodes |-> n - 1], LAMBDA i : cl[i+1] = 0 /\ (IF i = 0 THEN FALSE ELSE cl[Parent(i)+1] = 1))

\* declarative: the largest subtrees without a challenged round
RECURSIVE LeavesBelow(_)
LeavesBelow(i) == IF IsLeafNode(i) THEN {i} ELSE LeavesBelow(2*i+1) \cup LeavesBelow(2*i+2)
HiddenLeaves(hid) == {LeafOf(r-1) : r \in {x \in 1..T : hid[x] = 1}}
MaximalClear(hid) ==
    {i \in 0..(Nodes-1) : /\ LeavesBelow(i) \cap HiddenLeaves(hid) = {}
                          /\ i # 0 /\ LeavesBelow(Parent(i)) \cap HiddenLeaves(hid) # {}}

\* most seeds ever published for w of t rounds: by levels of the tree, a table
\* over the number of challenged rounds below a node.  full[w]: all leaves of
\* the subtree are rounds; part[w]: the first rem leaves are; -1: impossible
Best(L, R, w) == LET c == {L[a+1] + R[w-a+1] : a \in {a \in 0..w : a < Len(L) /\ w - a < Len(R) /\ L[a+1] >= 0 /\ R[w-a+1] >= 0}}
                 IN IF c = {} THEN -1 ELSE CHOOSE m \in c : \A y \in c : y <= m
Merge(L, R, wmax) == LET n == IF Len(L) + Len(R) - 2 < wmax THEN Len(L) + Len(R) - 2 ELSE wmax
                     IN TLCEval([w \in 1..(n + 1) |-> IF w = 1 THEN 1 ELSE Best(L, R, w - 1)])
RECURSIVE PubTable(_,_,_)
PubTable(h, rounds, wmax) ==
    IF rounds = 0 THEN << 1 >>
    ELSE IF h = 0 THEN << 1, 0 >>
    ELSE LET half == 2^(h-1)
             L == TLCEval(PubTable(h-1, IF rounds < half THEN rounds ELSE half, wmax))
             R == IF rounds = 2 * half THEN L
                  ELSE TLCEval(PubTable(h-1, IF rounds < half THEN 0 ELSE rounds - half, wmax))
         IN Merge(L, R, wmax)
MaxPub(t, w) == PubTable(BitLen(t), t, w)[w+1]
MaxPublished == MaxPub(T, W)

\* closed bound: w challenged rounds, spread as evenly as possible
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
WorstCase(t, w) == 2^CeilLog2(w) + w * (CeilLog2(t) - CeilLog2(w) - 1)

\* seeds derivable from those of a set of nodes
RECURSIVE Descend(_)
Descend(nodes) == LET more == nodes \cup UNION {IF IsLeafNode(i) THEN {} ELSE {2*i+1, 2*i+2} : i \in nodes}
                  IN IF more = nodes THEN nodes ELSE Descend(more)

Path(tree, hid) == LET p == Published(hid) IN TLCEval([x \in 1..Len(p) |-> tree[p[x]+1]])

-----------------------------------------------------------------------------
(* What the verifier rebuilds: [leaf, used]; leaf[r+1] is the seed of      *)
(* round r, or << >> when it is not derivable.                             *)
\* published seeds are used up in the order of the nodes; a node which is
\* neither closed nor published gets its half of the parent's expansion
RECURSIVE Regrow(_,_,_,_,_)
Regrow(level, cl, from, salt, seeds) ==
    IF Len(level) = Leaves THEN level
    ELSE LET n  == Len(level)
             ch == TLCEval([i \in 1..n |-> IF cl[n - 1 + i] = 1 THEN << >> ELSE TLCEval(Children(salt, level[i]))])
             \* node of place j on the next level, counting from 1
             node(j) == 2 * n - 1 + j
             seed(j) == LET c == ch[(j + 1) \div 2]
                        IN IF cl[node(j)] = 1 THEN << >>
                           ELSE IF c = << >> THEN seeds[from[node(j) - 1]]
                           ELSE IF j % 2 = 1 THEN SubSeq(c, 1, SL) ELSE SubSeq(c, SL + 1, 2 * SL)
         IN Regrow(TLCEval([j \in 1..(2 * n) |-> TLCEval(seed(j))]), cl, from, salt, seeds)
Rebuild(hid, seeds, salt) ==
    LET cl   == TLCEval(Closed(hid))
        p    == TLCEval(Published(hid))
        from == TLCEval([i \in {p[x] : x \in 1..Len(p)} |-> CHOOSE x \in 1..Len(p) : p[x] = i])
        g    == TLCEval(Regrow(<< << >> >>, cl, from, salt, seeds))
    IN [leaf |-> TLCEval([r \in 1..T |-> g[r]]), used |-> Len(p)]
=============================================================================
