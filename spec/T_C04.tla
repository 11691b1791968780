------------------------------- MODULE T_C04 -------------------------------
(* The verifier rebuilds the seeds of the unchallenged rounds *)
EXTENDS TraceBase

Seed(b, i) == SubSeq(b, i * SL + 1, (i + 1) * SL)      \* i from 0

\* nodes with a round below them, and their siblings, which may be published
HasRound == TLCEval(CloseUp(TLCEval([n \in 1..Leaves |-> IF n <= T THEN 1 ELSE 0])))
Needed == TLCEval({i \in 0..(Nodes - 1) : IF i = 0 THEN TRUE ELSE HasRound[Parent(i) + 1] = 1})

AcceptC04(x, ev) ==
    CASE ev.e = "treetrip" ->
            LET tree == TLCEval(TreeFromRoot(ev.root, ev.salt))
                path == TLCEval(Path(tree, ev.hid))
                ok(a) == /\ a.n = Len(path)
                         /\ a.pub = FlattenSeq(path)
                         /\ a.used = a.n
                         /\ Len(a.leaves) = T * SL
                         /\ \A r \in 0..(T-1) : (ev.hid[r+1] = 0) <=> (Seed(a.leaves, r) = tree[LeafOf(r) + 1])
            IN EachAnswer(ev, ok)
      [] ev.e = "tree" -> LET tree == TLCEval(TreeFromRoot(ev.root, ev.salt))
                          IN EachAnswer(ev, LAMBDA a : \A i \in Needed : Seed(a.nodes, i) = tree[i + 1])
      \* arbitrary seeds, as in a forged signature
      [] ev.e = "rebuild" ->
            LET n == Len(ev.seeds) \div SL
                g == TLCEval(Rebuild(ev.hid, TLCEval([i \in 1..n |-> Seed(ev.seeds, i - 1)]), ev.salt))
            IN EachAnswer(ev, LAMBDA a : /\ a.used = g.used
                                         /\ \A r \in 0..(T-1) : ev.hid[r+1] = 0 => Seed(a.rnodes, LeafOf(r)) = g.leaf[r+1])
      [] OTHER -> TRUE
=============================================================================
