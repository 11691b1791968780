------------------------------- MODULE T_C03 -------------------------------
(* A signature publishes the covering seeds and no secret *)
EXTENDS TraceBase

Windows(b, n) == {SubSeq(b, i + 1, i + n) : i \in 0..(Len(b) - n)}

\* sig: bytes of a signature; x: its challenge; rnd: what the signer drew
Secrets(sk, tree, cl) == {tree[n] : n \in {i \in 1..Nodes : cl[i] = 1}} \cup {SubSeq(sk, 1, SL), SubSeq(sk, SL + 1, PL)}
                         \cup UNION {LET p == PrivSeeds(SubSeq(sk, 1, PL))[i]
                                     IN {SubSeq(p, 1, SL), SubSeq(p, SL + 1, PL)} : i \in 1..(S-1)}

AcceptC03(x, ev) ==
    CASE ev.e = "sign" ->
            IF ev.ret # 0 THEN TRUE
            ELSE IF ~SizeOK(ev.sm, Len(ev.m)) THEN FALSE
            ELSE LET p   == TLCEval(Pieces(ev.sm, Len(ev.m)))
                     hid == Hidden(ChallengeOf(p.digest))
                     cl  == TLCEval(Closed(hid))
                     rnd == Drawn(x, x.pos, SignDraw)
                     tree == TLCEval(TreeFromRoot(SubSeq(rnd, 1, SL), p.salt))
                     sig == SubSeq(ev.sm, Len(ev.m) + 1, Len(ev.sm))
                 IN IF p.salt # SubSeq(rnd, SL + 1, SL + HL)
                    THEN Len(p.seeds) = Len(Published(hid))     \* not the expected draw: the count still counts
                    ELSE /\ p.seeds = Path(tree, hid)
                         /\ Windows(sig, SL) \cap Secrets(SkOf(x, ev), tree, cl) = {}
      \* which nodes are published, on a tree whose nodes are told apart by number
      [] ev.e = "treepath" -> EachAnswer(ev, LAMBDA a : a.ids = Published(ev.hid) /\ a.n = Len(a.ids))
      [] OTHER -> TRUE
=============================================================================
