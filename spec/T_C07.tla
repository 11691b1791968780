------------------------------- MODULE T_C07 -------------------------------
(* Operations draw the documented randomness, in order *)
EXTENDS TraceBase

AcceptC07(x, ev) ==
    CASE ev.e = "probe"   -> EachAnswer(ev, LAMBDA a : a.out = Drawn(x, x.pos, ev.n))
      [] ev.e = "keypair" ->
            LET r == Drawn(x, x.pos, KeyDraw)
            IN EachAnswer(ev, LAMBDA a : /\ a.ret = 0
                                         /\ SubSeq(a.sk, 1, PL) = SubSeq(r, 1, PL)
                                         /\ SubSeq(a.sk, PL + 1, PL + SL) = SubSeq(r, PL + 1, PL + SL)
                                         /\ SubSeq(a.pk, 1, SL) = SubSeq(r, PL + 1, PL + SL))
      [] ev.e = "sign" ->
            LET r == Drawn(x, x.pos, SignDraw)
                salt == SubSeq(r, SL + 1, SL + HL)
                tree == TLCEval(TreeFromRoot(SubSeq(r, 1, SL), salt))
                nodes == {tree[i] : i \in 1..Nodes}
                ok(a) == IF a.ret # 0 \/ ~SizeOK(a.sm, Len(ev.m)) THEN FALSE
                         ELSE LET p == TLCEval(Pieces(a.sm, Len(ev.m)))
                              IN /\ p.salt = salt
                                 /\ Len(p.seeds) > 0 => \E i \in 1..Len(p.seeds) : p.seeds[i] \in nodes
            IN EachAnswer(ev, ok)
      [] OTHER -> TRUE
=============================================================================
