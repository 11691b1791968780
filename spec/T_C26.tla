------------------------------- MODULE T_C26 -------------------------------
(* Keys and signatures are the specified function of key, message and stream *)
EXTENDS TraceBase

AcceptC26(x, ev) ==
    CASE ev.e = "keypair" ->
            LET kg == TLCEval(KeyGen(Drawn(x, x.pos, KeyDraw)))
            IN EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.sk = kg.sk /\ a.pk = kg.pk)
      [] ev.e = "sign" ->
            LET r == Drawn(x, x.pos, SignDraw)
                sm == TLCEval(SignedMessage(SkOf(x, ev), ev.m, SubSeq(r, 1, SL), SubSeq(r, SL + 1, SL + HL)))
            IN EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.sm = sm)
      [] OTHER -> TRUE
=============================================================================
