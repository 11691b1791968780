------------------------------- MODULE T_C09 -------------------------------
(* Public keys are the reduced images of the public code *)
EXTENDS TraceBase

AcceptC09(x, ev) ==
    CASE ev.e = "keypair" -> EachAnswer(ev, LAMBDA a : a.ret = 0 /\ Len(a.sk) = SkBytes /\ a.pk = KeyGen(a.sk).pk)
      [] ev.e = "sign"    -> EachAnswer(ev, LAMBDA a : ResponsesFit(SkOf(x, ev), ev.m, a, Drawn(x, x.pos, SignDraw)))
      [] ev.e = "priv"    -> LET m == TLCEval(PrivMap(ev.seed)) IN EachAnswer(ev, LAMBDA a : a.c = m.c /\ a.p = m.p)
      [] OTHER -> TRUE
=============================================================================
