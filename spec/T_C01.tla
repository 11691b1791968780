------------------------------- MODULE T_C01 -------------------------------
(* Honest signatures open to the signed message *)
EXTENDS TraceBase

AcceptC01(x, ev) ==
    CASE ev.e = "keypair" -> EachAnswer(ev, LAMBDA a : a.ret = 0)
      [] ev.e = "sign"    -> EachAnswer(ev, LAMBDA a : a.ret = 0)
      [] ev.e = "open" /\ IsHonest(x, ev) ->
            LET m == x.sigs[ev.of].m
            IN EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.mlen = Len(m) /\ a.m = m)
      \* a message too long to be written down: only lengths and the comparison with it
      [] ev.e = "huge" /\ ev.plain = 1 -> EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.oret = 0 /\ a.mlen = ev.n /\ a.same = 1)
      [] OTHER -> TRUE
=============================================================================
