------------------------------- MODULE T_C18 -------------------------------
(* All back ends agree *)
EXTENDS TraceBase

AcceptC18(x, ev) ==
    CASE ev.e = "keypair" -> EachAnswer(ev, LAMBDA a : a.ret = ev.ret /\ a.pk = ev.pk /\ a.sk = ev.sk)
      [] ev.e = "sign"    -> EachAnswer(ev, LAMBDA a : a.ret = ev.ret /\ a.smlen = ev.smlen /\ a.sm = ev.sm)
      [] ev.e = "open"    -> EachAnswer(ev, LAMBDA a : (a.ret = 0) = (ev.ret = 0) /\ (ev.ret = 0 => a.m = ev.m))
      [] ev.e = "probe"   -> EachAnswer(ev, LAMBDA a : a.out = ev.out)
      [] ev.e = "params"  -> EachAnswer(ev, LAMBDA a : a.pkbytes = ev.pkbytes /\ a.skbytes = ev.skbytes /\ a.sigmax = ev.sigmax)
      [] OTHER -> TRUE
=============================================================================
