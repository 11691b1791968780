------------------------------- MODULE T_C02 -------------------------------
(* A well-formed signature is accepted iff it reproduces the hash *)
EXTENDS TraceBase

AcceptC02(x, ev) ==
    CASE ev.e = "open" ->
            LET sm == SmOf(x, ev)
                f  == TLCEval(Frame(sm))
                v  == TLCEval(IF f.why # "ok" THEN f.why ELSE VerifyParts(PkOf(x, ev), f.m, f.sig))
            IN CASE v = "ok"   -> EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.m = f.m)
                 [] v = "hash" -> EachAnswer(ev, LAMBDA a : a.ret # 0)
                 [] OTHER      -> TRUE
      [] ev.e = "huge" -> EachAnswer(ev, LAMBDA a : \A i \in 1..Len(a.rets) : a.rets[i] # 0)
      [] OTHER -> TRUE
=============================================================================
