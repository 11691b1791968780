------------------------------- MODULE T_C16 -------------------------------
(* Opening arbitrary strings *)
EXTENDS TraceBase

AcceptC16(x, ev) ==
    CASE ev.e = "open" ->
            LET sm == SmOf(x, ev)
                f  == TLCEval(Frame(sm))
                v  == TLCEval(IF f.why # "ok" THEN f.why ELSE IF ev.genuine = 1 THEN VerifyParts(PkOf(x, ev), f.m, f.sig) ELSE "any")
                ok(a) == /\ a.over = 0 /\ a.past = 0 /\ a.insame = 1
                         /\ v \in {"short", "count"} => a.ret # 0
                         /\ v = "ok" => a.ret = 0 /\ a.m = f.m
            IN EachAnswer(ev, ok)
      [] OTHER -> TRUE
=============================================================================
