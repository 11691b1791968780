------------------------------- MODULE T_C15 -------------------------------
(* Responses which are not partial monomial maps *)
EXTENDS TraceBase

AcceptC15(x, ev) ==
    CASE ev.e = "valid" -> LET v == TLCEval(IF ActionValid([c |-> ev.bc, p |-> ev.bp]) THEN 1 ELSE 0) IN EachAnswer(ev, LAMBDA a : a.v = v)
      [] ev.e = "open" ->
            LET f == TLCEval(Frame(SmOf(x, ev)))
                bad == TLCEval(IF f.why # "ok" THEN FALSE ELSE \E i \in 1..W : ~ActionValid(UnpackAction(f.sig.acts[i])))
            IN EachAnswer(ev, LAMBDA a : /\ bad => a.ret # 0
                                         /\ (IsHonest(x, ev) /\ ~bad) => a.ret = 0)
      [] OTHER -> TRUE
=============================================================================
