------------------------------- MODULE T_C17 -------------------------------
(* Opening under arbitrary public keys *)
EXTENDS TraceBase

AcceptC17(x, ev) ==
    CASE ev.e = "open" ->
            LET sm == SmOf(x, ev)
                f  == TLCEval(Frame(sm))
                pk == PkOf(x, ev)
                bad == TLCEval(IF f.why # "ok" THEN FALSE
                               ELSE LET c == TLCEval(ChallengeOf(f.sig.digest))
                                    IN \E i \in {c[r] : r \in {q \in 1..T : c[q] # 0}} : ~UnpackRref(KeyElem(pk, i)).ok)
                ok(a) == /\ a.over = 0 /\ a.past = 0 /\ a.insame = 1
                         /\ bad => a.ret # 0
                         /\ IsHonest(x, ev) => a.ret = 0
            IN EachAnswer(ev, ok)
      [] ev.e = "unpackrref" -> TRUE        \* only that it comes back
      [] OTHER -> TRUE
=============================================================================
