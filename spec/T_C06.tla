------------------------------- MODULE T_C06 -------------------------------
(* The challenge is the sampler of the digest's stream *)
EXTENDS TraceBase

AcceptC06(x, ev) ==
    CASE ev.e = "challenge" ->
            LET c == TLCEval(ChallengeOf(ev.digest))
            IN EachAnswer(ev, LAMBDA a : a.x = c /\ a.over = 0 /\ a.rng = 0)
      \* the signer answers exactly the rounds the digest asks for
      [] ev.e = "sign" ->
            EachAnswer(ev, LAMBDA a : IF a.ret # 0 \/ ~SizeOK(a.sm, Len(ev.m)) THEN TRUE
               ELSE LET p == TLCEval(Pieces(a.sm, Len(ev.m)))
                    IN Len(p.seeds) = SeedsNeeded(p.digest))
      [] ev.e = "open" /\ IsHonest(x, ev) -> EachAnswer(ev, LAMBDA a : a.ret = 0)
      [] OTHER -> TRUE
=============================================================================
