------------------------------- MODULE T_C05 -------------------------------
(* Length of signatures *)
EXTENDS TraceBase

AcceptC05(x, ev) ==
    CASE ev.e = "keypair" -> EachAnswer(ev, LAMBDA a : a.over = 0)
      [] ev.e = "sign" ->
            EachAnswer(ev, LAMBDA a :
               IF a.ret # 0 THEN TRUE
               ELSE /\ a.over = 0
                    /\ a.smlen = Len(a.sm)
                    /\ SizeOK(a.sm, Len(ev.m))
                    /\ a.sm[Len(a.sm)] = SeedsNeeded(Pieces(a.sm, Len(ev.m)).digest)
                    /\ a.sm[Len(a.sm)] <= MaxSeeds)
      [] ev.e = "treetrip" -> EachAnswer(ev, LAMBDA a : a.n = Len(Published(ev.hid)) /\ a.n <= MaxSeeds /\ a.over = 0)
      [] ev.e = "params" ->
            EachAnswer(ev, LAMBDA a :
               /\ a.N = N /\ a.K = K /\ a.Q = Q /\ a.S = S /\ a.T = T /\ a.W = W /\ a.SL = SL
               /\ a.MAXB = MAXB
               /\ MaxSeeds >= MaxPublished
               /\ (ev.standard = 1 => MAXB = SL * WorstCase(T, W))
               /\ a.pkbytes = PkBytes /\ a.skbytes = SkBytes /\ a.sigmax = SigBytes(MaxSeeds)
               /\ a.rref = RrefBytes /\ a.action = ActionBytes /\ a.digest = HL)
      \* the parameter script: t rounds of weight w, security sec in bits
      [] ev.e = "script" ->
            /\ ev.out = CeilDiv(ev.sec, 8) * WorstCase(ev.t, ev.w)
            /\ ev.out >= CeilDiv(ev.sec, 8) * MaxPub(ev.t, ev.w)
      [] OTHER -> TRUE
=============================================================================
