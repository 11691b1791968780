------------------------------- MODULE T_C21 -------------------------------
(* Samplers *)
EXTENDS TraceBase

\* 16 bytes of the stream after the first n
Following(seed, n) == SubSeq(XofBytes(seed, n + 16), n + 1, n + 16)
MonoStream(seed) == SampleMonomial(seed)

AcceptC21(x, ev) ==
    CASE ev.e = "sample" ->
            LET str == TLCEval(XofBytes(ev.seed, StreamFor(ev.n)))
                r   == TLCEval(IF ev.kind \in {0, 2} THEN FieldElems(str, ev.n) ELSE FieldStarElems(str, ev.n))
                nx  == TLCEval(Following(ev.seed, 8 * r.words))
            IN EachAnswer(ev, LAMBDA a : a.els = r.els /\ a.next = nx /\ a.over = 0)
      [] ev.e = "samplemono" ->
            LET m == TLCEval(SampleMonomial(ev.seed))
                nx == TLCEval(Following(ev.seed, m.used))
            IN EachAnswer(ev, LAMBDA a : a.c = m.c /\ a.p = m.p /\ a.next = nx)
      [] ev.e = "samplegen" ->
            LET r == TLCEval(SampleRows(TLCEval(XofBytes(ev.seed, K * StreamFor(N))), 0, K, N, << >>))
                nx == TLCEval(Following(ev.seed, r.used))
            IN EachAnswer(ev, LAMBDA a : a.g = r.rows /\ a.next = nx)
      [] ev.e = "ephem"    -> LET m == TLCEval(EphemeralMap(ev.seed, ev.salt, ev.r)) IN EachAnswer(ev, LAMBDA a : a.c = m.c /\ a.p = m.p)
      [] ev.e = "priv"     -> LET m == TLCEval(PrivMap(ev.seed)) IN EachAnswer(ev, LAMBDA a : a.c = m.c /\ a.p = m.p)
      [] ev.e = "sfexpand" -> LET r == TLCEval(SampleSystematic(ev.seed)) IN EachAnswer(ev, LAMBDA a : a.vals = r)
      [] OTHER -> TRUE
=============================================================================
