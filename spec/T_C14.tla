------------------------------- MODULE T_C14 -------------------------------
(* Packed and compact generators *)
EXTENDS TraceBase

AcceptC14(x, ev) ==
    CASE ev.e = "packrref" ->
            LET b == TLCEval(PackRref(ev.in, ev.fl)) IN EachAnswer(ev, LAMBDA a : a.b = b /\ a.over = 0 /\ a.g = ev.in)
      [] ev.e = "unpackrref" ->
            LET u == TLCEval(UnpackRref(ev.bytes)) IN EachAnswer(ev, LAMBDA a : a.insame = 1 /\ (u.ok => a.g = u.m))
      [] ev.e = "sfexpand" ->
            LET r == TLCEval(SampleSystematic(ev.seed))
            IN EachAnswer(ev, LAMBDA a : a.vals = r /\ a.pos = [j \in 1..(N-K) |-> K + j - 1] /\ a.g = Systematic(r))
      [] ev.e = "compact" ->
            LET np == TLCEval(SelectSeq([j \in 1..N |-> j], LAMBDA j : ev.fl[j] = 0))
            IN EachAnswer(ev, LAMBDA a : /\ a.pos = [j \in 1..(N-K) |-> np[j] - 1]
                                         /\ a.vals = [i \in 1..K |-> [j \in 1..(N-K) |-> ev.in[i][np[j]]]]
                                         /\ a.g = ev.in)
      [] OTHER -> TRUE
=============================================================================
