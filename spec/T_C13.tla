------------------------------- MODULE T_C13 -------------------------------
(* Packed responses *)
EXTENDS TraceBase

AcceptC13(x, ev) ==
    CASE ev.e = "packact" ->
            LET b == TLCEval(PackAction([p |-> ev.bp, c |-> ev.bc]))
            IN EachAnswer(ev, LAMBDA a : a.b = b /\ a.over = 0 /\ a.ap = ev.bp /\ a.ac = ev.bc)
      [] ev.e = "unpackact" ->
            LET u == TLCEval(UnpackAction(ev.bytes)) IN EachAnswer(ev, LAMBDA a : a.ap = u.p /\ a.ac = u.c /\ a.insame = 1)
      [] OTHER -> TRUE
=============================================================================
