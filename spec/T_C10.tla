------------------------------- MODULE T_C10 -------------------------------
(* Row reduction *)
EXTENDS TraceBase

AcceptC10(x, ev) ==
    CASE ev.e = "rref" ->
            LET r == TLCEval(RREF(ev.in))
            IN EachAnswer(ev, LAMBDA a : IF r.ok THEN a.ok = 1 /\ a.g = r.m /\ a.fl = Flags(r.piv, N) ELSE a.ok = 0)
      [] OTHER -> TRUE
=============================================================================
