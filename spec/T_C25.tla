------------------------------- MODULE T_C25 -------------------------------
(* Responses open the commitments of their rounds *)
EXTENDS TraceBase

AcceptC25(x, ev) ==
    CASE ev.e = "sign" -> EachAnswer(ev, LAMBDA a : ResponsesOpen(x.keys[ev.k], ev.m, a, Drawn(x, x.pos, SignDraw)))
      [] OTHER -> TRUE
=============================================================================
