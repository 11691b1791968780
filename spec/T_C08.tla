------------------------------- MODULE T_C08 -------------------------------
(* Ephemeral and private maps are expansions of all of their inputs *)
EXTENDS TraceBase

SameMap(a, m) == a.c = m.c /\ a.p = m.p

AcceptC08(x, ev) ==
    CASE ev.e = "ephem" -> LET m == TLCEval(EphemeralMap(ev.seed, ev.salt, ev.r)) IN EachAnswer(ev, LAMBDA a : SameMap(a, m) /\ a.rng = 0)
      [] ev.e = "priv"  -> LET m == TLCEval(PrivMap(ev.seed)) IN EachAnswer(ev, LAMBDA a : SameMap(a, m) /\ a.rng = 0)
      [] ev.e = "sign"  -> EachAnswer(ev, LAMBDA a : ResponsesFit(SkOf(x, ev), ev.m, a, Drawn(x, x.pos, SignDraw)))
      [] OTHER -> TRUE
=============================================================================
