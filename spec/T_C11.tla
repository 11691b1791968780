------------------------------- MODULE T_C11 -------------------------------
(* Canonical forms *)
EXTENDS TraceBase

AcceptC11(x, ev) ==
    CASE ev.e = "commit"  -> LET c == TLCEval(Commit(ev.in, [c |-> ev.mc, p |-> ev.mp]))
                             IN EachAnswer(ev, LAMBDA a : c.ok => a.v = c.v)
      [] ev.e = "lexmin"  -> LET m == FromCols(TLCEval([j \in 1..N |-> NormCol(Column(ev.in, j))]), K)
                             IN EachAnswer(ev, LAMBDA a : a.g = ColsOf(m))
      [] ev.e = "lexsort" -> LET v == TLCEval(SortMatrix(ev.in)) IN EachAnswer(ev, LAMBDA a : a.v = v)
      [] OTHER -> TRUE
=============================================================================
