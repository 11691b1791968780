------------------------------- MODULE T_C20 -------------------------------
(* Field arithmetic *)
EXTENDS TraceBase

\* operands which reductions get: products of two elements plus an element
Bound == 126 * 126 + 126

AcceptC20(x, ev) ==
    CASE ev.e = "fqred" -> EachAnswer(ev, LAMBDA a : \A i \in 1..Len(a.r) : LET v == ev.from + i - 1 IN v <= Bound => a.r[i] = v % Q)
      [] ev.e = "fqinv" -> EachAnswer(ev, LAMBDA a : \A i \in 1..127 : a.r[i] = InvQ(i - 1))
      [] ev.e = "fqmul" -> EachAnswer(ev, LAMBDA a : \A i \in 1..127 : a.r[i] = MulQ(ev.a, i - 1))
      \* every vector lane: column scaling, and elimination steps
      [] ev.e = "gmul"  -> LET g == TLCEval(MonoAct(ev.in, [c |-> ev.mc, p |-> ev.mp])) IN EachAnswer(ev, LAMBDA a : a.g = g)
      [] ev.e = "rref"  -> LET r == TLCEval(RREF(ev.in)) IN EachAnswer(ev, LAMBDA a : r.ok => a.g = r.m)
      [] ev.e = "lexmin" -> LET m == FromCols(TLCEval([j \in 1..N |-> NormCol(Column(ev.in, j))]), K)
                            IN EachAnswer(ev, LAMBDA a : a.g = ColsOf(m))
      [] OTHER -> TRUE
=============================================================================
