------------------------------- MODULE T_C12 -------------------------------
(* Monomial arithmetic *)
EXTENDS TraceBase

Map(c, p) == [c |-> c, p |-> p]
IsMap(a, m) == a.c = m.c /\ a.p = m.p

\* columns of a matrix as a multiset
CountOf(cols, c) == Cardinality({j \in 1..Len(cols) : cols[j] = c})
SameColumns(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountOf(a, a[i]) = CountOf(b, a[i])

AcceptC12(x, ev) ==
    CASE ev.e = "monomul" -> LET m == TLCEval(MonoMul(Map(ev.ac, ev.ap), Map(ev.bc, ev.bp))) IN EachAnswer(ev, LAMBDA a : IsMap(a, m))
      [] ev.e = "monoinv" -> LET m == TLCEval(MonoInv(Map(ev.ac, ev.ap))) IN EachAnswer(ev, LAMBDA a : IsMap(a, m))
      [] ev.e = "monoid"  -> EachAnswer(ev, LAMBDA a : IsMap(a, MonoId))
      [] ev.e = "gmul"    -> LET g == TLCEval(MonoAct(ev.in, Map(ev.mc, ev.mp))) IN EachAnswer(ev, LAMBDA a : a.g = g)
      [] ev.e = "compose" -> LET m == TLCEval(MonoCompose(Map(ev.mc, ev.mp), Map(ev.bc, ev.bp)))
                             IN EachAnswer(ev, LAMBDA a : a.ac = m.c /\ a.ap = m.p)
      \* the selected columns in place; the others follow in any order
      [] ev.e = "applyact" ->
            LET g == ColsOf(ActionAct(ev.in, Map(ev.bc, ev.bp)))
                ok(a) == LET h == ColsOf(a.g) IN SubSeq(h, 1, K) = SubSeq(g, 1, K) /\ SameColumns(SubSeq(h, K+1, N), SubSeq(g, K+1, N))
            IN EachAnswer(ev, ok)
      [] OTHER -> TRUE
=============================================================================
