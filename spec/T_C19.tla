------------------------------- MODULE T_C19 -------------------------------
(* Hash functions under any chunking *)
EXTENDS TraceBase

Rate(k) == CASE k = 0 -> 168 [] k = 1 -> 136 [] k = 2 -> 136 [] k = 3 -> 104 [] OTHER -> 72
Dom(k)  == IF k < 2 THEN 31 ELSE 6
OutLen(k) == CASE k = 2 -> 32 [] k = 3 -> 48 [] OTHER -> 64
Fips(k, m, n) == Sponge(Rate(k), Dom(k), m, n)

\* several contexts: [k: function, d: absorbed so far, q: squeezed so far]
RECURSIVE Outputs(_,_,_)
Outputs(ops, ctx, i) ==
    IF i > Len(ops) THEN << >>
    ELSE LET o == ops[i]
             c == o.c + 1
         IN CASE o.o = "i" -> Outputs(ops, TLCEval([ctx EXCEPT ![c] = [k |-> o.k, d |-> << >>, q |-> 0]]), i + 1)
              [] o.o = "a" -> Outputs(ops, TLCEval([ctx EXCEPT ![c].d = @ \o o.d]), i + 1)
              [] o.o = "f" -> (IF ctx[c].k >= 2 THEN << Fips(ctx[c].k, ctx[c].d, OutLen(ctx[c].k)) >> ELSE << >>)
                              \o Outputs(ops, ctx, i + 1)
              [] OTHER     -> << SubSeq(Fips(ctx[c].k, ctx[c].d, ctx[c].q + o.n), ctx[c].q + 1, ctx[c].q + o.n) >>
                              \o Outputs(ops, TLCEval([ctx EXCEPT ![c].q = @ + o.n]), i + 1)

RECURSIVE Pieced(_,_,_,_)
Pieced(str, sizes, i, off) == IF i > Len(sizes) THEN << >>
                              ELSE << SubSeq(str, off + 1, off + sizes[i]) >> \o Pieced(str, sizes, i + 1, off + sizes[i])
RECURSIVE Total(_,_)
Total(sizes, i) == IF i > Len(sizes) THEN 0 ELSE sizes[i] + Total(sizes, i + 1)

AcceptC19(x, ev) ==
    CASE ev.e = "inc" ->
            LET o == TLCEval(Outputs(ev.ops, [i \in 1..8 |-> [k |-> 0, d |-> << >>, q |-> 0]], 1)) IN EachAnswer(ev, LAMBDA a : a.outs = o)
      [] ev.e = "oneshot" -> LET o == TLCEval(Fips(ev.kind, ev.d, ev.n)) IN EachAnswer(ev, LAMBDA a : a.out = o /\ a.over = 0)
      [] ev.e = "blocks"  -> LET o == TLCEval(Fips(ev.kind, ev.d, ev.n)) IN EachAnswer(ev, LAMBDA a : a.out = o /\ a.over = 0)
      [] ev.e = "stream"  -> LET o == TLCEval(Pieced(XofBytes(ev.seed, Total(ev.sizes, 1)), ev.sizes, 1, 0))
                             IN EachAnswer(ev, LAMBDA a : a.outs = o)
      \* an input too long to be written down: the same value by every way
      [] ev.e = "hugehash" -> EachAnswer(ev, LAMBDA a : \A i \in 1..Len(a.outs) : a.outs[i] = a.outs[1])
      [] OTHER -> TRUE
=============================================================================
