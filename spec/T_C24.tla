------------------------------- MODULE T_C24 -------------------------------
(* The NIST deterministic generators *)
EXTENDS TraceBase, Drbg

\* memo holds one record: the generator (0 before its first use), the expanders
None == [g |-> << >>, x |-> [i \in 0..7 |-> << >>]]
Mem(x) == IF x.memo = {} THEN None ELSE CHOOSE r \in x.memo : TRUE
Success == 0
BadMaxlen == 0 - 1
BadOutbuf == 0 - 2
BadReqLen == 0 - 3

\* whether an expander with limit max, having returned pos bytes, may refuse
\* n more: it must when they exceed what is left, and need not return the
\* last byte of the stream
MustRefuse(e, n) == n > Limit(e.max) - e.pos
MayRefuse(e, n)  == n >= Limit(e.max) - e.pos

RememberC24(x, ev) ==
    LET m == Mem(x)
    IN CASE ev.e = "drbginit"  -> {[m EXCEPT !.g = DrbgInit(ev.entropy, ev.pers)]}
         [] ev.e = "drbgbytes" -> {[m EXCEPT !.g = DrbgNext(m.g, ev.n)]}
         [] ev.e = "drbgfar"   -> {[m EXCEPT !.g = DrbgFarNext(m.g, ev.nb, ev.nr)]}
         [] ev.e = "expinit"   -> IF LimitOk(ev.max) THEN {[m EXCEPT !.x[ev.c] = [seed |-> ev.seed, div |-> ev.div, max |-> ev.max, pos |-> 0]]} ELSE x.memo
         [] ev.e = "expand"    -> IF ev.ret = Success THEN {[m EXCEPT !.x[ev.c].pos = @ + ev.n]} ELSE x.memo
         [] OTHER -> x.memo

AcceptC24(x, ev) ==
    LET m == Mem(x)
    IN CASE ev.e = "drbginit"  -> EachAnswer(ev, LAMBDA a : a.insame = 1)
         [] ev.e = "drbgbytes" -> LET o == TLCEval(DrbgBytes(m.g, ev.n, ev.tail))
                                  IN EachAnswer(ev, LAMBDA a : a.ret = Success /\ a.out = o /\ a.over = 0)
         [] ev.e = "drbgfar"   -> LET h == TLCEval(DrbgBytes(m.g, ev.headn, ev.headn))
                                      o == TLCEval(DrbgFarBytes(m.g, ev.nb, ev.nr, ev.tail))
                                  IN EachAnswer(ev, LAMBDA a : a.ret = Success /\ a.head = h /\ a.out = o /\ a.over = 0)
         [] ev.e = "expinit"   -> EachAnswer(ev, LAMBDA a : a.ret = (IF LimitOk(ev.max) THEN Success ELSE BadMaxlen) /\ a.insame = 1)
         [] ev.e = "expand"    ->
              LET e == m.x[ev.c]
                  o == TLCEval(ExpanderBytes(e.seed, e.div, e.max, e.pos + ev.n - ev.tail, e.pos + ev.n))
              IN EachAnswer(ev, LAMBDA a : /\ a.over = 0
                                           /\ \/ ~MustRefuse(e, ev.n) /\ a.ret = Success /\ a.out = o
                                              \/ MayRefuse(e, ev.n) /\ a.ret = BadReqLen)
         [] ev.e = "expnull"   -> EachAnswer(ev, LAMBDA a : a.ret = BadOutbuf)
         [] OTHER -> TRUE
=============================================================================
