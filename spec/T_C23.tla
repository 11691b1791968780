------------------------------- MODULE T_C23 -------------------------------
(* The known-answer generator *)
EXTENDS TraceBase, Drbg

Entries == 100
MlenOf(i) == 33 * (i + 1)          \* i counts from 0
Entropy == [j \in 1..48 |-> j - 1]

Cut(b, off, n) == SubSeq(b, off + 1, off + n)

\* the NIST generator before entry i
RECURSIVE Forward(_,_,_)
Forward(g, i, to) == IF i >= to THEN g
                     ELSE Forward(TLCEval(DrbgNext(DrbgNext(g, 48), MlenOf(i))), i + 1, to)
\* memo holds one record: the next entry, the generator before it
Start == [i |-> 0, g |-> DrbgInit(Entropy, << >>), msg |-> << >>]
Mem(x) == IF x.memo = {} THEN Start ELSE CHOOSE r \in x.memo : TRUE
At(x, i) == LET m == Mem(x) IN TLCEval(Forward(m.g, m.i, i))

RememberC23(x, ev) == CASE ev.e = "kat" -> {[i |-> ev.i, g |-> At(x, ev.i), msg |-> ev.msg]}
                       [] OTHER -> x.memo

\* what the scheme gives for a seed and a message
Expected(seed, m) ==
    LET str == TLCEval(XofBytes(seed, KeyDraw + SignDraw))
        kg  == TLCEval(KeyGen(Cut(str, 0, KeyDraw)))
        r   == TLCEval(Cut(str, KeyDraw, SignDraw))
    IN [pk |-> kg.pk, sk |-> kg.sk, sm |-> SignedMessage(kg.sk, m, Cut(r, 0, SL), Cut(r, SL, HL))]

KatOk(x, ev) ==
    LET g == At(x, ev.i)
    IN /\ ev.count = ev.i
       /\ ev.mlen = MlenOf(ev.i)
       /\ ev.same = 1
       /\ Len(ev.msg) = ev.mlen /\ Len(ev.sm) = ev.smlen
       /\ ev.seed = DrbgBytes(g, 48, 48)
       /\ ev.msg = DrbgBytes(DrbgNext(g, 48), ev.mlen, ev.mlen)
       /\ ev.full = 1 => LET w == TLCEval(Expected(ev.seed, ev.msg))
                         IN ev.pk = w.pk /\ ev.sk = w.sk /\ ev.sm = w.sm

AcceptC23(x, ev) ==
    CASE ev.e = "katrun" -> /\ ev.ret = 0 /\ ev.nreq = Entries /\ ev.nrsp = Entries
                            /\ EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.sha = ev.sha)
      [] ev.e = "kat"    -> ev.alt = << >> /\ KatOk(x, ev)
      [] ev.e = "open"   -> EachAnswer(ev, LAMBDA a : a.ret = 0 /\ a.m = Mem(x).msg)
      [] OTHER -> TRUE
=============================================================================
