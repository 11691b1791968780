------------------------------- MODULE T_C22 -------------------------------
(* Isolation of operations *)
EXTENDS TraceBase

\* what a call may depend on, and what it returned
Depends(x, ev) == CASE ev.e = "keypair" -> << "keypair", x.seed, x.pos >>
                    [] ev.e = "sign"    -> << "sign", x.seed, x.pos, SkOf(x, ev), ev.m >>
                    [] ev.e = "open"    -> << "open", PkOf(x, ev), SmOf(x, ev) >>
                    [] OTHER            -> << >>
Result(a, e) == CASE e = "keypair" -> << a.ret, a.pk, a.sk >>
                  [] e = "sign"    -> << a.ret, a.smlen, a.sm >>
                  [] OTHER         -> << a.ret, a.m >>
Stateful == {"keypair", "sign", "open"}

RememberC22(x, ev) == IF ev.e \in Stateful THEN x.memo \cup {<< Depends(x, ev), Result(ev, ev.e) >>} ELSE x.memo

Clean(ev, a) == CASE ev.e = "keypair"   -> a.glob = 0
                  [] ev.e = "sign"      -> a.glob = 0 /\ a.insame = 1
                  [] ev.e = "open"      -> a.glob = 0 /\ a.insame = 1 /\ a.rng = 0
                  [] ev.e = "challenge" -> a.glob = 0 /\ a.insame = 1 /\ a.rng = 0
                  [] ev.e \in {"ephem", "priv"} -> a.glob = 0 /\ a.rng = 0
                  [] ev.e = "treetrip"  -> a.glob = 0 /\ a.insame = 1
                  [] OTHER -> TRUE

AcceptC22(x, ev) ==
    /\ EachAnswer(ev, LAMBDA a : Clean(ev, a))
    /\ ev.e \in Stateful => \A m \in x.memo : m[1] = Depends(x, ev) => EachAnswer(ev, LAMBDA a : m[2] = Result(a, ev.e))
    \* concurrent openings give what openings one by one gave
    /\ ev.e = "openmt" => EachAnswer(ev, LAMBDA a :
            /\ a.glob = 0 /\ a.rng = 0
            /\ \A t \in 1..Len(a.rets) : \A i \in 1..Len(ev.jobs) :
                  \A m \in x.memo : m[1] = << "open", ev.jobs[i].pk, ev.jobs[i].sm >> => m[2][1] = a.rets[t][i])
    /\ ev.e = "probe" => EachAnswer(ev, LAMBDA a : a.out = Drawn(x, x.pos, ev.n))
=============================================================================
