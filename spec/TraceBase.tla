----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation against the           *)
(* specification.  A trace is a sequence of sessions, a session a sequence *)
(* of events in the order in which the calls returned.  One action per     *)
(* event: it is enabled when the specification accepts the event in the    *)
(* current state (Accept, chosen per property), and it moves the state of  *)
(* the session machine (After).  The sessions are independent of each      *)
(* other and explored from one initial state each.                         *)
(*                                                                         *)
(* The session machine: the platform random generator (its seed and how    *)
(* many bytes were drawn), the key pairs made so far, the signed messages  *)
(* issued so far, and what a property wants to remember (memo).            *)
(*                                                                         *)
(* An event has a kind (e), the arguments of the call, the answer of the   *)
(* first back end, and in alt the answers of further back ends to the same *)
(* call.  A call that crashed or did not return is an event "fault", which *)
(* no property accepts.                                                    *)
(***************************************************************************)
EXTENDS Less, Json, IOUtils

CONSTANTS Accept(_,_), Remember(_,_)

LoadTrace(file) == JsonDeserialize(file)
Trace == LoadTrace(IOEnv.TRACE)

VARIABLES s, l, st
vars == << s, l, st >>

St0 == [seed |-> << >>, pos |-> 0, keys |-> << >>, sigs |-> << >>, memo |-> {}]

\* n bytes of the platform generator from byte off of its stream on
Drawn(x, off, n) == SubSeq(XofBytes(x.seed, off + n), off + 1, off + n)

\* the state after an event, whatever the event's results
After(x, ev) ==
    CASE ev.e = "rng"     -> [x EXCEPT !.seed = ev.seed, !.pos = 0]
      [] ev.e = "probe"   -> [x EXCEPT !.pos = @ + ev.n]
      [] ev.e = "keypair" -> [x EXCEPT !.pos = @ + KeyDraw, !.keys = Append(@, [pk |-> ev.pk, sk |-> ev.sk])]
      [] ev.e = "import"  -> [x EXCEPT !.keys = Append(@, [pk |-> ev.pk, sk |-> ev.sk])]
      [] ev.e = "sign"    -> [x EXCEPT !.pos = @ + SignDraw, !.sigs = Append(@, [k |-> ev.k, m |-> ev.m, sm |-> ev.sm])]
      [] ev.e = "huge"    -> [x EXCEPT !.pos = @ + SignDraw]
      [] OTHER            -> x

\* key pair and signed message an event refers to
PkOf(x, ev) == IF ev.k = 0 THEN ev.pk ELSE x.keys[ev.k].pk
SkOf(x, ev) == x.keys[ev.k].sk
SmOf(x, ev) == IF ev.of = 0 THEN ev.sm ELSE x.sigs[ev.of].sm
\* an opening of a signed message under the key it was made with
IsHonest(x, ev) == IF ev.of = 0 \/ ev.k = 0 THEN FALSE ELSE x.sigs[ev.of].k = ev.k

\* answers of all back ends
Answers(ev) == << ev >> \o ev.alt
EachAnswer(ev, P(_)) == LET a == Answers(ev) IN \A i \in 1..Len(a) : P(a[i])

Nothing(x, ev) == x.memo

Init == /\ s \in 1..Len(Trace)
        /\ l = 1
        /\ st = St0

Ev == Trace[s][l]

Accepted(x, ev) == IF ev.e = "fault" THEN FALSE ELSE Accept(x, ev)

Next == /\ l <= Len(Trace[s])
        /\ IF TLCEval(Accepted(st, Ev)) = TRUE THEN TRUE ELSE PrintT(<< "REJECT", s, l >>) /\ FALSE
        /\ st' = [After(st, Ev) EXCEPT !.memo = Remember(st, Ev)]
        /\ l' = l + 1
        /\ s' = s

Spec == Init /\ [][Next]_vars

View == << s, l >>
=============================================================================
