---------------------------- MODULE IsolationMC ----------------------------
(***************************************************************************)
(* Openings which run at the same time, each in steps that read and write  *)
(* a work area: expand the seeds, compute the forms round by round, hash   *)
(* them, compare.  With work areas of their own (Shared = FALSE) each has  *)
(* the result it has alone, under every schedule; one area for all         *)
(* (Shared = TRUE) does not have this property, which shows that the       *)
(* model can tell.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Procs, Rounds, Shared
VARIABLES pc, area, result
vars == << pc, area, result >>
Input(p) == p
AreaOf(p) == IF Shared THEN 1 ELSE p
\* the work area: salt, forms, hash
Empty == [salt |-> 0, form |-> 0, acc |-> << >>]
Init == /\ pc = [p \in Procs |-> 0]
        /\ area = [i \in Procs |-> Empty]
        /\ result = [p \in Procs |-> << >>]
Start(p) == /\ pc[p] = 0
            /\ area' = [area EXCEPT ![AreaOf(p)] = [salt |-> Input(p), form |-> 0, acc |-> << >>]]
            /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED result
Form(p) == /\ pc[p] % 2 = 1 /\ pc[p] < 2 * Rounds
           /\ area' = [area EXCEPT ![AreaOf(p)].form = << @ , area[AreaOf(p)].salt, pc[p] >>]
           /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED result
Absorb(p) == /\ pc[p] % 2 = 0 /\ pc[p] > 0 /\ pc[p] <= 2 * Rounds
             /\ area' = [area EXCEPT ![AreaOf(p)].acc = Append(@, area[AreaOf(p)].form), ![AreaOf(p)].form = 0]
             /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED result
Finish(p) == /\ pc[p] = 2 * Rounds + 1
             /\ result' = [result EXCEPT ![p] = area[AreaOf(p)].acc]
             /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED area
Next == \E p \in Procs : Start(p) \/ Form(p) \/ Absorb(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars
Alone(p) == [r \in 1..Rounds |-> << 0, Input(p), 2 * r - 1 >>]
Inv == \A p \in Procs : pc[p] = 2 * Rounds + 2 => result[p] = Alone(p)
=============================================================================
