------------------------------- MODULE MonoMC -------------------------------
(***************************************************************************)
(* Monomial maps of small length: the group laws, the action on matrices,  *)
(* partial actions, and the equation on which verification rests: the      *)
(* response applied to the public generator gives the commitment.          *)
(***************************************************************************)
EXTENDS Canon
CONSTANTS Coefs, Gens
VARIABLES a, b
vars == << a, b >>
Perms == {p \in [1..N -> 0..(N-1)] : IsPerm(p, N)}
\* coefficients: a base value per map, varied along the columns
Maps == {[c |-> [i \in 1..N |-> ((x * i) % 126) + 1], p |-> p] : x \in Coefs, p \in Perms}
Init == a \in Maps /\ b \in Maps
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* some systematic generators
Gen(x) == [i \in 1..K |-> [j \in 1..N |-> IF j <= K THEN (IF i = j THEN 1 ELSE 0) ELSE (x * i * i + 31 * j * x + i * j) % Q]]
Group == /\ IsMonomial(MonoMul(a, b)) /\ IsMonomial(MonoInv(a))
         /\ MonoMul(a, MonoInv(a)) = MonoId /\ MonoMul(MonoInv(a), a) = MonoId
         /\ MonoMul(a, MonoId) = a /\ MonoMul(MonoId, a) = a
         /\ MonoMul(MonoMul(a, b), a) = MonoMul(a, MonoMul(b, a))
         /\ MonoInv(MonoMul(a, b)) = MonoMul(MonoInv(b), MonoInv(a))
Acts == \A x \in Gens : LET g == TLCEval(Gen(x))
                        IN /\ MonoAct(MonoAct(g, a), b) = MonoAct(g, MonoMul(a, b))
                           /\ MonoAct(g, MonoId) = g
\* a key made with private map a, a commitment with map b: the response
\* applied to the key's generator has the canonical form of the commitment
Verifies == \A x \in Gens :
    LET g0  == TLCEval(Gen(x))
        key == TLCEval(RREF(MonoAct(g0, MonoInv(a))))
        com == TLCEval(Commit(g0, b))
    IN (key.ok /\ com.ok) =>
         LET resp == TLCEval(MonoCompose(a, com.act))
             ans  == TLCEval(Respond(key.m, resp))
         IN /\ ActionValid(resp)
            /\ ans.ok /\ ans.v = com.v
            /\ UnpackAction(PackAction(resp)) = [p |-> resp.p, c |-> resp.c]
            /\ Len(PackAction(resp)) = ActionBytes
Inv == Group /\ Acts /\ Verifies
=============================================================================
