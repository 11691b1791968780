------------------------------ MODULE SchemeMC ------------------------------
(***************************************************************************)
(* The specification against itself: keys, signatures and openings as      *)
(* Less.tla defines them, on small parameters.  Honest signatures open,    *)
(* under every seed; a changed message, salt, digest, seed or count does   *)
(* not; neither does another key.  (N is large enough for the number of    *)
(* information sets of a code, hence of commitments, to rule out chance.)  *)
(***************************************************************************)
EXTENDS Less
CONSTANTS Seeds, Lens
VARIABLES seed, len
vars == << seed, len >>
Init == seed \in Seeds /\ len \in Lens
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Str(x) == TLCEval(XofBytes(<< x % 256, x \div 256 >>, KeyDraw + SignDraw))
KG(x) == TLCEval(KeyGen(SubSeq(Str(x), 1, KeyDraw)))
Msg == [i \in 1..len |-> (seed + 3 * i) % 256]
SMOf(kg, m, x) == TLCEval(SignedMessage(kg.sk, m, SubSeq(Str(x), KeyDraw + 1, KeyDraw + SL), SubSeq(Str(x), KeyDraw + SL + 1, KeyDraw + SignDraw)))
Bump(b, i) == [b EXCEPT ![i] = (@ + 1 + (i % 254)) % 256]
Inv == LET kg == TLCEval(KG(seed))
           sm == TLCEval(SMOf(kg, Msg, seed))
           p  == TLCEval(Pieces(sm, len))
           off == len + HL + W * ActionBytes
           n  == Len(p.seeds)
       IN /\ Len(kg.pk) = PkBytes /\ Len(kg.sk) = SkBytes
          /\ SizeOK(sm, len) /\ Len(sm) = len + SigBytes(n) /\ n <= MaxSeeds
          /\ SubSeq(sm, 1, len) = Msg
          /\ OpenVerdict(sm, kg.pk) = "ok"
          \* responses and commitments belong together
          /\ ResponsesFit(kg.sk, Msg, [ret |-> 0, sm |-> sm], SubSeq(Str(seed), KeyDraw + 1, KeyDraw + SignDraw))
          /\ ResponsesOpen([pk |-> kg.pk, sk |-> kg.sk], Msg, [ret |-> 0, sm |-> sm], SubSeq(Str(seed), KeyDraw + 1, KeyDraw + SignDraw))
          \* message, salt, digest, count
          /\ \A i \in {j \in 1..(len + HL) : (j % 7) = (seed % 7)} \cup {j \in (off + 1)..(off + HL) : (j % 5) = (seed % 5)} \cup {Len(sm)} :
                OpenVerdict(Bump(sm, i), kg.pk) # "ok"
          \* seeds: exactly those from which a round is regenerated matter
          /\ \A i \in 1..n :
                LET pub == Published(Hidden(ChallengeOf(p.digest)))
                    at  == off + HL + (i - 1) * SL + 1 + (seed % SL)
                IN (OpenVerdict(Bump(sm, at), kg.pk) = "ok")
                     <=> (LeavesBelow(pub[i]) \cap {LeafOf(r) : r \in 0..(T-1)} = {})
          /\ OpenVerdict(SubSeq(sm, 1, Len(sm) - 1), kg.pk) # "ok"
          /\ OpenVerdict(sm \o << 0 >>, kg.pk) # "ok"
          /\ OpenVerdict(<< 1 >> \o sm, kg.pk) # "ok"
          /\ OpenVerdict(sm, KG(seed + 1000).pk) # "ok"
=============================================================================
