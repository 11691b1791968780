-------------------------------- MODULE Less --------------------------------
(***************************************************************************)
(* The signature scheme on byte strings: key generation, signing,          *)
(* verification and the framing of signed messages.                        *)
(* Byte layouts                                                            *)
(*   sk  = private seed (PL) || public-code seed (SL)                      *)
(*   pk  = public-code seed (SL) || packed generators 1 .. S-1             *)
(*   sm  = message || salt (HL) || W packed actions || digest (HL)         *)
(*         || published seeds (SL each) || their number (1)                *)
(***************************************************************************)
EXTENDS Canon, SeedTree, Challenge

LOCAL Cut(b, off, len) == SubSeq(b, off + 1, off + len)

\* a round number as two bytes
LE16(i) == << i % 256, (i \div 256) % 256 >>

-----------------------------------------------------------------------------
(* Private maps                                                            *)

\* seeds of the S-1 private (inverse) maps
PrivSeeds(skseed) ==
    LET str == TLCEval(XofBytes(skseed, (S-1) * PL))
    IN TLCEval([i \in 1..(S-1) |-> Cut(str, (i-1)*PL, PL)])

\* the private map of key i (1..S-1): generator i times this map spans G0
PrivMap(seed) == SampleMonomial(seed)

EphemeralMap(seed, salt, r) == SampleMonomial(seed \o salt \o LE16(r))

PublicCode(gseed) == Systematic(SampleSystematic(gseed))

-----------------------------------------------------------------------------
(* Key generation from 3*SL random bytes                                   *)

\* reduced generator of key i: [ok, m, piv]
KeyMatrix(G0, seed) == RREF(MonoAct(G0, MonoInv(PrivMap(seed))))

KeyGen(rnd) ==
    LET skseed == Cut(rnd, 0, PL)
        gseed  == Cut(rnd, PL, SL)
        G0     == TLCEval(PublicCode(gseed))
        seeds  == TLCEval(PrivSeeds(skseed))
        elem(i) == LET r == TLCEval(KeyMatrix(G0, seeds[i])) IN PackRref(r.m, Flags(r.piv, N))
    IN [sk |-> skseed \o gseed,
        pk |-> FlattenSeq(<< gseed >> \o [i \in 1..(S-1) |-> TLCEval(elem(i))])]

-----------------------------------------------------------------------------
(* The signature of a transcript.  A signature record has fields salt,     *)
(* acts (sequence of W packed actions), digest, seeds.                     *)

\* commitments of all rounds for the given leaf seeds
Commitments(G0, leaf, salt) ==
    CommitAll(G0, TLCEval([r \in 1..T |-> EphemeralMap(leaf[r], salt, r - 1)]))

\* hash of the transcript
TranscriptHash(vs, m, salt) == Hash(FlatForms(vs) \o m \o salt)

\* challenged rounds in order
HitRounds(x) == SelectSeq([r \in 1..T |-> r], LAMBDA r : x[r] # 0)

Sign(sk, m, eseed, salt) ==
    LET privs  == TLCEval(PrivSeeds(Cut(sk, 0, PL)))
        G0     == TLCEval(PublicCode(Cut(sk, PL, SL)))
        tree   == TLCEval(TreeFromRoot(eseed, salt))
        com    == TLCEval(Commitments(G0, [r \in 1..T |-> tree[Leaves - 1 + r]], salt))
        digest == TLCEval(TranscriptHash([r \in 1..T |-> com[r].v], m, salt))
        x      == TLCEval(ChallengeOf(digest))
        hit    == TLCEval(HitRounds(x))
        act(r) == PackAction(MonoCompose(PrivMap(privs[x[r]]), com[r].act))
    IN [salt |-> salt, digest |-> digest,
        acts |-> TLCEval([i \in 1..W |-> act(hit[i])]),
        seeds |-> TLCEval(Path(tree, Hidden(x)))]

SigSeq(sig) == sig.salt \o FlattenSeq(sig.acts) \o sig.digest \o FlattenSeq(sig.seeds) \o << Len(sig.seeds) >>

SignedMessage(sk, m, eseed, salt) == m \o SigSeq(Sign(sk, m, eseed, salt))

\* packed generator i of a public key
KeyElem(pk, i) == Cut(pk, SL + (i-1) * RrefBytes, RrefBytes)

\* bytes drawn from the platform generator by a key generation: private seed,
\* then public-code seed; and by a signature: ephemeral seed, then salt
KeyDraw  == PL + SL
SignDraw == SL + HL

\* pieces of a signed message which carries a message of mlen bytes
SizeOK(sm, mlen) == /\ Len(sm) >= mlen + SigBytes(0)
                    /\ Len(sm) = mlen + SigBytes(sm[Len(sm)])
Pieces(sm, mlen) ==
    LET off == mlen + HL + W * ActionBytes
        n   == sm[Len(sm)]
    IN [salt |-> Cut(sm, mlen, HL),
        acts |-> TLCEval([i \in 1..W |-> Cut(sm, mlen + HL + (i-1) * ActionBytes, ActionBytes)]),
        digest |-> Cut(sm, off, HL),
        seeds |-> TLCEval([i \in 1..n |-> Cut(sm, off + HL + (i-1) * SL, SL)])]

\* a response is the private map P after the restriction of the ephemeral map
\* E to some columns, taken in the order in which E places them
ResponseFits(resp, E, P) ==
    LET src == TLCEval([i \in 1..K |-> P.p[resp.p[i] + 1]])
    IN /\ \A i \in 1..K : resp.c[i] = MulQ(E.c[src[i] + 1], P.c[resp.p[i] + 1])
       /\ \A i \in 1..(K-1) : E.p[src[i] + 1] < E.p[src[i+1] + 1]

\* The responses of an answer [ret, sm] to a signing request fit the private
\* maps of the key and the ephemeral maps of the seeds drawn (rnd).  Nothing
\* is said when the answer does not use the salt drawn.
ResponsesFit(sk, m, a, rnd) ==
    IF a.ret # 0 \/ ~SizeOK(a.sm, Len(m)) THEN TRUE
    ELSE LET p == TLCEval(Pieces(a.sm, Len(m)))
         IN IF p.salt # Cut(rnd, SL, HL) THEN TRUE
            ELSE LET x     == TLCEval(ChallengeOf(p.digest))
                     hit   == TLCEval(HitRounds(x))
                     tree  == TLCEval(TreeFromRoot(Cut(rnd, 0, SL), p.salt))
                     privs == TLCEval(PrivSeeds(Cut(sk, 0, PL)))
                 IN \A i \in 1..W :
                      LET resp == TLCEval(UnpackAction(p.acts[i]))
                      IN /\ ActionValid(resp)
                         /\ ResponseFits(resp, TLCEval(EphemeralMap(tree[LeafOf(hit[i] - 1) + 1], p.salt, hit[i] - 1)),
                                               TLCEval(PrivMap(privs[x[hit[i]]])))

\* The responses of an answer applied to the public generators give the
\* commitments of their rounds.  key: [pk, sk]
ResponsesOpen(key, m, a, rnd) ==
    IF a.ret # 0 \/ ~SizeOK(a.sm, Len(m)) THEN TRUE
    ELSE LET p == TLCEval(Pieces(a.sm, Len(m)))
         IN IF p.salt # Cut(rnd, SL, HL) THEN TRUE
            ELSE LET x    == TLCEval(ChallengeOf(p.digest))
                     hit  == TLCEval(HitRounds(x))
                     tree == TLCEval(TreeFromRoot(Cut(rnd, 0, SL), p.salt))
                     G0   == TLCEval(PublicCode(Cut(key.pk, 0, SL)))
                     acts == TLCEval([i \in 1..W |-> UnpackAction(p.acts[i])])
                     elem == TLCEval([i \in 1..(S-1) |-> UnpackRref(KeyElem(key.pk, i))])
                     com  == TLCEval(CommitAll(G0, TLCEval([i \in 1..W |->
                                 EphemeralMap(tree[LeafOf(hit[i] - 1) + 1], p.salt, hit[i] - 1)])))
                 IN IF (\E i \in 1..W : ~ActionValid(acts[i])) \/ (\E i \in 1..(S-1) : ~elem[i].ok) THEN FALSE
                    ELSE LET ans == TLCEval(RespondAll(TLCEval([i \in 1..W |-> [g |-> elem[x[hit[i]]].m, a |-> acts[i]]])))
                         IN \A i \in 1..W : ans[i].v = com[i].v

-----------------------------------------------------------------------------
(* Verification.  VerifyParts says which clause fails first:               *)
(*   "key"    a used public-key element is malformed                       *)
(*   "action" a response is not a partial monomial map                     *)
(*   "hash"   the recomputed digest differs                                *)
(*   "ok"                                                                  *)
(* (an implementation may find them in any order: only "ok" is observable) *)

VerifyParts(pk, m, sig) ==
    LET x    == TLCEval(ChallengeOf(sig.digest))
        hit  == TLCEval(HitRounds(x))
        used == {x[r] : r \in {hit[i] : i \in 1..W}}
        key  == TLCEval([i \in 1..(S-1) |-> IF i \in used THEN UnpackRref(KeyElem(pk, i)) ELSE << >>])
        acts == TLCEval([i \in 1..W |-> UnpackAction(sig.acts[i])])
    IN IF \E i \in used : ~key[i].ok THEN "key"
       ELSE IF \E i \in 1..W : ~ActionValid(acts[i]) THEN "action"
       ELSE LET leaf == TLCEval(Rebuild(Hidden(x), sig.seeds, sig.salt).leaf)
                G0   == TLCEval(PublicCode(Cut(pk, 0, SL)))
                free == SelectSeq([r \in 1..T |-> r], LAMBDA r : x[r] = 0)
                pos(seq, r) == CHOOSE i \in 1..Len(seq) : seq[i] = r
                cf   == TLCEval(CommitAll(G0, TLCEval([i \in 1..Len(free) |->
                                   EphemeralMap(leaf[free[i]], sig.salt, free[i] - 1)])))
                ch   == TLCEval(RespondAll(TLCEval([i \in 1..W |-> [g |-> key[x[hit[i]]].m, a |-> acts[i]]])))
                vs   == TLCEval([r \in 1..T |-> IF x[r] = 0 THEN cf[pos(free, r)].v ELSE ch[pos(hit, r)].v])
            IN IF TranscriptHash(vs, m, sig.salt) = sig.digest THEN "ok" ELSE "hash"

-----------------------------------------------------------------------------
(* Framing                                                                 *)

\* number of seeds a digest calls for
SeedsNeeded(digest) == Len(Published(Hidden(ChallengeOf(digest))))

\* [ok, m, sig]: how a byte string splits, or why it does not
Frame(sm) ==
    LET len == Len(sm)
        n   == sm[len]
        siglen == SigBytes(n)
        mlen == len - siglen
        off  == mlen + HL + W * ActionBytes
        sig == [salt |-> Cut(sm, mlen, HL),
                acts |-> [i \in 1..W |-> Cut(sm, mlen + HL + (i-1) * ActionBytes, ActionBytes)],
                digest |-> Cut(sm, off, HL),
                seeds |-> [i \in 1..n |-> Cut(sm, off + HL + (i-1) * SL, SL)]]
    IN IF len < SigBytes(0) THEN [why |-> "short"]
       ELSE IF n > MaxSeeds THEN [why |-> "count"]
       ELSE IF len < siglen THEN [why |-> "short"]
       ELSE IF SeedsNeeded(sig.digest) # n THEN [why |-> "count"]
       ELSE [why |-> "ok", m |-> Cut(sm, 0, mlen), sig |-> TLCEval(sig)]

\* verdict on a byte string: "ok" or a reason
OpenVerdict(sm, pk) == LET f == TLCEval(Frame(sm))
                       IN IF f.why # "ok" THEN f.why ELSE VerifyParts(pk, f.m, f.sig)
=============================================================================
