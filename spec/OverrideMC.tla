----------------------------- MODULE OverrideMC -----------------------------
(***************************************************************************)
(* The operators for which TLC may use Java code (java/lessov), evaluated  *)
(* on the same pseudo-random inputs.  The module is run without and with   *)
(* the Java code; the values printed must be the same.                     *)
(***************************************************************************)
EXTENDS Canon, Sampler, Aes, FiniteSets, Json
CONSTANT Runs, Heavy          \* Heavy: also Keccak and AES, for that many runs
VARIABLE n
Init == n \in 1..Runs
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

\* a generator of small numbers; x < 65536
RECURSIVE Nth(_,_)
Nth(x, k) == IF k = 0 THEN x ELSE Nth((((x % 65536) * 25173) + 13849) % 65536, k - 1)
RECURSIVE Nums(_,_,_,_)
Nums(x, k, m, acc) == IF k = 0 THEN acc
                      ELSE LET y == TLCEval((((x % 65536) * 25173) + 13849) % 65536)
                           IN Nums(y, k - 1, m, Append(acc, (y \div 32) % m))
Seed(j) == Nth((n * 7919 + j * 104) % 65536, 3)
Rnd(j, cnt, m) == TLCEval(Nums(Seed(j), cnt, m, << >>))
\* elements: in some runs few values, so that matrices are degenerate
Elem(v) == IF n % 3 = 0 THEN v ELSE IF n % 3 = 1 THEN << 0, 1, 126, 5 >>[(v % 4) + 1] ELSE IF v < 90 THEN 0 ELSE v
Rows(j, r, c) == LET v == Rnd(j, r * c, 127) IN TLCEval([i \in 1..r |-> TLCEval([k \in 1..c |-> Elem(v[(i - 1) * c + k])])])
Bytes(j, cnt) == Rnd(j, cnt, 256)
Units(j, cnt) == LET v == Rnd(j, cnt, 126) IN [i \in 1..cnt |-> v[i] + 1]
\* a permutation by sorting keys
PermOf(j, c) == LET v == Rnd(j, c, 1999)
                IN TLCEval([i \in 1..c |-> Cardinality({k \in 1..c : v[k] < v[i] \/ (v[k] = v[i] /\ k < i)})])
Mono(j) == [c |-> Units(j, N), p |-> PermOf(j + 1, N)]
\* a partial map: K distinct columns
Act(j) == [c |-> Units(j, K), p |-> SubSeq(PermOf(j + 1, N), 1, K)]
Dependent(m) == IF n % 5 = 0 THEN [m EXCEPT ![2] = [i \in 1..N |-> MulQ(m[1][i], 3)]] ELSE m

G == TLCEval(Dependent(Rows(1, K, N)))
Light == << Unpack(Bytes(2, 40), n % 9, 1 + (n % 12), 20),
            Pack(Rnd(3, 20, 128), 7, 18 + (n % 3)), Pack(Rnd(3, 20, 512), 9, 23 + (n % 2)),
            Pack2(Rnd(4, 11, 256), 8, Rnd(5, 11, 128), 7, 21 + (n % 2)),
            SampleElems(Bytes(6, 40), Q - 1, 0, 20 + (n % 30)), SampleElems(Bytes(7, 40), Q - 2, 1, 20 + (n % 30)),
            SampleElems([i \in 1..16 |-> 255], Q - 1, 0, 4),
            Shuffle(Bytes(8, 4 * N), N),
            RREF(G), MonoAct(G, Mono(9)), ActionAct(G, Act(11)),
            CanonOf(G), SortMatrix(Rows(13, K, N - K)), Commit(G, Mono(15)),
            CommitAll(G, << Mono(17), Mono(19), Mono(21) >>),
            RespondAll(<< [g |-> G, a |-> Act(23)], [g |-> RREF(G).m, a |-> Act(25)] >>),
            FlatForms(<< Rows(27, 3, 4), Rows(29, 3, 4) >>) >>
Crypto == << KeccakF(Bytes(31, 200)),
             Sponge(<< 168, 136, 104, 72 >>[(n % 4) + 1], << 31, 6 >>[(n % 2) + 1], Bytes(33, (n * 47) % 301), (n * 61) % 331),
             Sponge(136, 6, Bytes(35, 135), 32), Sponge(168, 31, Bytes(37, 168), 0),
             Aes256(Bytes(39, 32), Bytes(41, 16)) >>
Show == /\ PrintT("L " \o ToString(<< n, Light >>))
        /\ n <= Heavy => PrintT("C " \o ToString(<< n, Crypto >>))
=============================================================================
