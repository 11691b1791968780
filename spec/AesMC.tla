------------------------------- MODULE AesMC -------------------------------
(* The definition of AES-256 against the example of FIPS 197, appendix     *)
(* C.3, and the S-box against known entries.                               *)
EXTENDS Aes
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
Fips197 == /\ Aes256([j \in 1..32 |-> j - 1], [j \in 1..16 |-> 17 * (j - 1)])
                = << 142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137 >>
           /\ Sbox[0] = 99 /\ Sbox[83] = 237 /\ Sbox[255] = 22
           /\ {Sbox[a] : a \in 0..255} = 0..255
=============================================================================
