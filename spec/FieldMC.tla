------------------------------ MODULE FieldMC ------------------------------
(* Arithmetic modulo 127, all pairs; packing of 7-bit values. *)
EXTENDS Codes
VARIABLES a, b
vars == << a, b >>
Init == a \in 0..(Q-1) /\ b \in 0..(Q-1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inv == /\ MulQ(a, b) \in 0..(Q-1) /\ SubQ(a, b) \in 0..(Q-1)
       /\ MulQ(a, b) = MulQ(b, a)
       /\ (SubQ(a, b) + b) % Q = a
       /\ a # 0 => MulQ(a, InvQ(a)) = 1
       /\ InvQ(0) = 0
       /\ (a # 0 /\ b # 0) => (MulQ(a, b) # 0 /\ InvQ(MulQ(a, b)) = MulQ(InvQ(a), InvQ(b)))
       /\ MulQ(a, b) = 0 => a = 0 \/ b = 0
       \* fields of seven bits
       /\ Unpack(Pack(<< a, b, a, 126, b, 0, a, b, 1 >>, 7, 8), 0, 7, 9) = << a, b, a, 126, b, 0, a, b, 1 >>
=============================================================================
