------------------------------ MODULE SpongeMC ------------------------------
(***************************************************************************)
(* Incremental absorbing and squeezing with a rate of R bytes, the way the *)
(* hash contexts do it: a partly filled block is kept between calls.  The  *)
(* bytes of the message are told apart by their index, the bytes of the    *)
(* output by permutation number and offset.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS R, Sizes, MaxIn, MaxOut
VARIABLES phase, total, buf, blocks, perms, left, output, ins, outs
vars == << phase, total, buf, blocks, perms, left, output, ins, outs >>
Init == /\ phase = "absorb" /\ total = 0 /\ buf = << >> /\ blocks = << >>
        /\ perms = 0 /\ left = 0 /\ output = << >> /\ ins = << >> /\ outs = << >>
Min(a, b) == IF a < b THEN a ELSE b
\* blocks are completed as long as the bytes suffice
RECURSIVE Fill(_,_,_)
Fill(b, done, bytes) ==
    IF Len(b) + Len(bytes) >= R
    THEN LET k == R - Len(b) IN Fill(<< >>, Append(done, b \o SubSeq(bytes, 1, k)), SubSeq(bytes, k + 1, Len(bytes)))
    ELSE [buf |-> b \o bytes, blocks |-> done]
Absorb(n) == /\ phase = "absorb" /\ Len(ins) < MaxIn
             /\ LET f == Fill(buf, blocks, [i \in 1..n |-> total + i])
                IN buf' = f.buf /\ blocks' = f.blocks
             /\ total' = total + n
             /\ ins' = Append(ins, n)
             /\ UNCHANGED << phase, perms, left, output, outs >>
Finalize == /\ phase = "absorb" /\ ins # << >>
            /\ phase' = "squeeze" /\ left' = 0
            /\ UNCHANGED << total, buf, blocks, perms, output, ins, outs >>
\* what is left of the last block, then one permutation per block begun
RECURSIVE Pour(_,_,_,_)
Pour(o, p, lft, n) ==
    IF n = 0 THEN [output |-> o, perms |-> p, left |-> lft]
    ELSE IF lft > 0
         THEN LET k == Min(lft, n) IN Pour(o \o [i \in 1..k |-> << p, R - lft + i - 1 >>], p, lft - k, n - k)
         ELSE LET k == Min(R, n) IN Pour(o \o [i \in 1..k |-> << p + 1, i - 1 >>], p + 1, R - k, n - k)
Squeeze(n) == /\ phase = "squeeze" /\ Len(outs) < MaxOut
              /\ LET q == Pour(output, perms, left, n)
                 IN output' = q.output /\ perms' = q.perms /\ left' = q.left
              /\ outs' = Append(outs, n)
              /\ UNCHANGED << phase, total, buf, blocks, ins >>
Next == (\E n \in Sizes : Absorb(n) \/ Squeeze(n)) \/ Finalize
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
\* the blocks are those of the whole message, whatever the pieces were
Whole == /\ Cat(blocks) \o buf = [i \in 1..total |-> i]
         /\ \A i \in 1..Len(blocks) : Len(blocks[i]) = R
         /\ Len(buf) < R
\* the output is one stream without gap or repetition
Stream == output = [i \in 1..Len(output) |-> << (i - 1) \div R + 1, (i - 1) % R >>]
Inv == Whole /\ Stream
Done == phase = "squeeze" /\ Len(outs) = MaxOut
Emit == IF Done THEN PrintT(<< "OPS", ToJson(<< ins, outs >>) >>) ELSE TRUE
=============================================================================
