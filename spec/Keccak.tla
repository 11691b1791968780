------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* FIPS 202.  The permutation Keccak-f[1600] on a state of 200 bytes and   *)
(* the sponge built on it.  Everything here is plain TLA+; TLC may use the *)
(* Java overrides of java/LessOverrides.java for KeccakF and Sponge, which *)
(* are compared with these definitions by KeccakMC (config with and        *)
(* without overrides on the same inputs).                                  *)
(* A lane is 4 limbs of 16 bits, least significant first (TLC's integers   *)
(* have 32 bits).                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC

LOCAL Limb == 65536

\* rotation offsets, lane x + 5*y at position x + 5*y + 1
LOCAL RotOff == << 0,  1, 62, 28, 27,
                  36, 44,  6, 55, 20,
                   3, 10, 43, 25, 39,
                  41, 45, 15, 21,  8,
                  18,  2, 61, 56, 14 >>

\* round constants, round ir at position ir + 1
LOCAL RC == << << 1, 0, 0, 0 >>,
                << 32898, 0, 0, 0 >>,
                << 32906, 0, 0, 32768 >>,
                << 32768, 32768, 0, 32768 >>,
                << 32907, 0, 0, 0 >>,
                << 1, 32768, 0, 0 >>,
                << 32897, 32768, 0, 32768 >>,
                << 32777, 0, 0, 32768 >>,
                << 138, 0, 0, 0 >>,
                << 136, 0, 0, 0 >>,
                << 32777, 32768, 0, 0 >>,
                << 10, 32768, 0, 0 >>,
                << 32907, 32768, 0, 0 >>,
                << 139, 0, 0, 32768 >>,
                << 32905, 0, 0, 32768 >>,
                << 32771, 0, 0, 32768 >>,
                << 32770, 0, 0, 32768 >>,
                << 128, 0, 0, 32768 >>,
                << 32778, 0, 0, 0 >>,
                << 10, 32768, 0, 32768 >>,
                << 32897, 32768, 0, 32768 >>,
                << 32896, 0, 0, 32768 >>,
                << 1, 32768, 0, 0 >>,
                << 32776, 32768, 0, 32768 >> >>

LOCAL Xor4(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>

LOCAL Rotl(a, r) ==
    LET w == r \div 16
        s == r % 16
        L(i) == a[((i - 1 + 8 - w) % 4) + 1]
        \* limb i takes its high part from limb i-w shifted left by s
        Out(i) == ((L(i) * (2^s)) % Limb) + (L(i+3) \div (2^(16-s)))
    IN IF s = 0 THEN << L(1), L(2), L(3), L(4) >>
       ELSE << Out(1), Out(2), Out(3), Out(4) >>

LOCAL Round(A, ir) ==     \* A: lane index 0..24 -> 4 limbs
    LET C == TLCEval([x \in 0..4 |->
               Xor4(Xor4(A[x], A[x+5]), Xor4(Xor4(A[x+10], A[x+15]), A[x+20]))])
        D == TLCEval([x \in 0..4 |-> Xor4(C[(x+4)%5], Rotl(C[(x+1)%5], 1))])
        \* rho and pi: B[y, 2x+3y] = rot(A[x,y])
        B == TLCEval([i \in 0..24 |->
               LET y2 == i \div 5
                   x2 == i % 5
                   \* x2 = y, y2 = 2x+3y  =>  y = x2, x = (y2 - 3 y) / 2 mod 5
                   y  == x2
                   x  == ((y2 + 10 - ((3*y) % 5)) * 3) % 5
               IN Rotl(Xor4(A[x + 5*y], D[x]), RotOff[x + 5*y + 1])])
        Chi(i) == LET y == i \div 5
                      x == i % 5
                      b1 == B[((x+1) % 5) + 5*y]
                      b2 == B[((x+2) % 5) + 5*y]
                      f(l) == B[i][l] ^^ ((65535 - b1[l]) & b2[l])
                  IN << f(1), f(2), f(3), f(4) >>
    IN TLCEval([i \in 0..24 |-> IF i = 0 THEN Xor4(Chi(0), RC[ir+1]) ELSE Chi(i)])

RECURSIVE Rounds(_,_)
LOCAL Rounds(A, ir) == IF ir = 24 THEN A ELSE Rounds(Round(A, ir), ir + 1)

\* bytes: a sequence of 200 bytes; the result is again 200 bytes
KeccakF(bytes) ==
    LET A0 == TLCEval([i \in 0..24 |->
                [l \in 1..4 |-> bytes[8*i + 2*l - 1] + 256 * bytes[8*i + 2*l]]])
        A  == TLCEval(Rounds(A0, 0))
    IN TLCEval([b \in 1..200 |->
         LET i == (b-1) \div 8
             l == (((b-1) % 8) \div 2) + 1
         IN IF b % 2 = 1 THEN A[i][l] % 256 ELSE A[i][l] \div 256])

-----------------------------------------------------------------------------
LOCAL ZeroState == TLCEval([b \in 1..200 |-> 0])

\* xor a block (a sequence of at most 200 bytes) into the state
XorBlock(st, blk) == TLCEval([b \in 1..200 |-> IF b <= Len(blk) THEN st[b] ^^ blk[b] ELSE st[b]])

\* padded length is a multiple of the rate; pad10*1 with domain bits
Pad(msg, rate, dom) ==
    LET used == Len(msg) % rate
        gap  == rate - used
        tail == IF gap = 1 THEN << dom ^^ 128 >>
                ELSE << dom >> \o [i \in 1..(gap-2) |-> 0] \o << 128 >>
    IN msg \o tail

RECURSIVE AbsorbAll(_,_,_,_)
LOCAL AbsorbAll(st, p, rate, off) ==
    IF off >= Len(p) THEN st
    ELSE AbsorbAll(KeccakF(XorBlock(st, SubSeq(p, off+1, off+rate))), p, rate, off+rate)

RECURSIVE SqueezeAll(_,_,_,_)
LOCAL SqueezeAll(st, out, n, rate) ==
    LET o == TLCEval(out \o SubSeq(st, 1, rate))
    IN IF Len(o) >= n THEN SubSeq(o, 1, n) ELSE SqueezeAll(KeccakF(st), o, n, rate)

\* the sponge: n bytes of output
Sponge(rate, dom, msg, n) ==
    LET p  == TLCEval(Pad(msg, rate, dom))
        st == TLCEval(AbsorbAll(ZeroState, p, rate, 0))
    IN SqueezeAll(st, << >>, n, rate)

SHAKE128(msg, n) == Sponge(168, 31, msg, n)
SHAKE256(msg, n) == Sponge(136, 31, msg, n)
SHA3_256(msg)    == Sponge(136, 6, msg, 32)
SHA3_384(msg)    == Sponge(104, 6, msg, 48)
SHA3_512(msg)    == Sponge(72, 6, msg, 64)
=============================================================================
