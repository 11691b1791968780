-------------------------------- MODULE Aes --------------------------------
(***************************************************************************)
(* FIPS 197: AES with a 256 bit key, encryption of one block.  The S-box   *)
(* is computed from its definition.  TLC may use the Java override of      *)
(* Aes256, which AesMC compares with this definition.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC

\* GF(2^8) with x^8 + x^4 + x^3 + x + 1
XTime(a) == IF a < 128 THEN 2 * a ELSE ((2 * a) % 256) ^^ 27
RECURSIVE GMul(_,_)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a, b) = 1
LOCAL Rotl8(a, k) == ((a * 2^k) % 256) + (a \div 2^(8-k))
SboxOf(a) == LET b == GInv(a) IN ((((b ^^ Rotl8(b, 1)) ^^ Rotl8(b, 2)) ^^ Rotl8(b, 3)) ^^ Rotl8(b, 4)) ^^ 99
Sbox == TLCEval([a \in 0..255 |-> SboxOf(a)])

\* words are sequences of 4 bytes
LOCAL AesXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
LOCAL SubWord(w) == [i \in 1..4 |-> Sbox[w[i]]]
LOCAL RotWord(w) == << w[2], w[3], w[4], w[1] >>
RECURSIVE Power2(_)
Power2(i) == IF i = 0 THEN 1 ELSE XTime(Power2(i - 1))
\* 60 words for 15 round keys
RECURSIVE Expand(_,_)
Expand(w, i) ==
    IF i = 60 THEN w
    ELSE LET t == w[i]            \* word i - 1, counting from 0
             u == IF i % 8 = 0 THEN AesXor(SubWord(RotWord(t)), << Power2(i \div 8 - 1), 0, 0, 0 >>)
                  ELSE IF i % 8 = 4 THEN SubWord(t) ELSE t
         IN Expand(TLCEval(Append(w, AesXor(w[i - 7], u))), i + 1)
LOCAL RoundKey(w, r) == w[4*r + 1] \o w[4*r + 2] \o w[4*r + 3] \o w[4*r + 4]
\* the state column by column, byte 4c + r + 1 being row r of column c
LOCAL SubBytes(s) == [i \in 1..16 |-> Sbox[s[i]]]
LOCAL ShiftRows(s) == [i \in 1..16 |-> s[4 * ((((i - 1) \div 4) + ((i - 1) % 4)) % 4) + ((i - 1) % 4) + 1]]
LOCAL MixColumns(s) ==
    [i \in 1..16 |-> LET c == (i - 1) \div 4  r == (i - 1) % 4
                         at(k) == s[4 * c + ((r + k) % 4) + 1]
                     IN (GMul(at(0), 2) ^^ GMul(at(1), 3)) ^^ (at(2) ^^ at(3))]
RECURSIVE AesRounds(_,_,_)
AesRounds(s, w, r) ==
    IF r = 14 THEN AesXor(ShiftRows(SubBytes(s)), RoundKey(w, 14))
    ELSE AesRounds(TLCEval(AesXor(MixColumns(ShiftRows(SubBytes(s))), RoundKey(w, r))), w, r + 1)
Aes256(key, block) ==
    LET w == TLCEval(Expand([j \in 1..8 |-> SubSeq(key, 4*j - 3, 4*j)], 8))
    IN AesRounds(TLCEval(AesXor(block, RoundKey(w, 0))), w, 1)
=============================================================================
