----------------------------- MODULE PerfBytes -----------------------------
(* Bytes, machine words and bits.                                           *)
(*                                                                          *)
(* TLC integers have 32 bits, so a machine word is represented by the       *)
(* sequence of its bytes, least significant byte first, whatever the byte   *)
(* order of the data it was read from.  Only counts and lengths are turned  *)
(* into integers, and those saturate at HUGE (no input is that long).       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Byte == 0..255
HUGE == 1073741824                         \* 2^30

Pow2 == [i \in 0..30 |-> 2^i]

\* The n-byte word at offset p of b, written in byte order en ("L" or "B").
WordAt(b, en, p, n) ==
    IF en = "L" THEN SubSeq(b, p + 1, p + n) ELSE Reverse(SubSeq(b, p + 1, p + n))

\* The inverse: the bytes of word w in byte order en.
Put(w, en) == IF en = "L" THEN w ELSE Reverse(w)

\* A word as a number, saturating.
ToNat(w) ==
    CASE Len(w) = 1 -> w[1]
      [] Len(w) = 2 -> w[1] + 256 * w[2]
      [] Len(w) = 4 -> IF w[4] >= 64 THEN HUGE
                       ELSE w[1] + 256 * (w[2] + 256 * (w[3] + 256 * w[4]))
      [] Len(w) = 8 -> IF w[4] >= 64 \/ w[5] # 0 \/ w[6] # 0 \/ w[7] # 0 \/ w[8] # 0
                       THEN HUGE
                       ELSE w[1] + 256 * (w[2] + 256 * (w[3] + 256 * w[4]))

\* A number (below 2^30) as a word of n bytes.
OfNat(v, n) == [i \in 1..n |-> IF i > 4 THEN 0
                               ELSE (v \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256
                                             ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]

ZeroWord(n) == [i \in 1..n |-> 0]
IsZero(w) == \A i \in 1..Len(w) : w[i] = 0

Bit(w, i) == (w[(i \div 8) + 1] \div Pow2[i % 8]) % 2
HasBit(w, i) == Bit(w, i) = 1

\* Bits lo .. lo+n-1 of w as a number (n <= 30).
RECURSIVE BitsFrom(_, _, _)
BitsFrom(w, lo, n) == IF n = 0 THEN 0 ELSE Bit(w, lo) + 2 * BitsFrom(w, lo + 1, n - 1)

RECURSIVE CountByte(_)
CountByte(v) == IF v = 0 THEN 0 ELSE (v % 2) + CountByte(v \div 2)
ByteOnes == [v \in Byte |-> CountByte(v)]
RECURSIVE SumOnes(_, _)
SumOnes(w, i) == IF i = 0 THEN 0 ELSE ByteOnes[w[i]] + SumOnes(w, i - 1)
PopCount(w) == SumOnes(w, Len(w))

\* Word with the given set of bits (of an n-byte word) set.
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Pow2[x] + SumPow(S \ {x})
OfBits(S, n) == [i \in 1..n |-> SumPow({j \in 0..7 : ((i - 1) * 8 + j) \in S})]

\* w with every bit outside S cleared
MaskBits(w, S) ==
    [i \in 1..Len(w) |->
        LET B == {j \in 0..7 : ((i - 1) * 8 + j) \in S}
        IN  IF B = {} THEN 0 ELSE SumPow({j \in B : HasBit(w, (i - 1) * 8 + j)})]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RoundUp(v, m) == ((v + m - 1) \div m) * m
\* smallest x >= v with x = k (mod m)
RoundUpMod(v, k, m) == v + ((k + m - (v % m)) % m)

\* Length of b[1..n] without trailing zero bytes, at least lo.  (Written with a
\* quantifier per step of 256 and not with one recursion per byte: a tail of
\* 64 KiB of zeros must not exhaust the evaluator's stack.)
RECURSIVE TrimZeros(_, _, _)
TrimZeros(b, lo, n) ==
    IF n > lo + 256 /\ \A j \in (n - 255)..n : b[j] = 0 THEN TrimZeros(b, lo, n - 256)
    ELSE LET S == {j \in Max2(lo + 1, n - 255)..n : b[j] # 0}
         IN  IF S = {} THEN (IF n > lo + 256 THEN n - 256 ELSE lo)
             ELSE CHOOSE m \in S : \A k \in S : k <= m
=============================================================================
