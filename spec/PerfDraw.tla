------------------------------ MODULE PerfDraw ------------------------------
(* Sampling of behaviours.  A behaviour is numbered; every choice in it is a *)
(* function of that number, so TLC's search explores one behaviour per       *)
(* number, reproducibly.  All is the alternative: every choice.              *)
EXTENDS Integers, Sequences, SequencesExt, IOUtils, TLC

Base(seed) == ((seed % 50000) * 40009) % 1999993
Numbers(seed, count) == Base(seed)..(Base(seed) + count - 1)
H(s, k) ==
    LET x1 == (171 * ((s + 37 * k + 1) % 30269)) % 30269
        x2 == (172 * ((s * 13 + 1009 * k + 2) % 30307)) % 30307
        y  == (x1 * x2) % 30323
        x3 == (170 * ((s * 101 + 3001 * k + y) % 30323)) % 30323
    IN  (y * 31 + x3 * 7 + (x3 \div 16)) % 65521
\* which of n choices may be taken at decision k
One(s, n, k) == {1 + (H(s, k) % n)}
All(s, n, k) == 1..n
Drawn(s, seq, k) == seq[1 + (H(s, k) % Len(seq))]
=============================================================================
