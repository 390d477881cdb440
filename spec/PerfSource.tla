----------------------------- MODULE PerfSource -----------------------------
(* The contract between a parser and its source (trait ParseBuf).            *)
(*                                                                           *)
(* A source has a position; chunk() offers the bytes from there to some      *)
(* place further on (never nothing) or fails; advance(k) moves the position. *)
(* What the source hears during one call of the parser is a sequence of      *)
(*   <<"c", n>>   chunk() was called and offered n bytes (0: it failed)      *)
(*   <<"a", k>>   advance(k) was called                                      *)
(* The same operators judge the reader model (PerfReader) and the calls      *)
(* recorded from the real parser (PerfTrace).                                *)
EXTENDS Integers, Sequences

\* pos: bytes passed; off: bytes offered and not passed; bad: has failed
\* during this call; asked: furthest place at which data was asked for, plus 1
Source(pos, off) == [pos |-> pos, off |-> off, bad |-> FALSE, asked |-> 0]
Max_(a, b) == IF a > b THEN a ELSE b

\* what the parser is allowed to do
MayHear(s, ev) ==
    CASE ev[1] = "c" -> ~s.bad              \* it stops asking once it was told of a failure
      [] ev[1] = "a" -> ev[2] <= s.off      \* it passes only what it was offered
Hear(s, ev) ==
    CASE ev[1] = "c" -> [s EXCEPT !.off = ev[2], !.bad = @ \/ ev[2] = 0, !.asked = Max_(@, s.pos + 1)]
      [] ev[1] = "a" -> [s EXCEPT !.pos = @ + ev[2], !.off = IF ev[2] <= @ THEN @ - ev[2] ELSE 0]

RECURSIVE Heard(_, _, _)
Heard(s, evs, i) == IF i > Len(evs) THEN s ELSE Heard(Hear(s, evs[i]), evs, i + 1)
RECURSIVE FirstWrong(_, _, _)       \* 0: none
FirstWrong(s, evs, i) == IF i > Len(evs) THEN 0
                         ELSE IF ~MayHear(s, evs[i]) THEN i
                         ELSE FirstWrong(Hear(s, evs[i]), evs, i + 1)

\* what the source is to offer at position p, when its pieces end at cuts and it fails at hi
Offer(cuts, hi, p) ==
    IF p >= hi THEN 0
    ELSE LET i == CHOOSE k \in 1..Len(cuts) : cuts[k] > p /\ (k > 1 => cuts[k - 1] <= p)
             e == cuts[i]
         IN  (IF e < hi THEN e ELSE hi) - p
PieceAt(cuts, p) == CHOOSE k \in 1..Len(cuts) : cuts[k] > p /\ (k > 1 => cuts[k - 1] <= p)
=============================================================================
