----------------------------- MODULE PerfGroup -----------------------------
(* A counter group and an iterator over it: any sequence of steps.           *)
(*                                                                           *)
(* The iterator of PerfParser!GStep (a pair of bounds) is checked against    *)
(* the obvious one: a sequence of entries from which the front and back are  *)
(* taken.  Behaviours are replayed on the real crate.                        *)
EXTENDS PerfParser, PerfKernel, PerfDraw, Json

CONSTANTS Samples, Sel(_, _, _), Formats, Sizes, Values, Steps(_), MaxSteps, PrintIt
VARIABLES sd, st, rf, g, en, it, left, out, script
vars == <<sd, st, rf, g, en, it, left, out, script>>

Cfg(f) == [sty |-> ZeroWord(8), rf |-> OfBits(f, 8), fl |-> ZeroWord(8), bst |-> ZeroWord(8),
           ru |-> ZeroWord(8), ri |-> ZeroWord(8)]
\* a group of n counters; ids repeat when v = 2
Group(f, n, v) ==
    LET W8(i) == [j \in 1..8 |-> IF v = 0 THEN 0 ELSE (i * 16 + j * v) % 256]
        c == ConfOf(Cfg(f))
    IN  [te |-> IF HasBit(c.rf, R_TIME_ENABLED) THEN Some(W8(60)) ELSE None,
         tr |-> IF HasBit(c.rf, R_TIME_RUNNING) THEN Some(W8(61)) ELSE None, n |-> n,
         e |-> [i \in 1..n |-> [value |-> W8(3 * i), id |-> IF HasBit(c.rf, R_ID) THEN Some(W8(IF v = 2 THEN 7 ELSE 3 * i + 1)) ELSE None,
                                lost |-> IF HasBit(c.rf, R_LOST) THEN Some(W8(3 * i + 2)) ELSE None]]]

Init == /\ sd \in Samples /\ st = "pick" /\ rf = {} /\ g = <<>> /\ en = "L" /\ it = <<0, 0>> /\ left = <<>>
        /\ out = <<>> /\ script = <<>>
Pick_ == /\ st = "pick"
         /\ \E a \in Sel(sd, Len(Formats), 1), b \in Sel(sd, Len(Sizes), 2), c \in Sel(sd, Len(Values), 3),
               d \in Sel(sd, 2, 4) :
              /\ rf' = Formats[a] /\ g' = Group(Formats[a], Sizes[b], Values[c]) /\ en' = <<"L", "B">>[d]
         /\ it' = <<0, g'.n>> /\ left' = g'.e /\ st' = "run"
         /\ UNCHANGED <<sd, out, script>>

\* the obvious iterator
RECURSIVE Every(_, _), Find(_, _)
Every(l, k) == IF l = <<>> THEN <<>> ELSE <<Head(l)>> \o Every(SubSeq(l, k + 1, Len(l)), k)
Find(l, v) == IF l = <<>> THEN [r |-> None, l |-> <<>>]
              ELSE IF Head(l).value = v THEN [r |-> Some(Head(l)), l |-> Tail(l)] ELSE Find(Tail(l), v)
Plain(l, s) ==
    LET n == Len(l)  k == IF Len(s) > 1 THEN Min2(ToNat(s[2]), 1000000) ELSE 0 IN
    CASE s[1] = "next" -> [r |-> IF n = 0 THEN None ELSE Some(l[1]), l |-> IF n = 0 THEN l ELSE Tail(l)]
      [] s[1] = "back" -> [r |-> IF n = 0 THEN None ELSE Some(l[n]), l |-> IF n = 0 THEN l ELSE Front(l)]
      [] s[1] = "nth" -> [r |-> IF k >= n THEN None ELSE Some(l[k + 1]), l |-> IF k >= n THEN <<>> ELSE SubSeq(l, k + 2, n)]
      [] s[1] = "nthback" -> [r |-> IF k >= n THEN None ELSE Some(l[n - k]), l |-> IF k >= n THEN <<>> ELSE SubSeq(l, 1, n - k - 1)]
      [] s[1] \in {"len", "count"} -> [r |-> n, l |-> l]
      [] s[1] = "hint" -> [r |-> <<n, Some(n)>>, l |-> l]
      [] s[1] = "fork" -> [r |-> l, l |-> l]
      [] s[1] = "rev" -> [r |-> Reverse(l), l |-> l]
      [] s[1] = "fold" -> [r |-> l, l |-> l]
      [] s[1] = "rfold" -> [r |-> Reverse(l), l |-> l]
      [] s[1] = "skip" -> [r |-> SubSeq(l, k + 1, n), l |-> l]
      [] s[1] = "every" -> [r |-> Every(l, Max2(k, 1)), l |-> l]
      [] s[1] = "take" -> [r |-> SubSeq(l, 1, Min2(k, n)), l |-> SubSeq(l, k + 1, n)]
      [] s[1] = "takeback" -> [r |-> SubSeq(Reverse(l), 1, Min2(k, n)), l |-> SubSeq(l, 1, n - Min2(k, n))]
      [] s[1] = "find" -> Find(l, s[2])
      [] s[1] = "rfind" -> LET f == Find(Reverse(l), s[2]) IN [r |-> f.r, l |-> Reverse(f.l)]
      [] s[1] = "last" -> [r |-> IF n = 0 THEN None ELSE Some(l[n]), l |-> l]
      [] s[1] = "restart" -> [r |-> None, l |-> g.e]
Iterates == {"next", "back", "nth", "nthback", "len", "count", "hint", "fork", "rev", "last", "restart",
             "fold", "rfold", "skip", "every", "take", "takeback", "find", "rfind"}

Step == /\ st = "run" /\ Len(script) < MaxSteps
        /\ LET ss == Steps(g) IN
           \E j \in Sel(sd, Len(ss), 10 + 3 * Len(script)) :
             LET s == ss[j]
                 r == GStep(g, it, s)
             IN  /\ it' = r.it
                 /\ IF s[1] \in Iterates
                    THEN left' = Plain(left, s).l /\ out' = <<s[1], r.r, Plain(left, s).r>>
                    ELSE left' = left /\ out' = <<s[1], r.r, r.r>>
                 /\ script' = Append(script, s)
        /\ UNCHANGED <<sd, st, rf, g, en>>
Stop == st = "run" /\ Len(script) = MaxSteps /\ st' = "done" /\ UNCHANGED <<sd, rf, g, en, it, left, out, script>>
Next == Pick_ \/ Step \/ Stop
Spec == Init /\ [][Next]_vars

\* C11
SameAnswer == out # <<>> => out[2] = out[3]
SameLeft == st # "pick" => left = SubSeq(g.e, it[1] + 1, it[2])
Bytes_ == PutGroup(g, en)
Open_ == [op |-> "open", b |-> Bytes_, en |-> en, ent |-> IF en = "L" THEN "Native" ELSE "Big", nat |-> en = "L", cfg |-> Cfg(rf),
          src |-> "slice", cuts |-> <<Len(Bytes_)>>, temp |-> <<FALSE>>, hint |-> TRUE, cap |-> 0, reads |-> <<>>, al |-> 0,
          hi |-> Len(Bytes_), fk |-> -1, ek |-> "Eof", cause |-> "", ref |-> "", want |-> "c", note |-> "group"]
RoundTrip == (st = "run" /\ script = <<>>) => LET r == Call(Open_, OpenFrame(Open_), [op |-> "ty", t |-> "ReadGroup"]) IN
                           r.ok /\ r.v = g /\ r.p = Len(Bytes_)
Lookup == (st = "run" /\ script = <<>>) => \A i \in 1..g.n : \E w \in {g.e[i].id} :
            w # None => LET r == GStep(g, it, <<"byid", w[1]>>).r IN r # None /\ r[1].id = w
Scenarios == (st = "done" /\ PrintIt) =>
    PrintT("SCENARIO " \o ToJson([open |-> Open_, ops |-> <<[op |-> "group", script |-> script]>>]))
=============================================================================
