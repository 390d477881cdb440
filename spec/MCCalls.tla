------------------------------ MODULE MCCalls ------------------------------
(* Instances of PerfCalls: exhaustive for tiny inputs, sampled for others.   *)
EXTENDS PerfCalls

Prop == IOEnv.PROP
c_Samples == Numbers(atoi(IOEnv.SEED), atoi(IOEnv.COUNT))

Cfg0 == [sty |-> ZeroWord(8), rf |-> ZeroWord(8), fl |-> ZeroWord(8), bst |-> ZeroWord(8),
         ru |-> ZeroWord(8), ri |-> ZeroWord(8)]
\* bytes that differ, then z zero bytes
Data(n, z) == [i \in 1..(n + z) |-> IF i > n THEN 0 ELSE (i * 37 + 5) % 256]
Input(n, z, e) == [b |-> Data(n, z), ent |-> e, cfg |-> Cfg0]

---------------------------------------------------------- \* deliveries
RECURSIVE Compositions(_)         \* all ways to cut n bytes, as sequences of ends
Compositions(n) == IF n = 0 THEN {<<>>} ELSE
    UNION {{Append(c, n) : c \in Compositions(k)} : k \in 0..(n - 1)}
Temps(k) == [1..k -> BOOLEAN]
Chunked(n, his, fks) ==
    {[src |-> "chunks", cuts |-> c, temp |-> t, hint |-> h, cap |-> 0, reads |-> <<>>, al |-> a, hi |-> x[1], fk |-> x[2]] :
        c \in Compositions(n), t \in UNION {Temps(k) : k \in 0..n}, h \in BOOLEAN, a \in {0, 1},
        x \in ({<<n, -1>>} \cup {<<hi, fk>> : hi \in his, fk \in fks})}
Proper(S) == {d \in S : Len(d.cuts) = Len(d.temp)}
SliceOf(n, al) == [src |-> "slice", cuts |-> <<n>>, temp |-> <<FALSE>>, hint |-> TRUE, cap |-> 0, reads |-> <<>>,
                   al |-> al, hi |-> n, fk |-> -1]
BufOf(n, cap, rs, hi, fk) == [src |-> "buf", cuts |-> <<n>>, temp |-> <<TRUE>>, hint |-> FALSE, cap |-> cap, reads |-> rs,
                              al |-> 0, hi |-> hi, fk |-> fk]
Everything(n) ==
    Proper(Chunked(n, 0..n, {0, 3})) \cup {SliceOf(n, a) : a \in 0..3}
    \cup {BufOf(n, c, rs, x[1], x[2]) : c \in {1, 2, 16}, rs \in {<<>>, <<1>>},
            x \in {<<n, -1>>} \cup {<<hi, 1>> : hi \in 0..n}}

------------------------------------------------- \* exhaustive, tiny inputs
x_All == SetToSeq({Input(n, z, e) : n \in 0..2, z \in 0..1, e \in {"Native", "Big"}})
x_Inputs(k) == x_All
x_Tab == [n \in 0..3 |-> SetToSeq(Everything(n))]
x_Deliveries(i) == x_Tab[Len(i.b)]
x_Ops(op) ==
    <<[op |-> "u8"], [op |-> "u16"], [op |-> "arr", n |-> 3], [op |-> "rest"], [op |-> "resttrim"],
      [op |-> "with"], [op |-> "clone"], [op |-> "pop"], [op |-> "clear"],
      [op |-> "bytes", n |-> OfNat(0, 8)], [op |-> "bytes", n |-> OfNat(1, 8)], [op |-> "bytes", n |-> OfNat(2, 8)],
      [op |-> "rep", t |-> "u8", n |-> OfNat(2, 8)], [op |-> "slice", t |-> "u16", n |-> OfNat(1, 8)],
      [op |-> "sdirect", t |-> "u16", n |-> OfNat(1, 8)], [op |-> "if", t |-> "with", q |-> TRUE],
      [op |-> "if", t |-> "u32", q |-> FALSE]>>

---------------------------------------------------------- \* sampled
\* the parts of a delivery are drawn one by one
Pick_(k, S) == Drawn(sd, SetToSeq(S), 2000 + k)
Bit_(k) == H(sd, 3000 + k) % 2 = 1
RECURSIVE CutsBy(_, _, _, _)
CutsBy(n, p, k, style) ==
    IF p >= n THEN <<>>
    ELSE LET w == CASE style = 0 -> 1 + (H(sd, 4000 + k) % 3) [] style = 1 -> 1
                    [] style = 2 -> 1 + (H(sd, 4000 + k) % 9) [] style = 3 -> 8 [] style = 4 -> n
                    [] OTHER -> 1 + (H(sd, 4000 + k) % 24)
             e == Min2(p + w, n)
         IN  <<e>> \o CutsBy(n, e, k + 1, style)
Sizes == [i \in 1..14 |-> <<0, 1, 3, 4, 7, 8, 9, 12, 16, 17, 24, 40, 64, 33>>[i]]
c_Inputs(n) == <<Input(Drawn(sd, Sizes, 10), Drawn(sd, <<0, 0, 1, 3, 8>>, 11),
                    Drawn(sd, <<"Native", "Little", "Big", "DynL", "DynB", "CustL", "CustB", "Native">>, 12))>>
Failing == IF Prop = "C14" THEN H(sd, 13) % 8 # 0 ELSE IF Prop \in {"C06", "C15"} THEN FALSE ELSE H(sd, 13) % 3 = 0
c_Deliveries(i) ==
    LET n == Len(i.b)
        hi == IF Failing THEN H(sd, 14) % (n + 1) ELSE n
        fk == IF ~Failing THEN -1 ELSE Drawn(sd, <<0, 1, 2, 3, 4, 7, 14>>, 15)
        cuts == CutsBy(n, 0, 0, H(sd, 16) % 6)
        style == H(sd, 17) % 3
        kind == H(sd, 18) % 8
    IN  IF kind = 0 /\ ~Failing THEN <<SliceOf(n, H(sd, 19) % 9)>>
        ELSE IF kind < 3 THEN <<BufOf(n, Drawn(sd, <<1, 2, 3, 8, 16, 64>>, 20), Drawn(sd, <<<<>>, <<1>>, <<2, 5>>, <<8>>>>, 21), hi, fk)>>
        ELSE <<[src |-> "chunks", cuts |-> cuts,
                temp |-> [j \in 1..Len(cuts) |-> IF style = 0 THEN TRUE ELSE IF style = 1 THEN FALSE ELSE Bit_(j)],
                hint |-> Bit_(100), cap |-> 0, reads |-> <<>>, al |-> H(sd, 22) % 9, hi |-> hi, fk |-> fk]>>
Small == <<0, 1, 1, 2, 2, 3, 4, 5, 8>>
HugeCounts == <<<<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<1, 0, 0, 0, 0, 0, 0, 32>>,
                <<0, 0, 0, 64, 0, 0, 0, 0>>>>
Num(k) == IF H(sd, k + 500) % 12 = 0 THEN Drawn(sd, HugeCounts, k) ELSE OfNat(Drawn(sd, Small, k), 8)
c_Ops(op) ==
    LET k == 600 + 7 * Len(hist) IN
    <<[op |-> "u8"], [op |-> "u16"], [op |-> "u32"], [op |-> "u64"],
      [op |-> "arr", n |-> Drawn(sd, <<0, 1, 2, 3, 5, 7, 8, 12>>, k)],
      [op |-> "bytes", n |-> Num(k)], [op |-> "bytes", n |-> Num(k)],
      [op |-> "rep", t |-> Drawn(sd, <<"u8", "u16", "u32", "u64", "a3", "ns", "br", "gone", "str", "skip", "counted">>, k + 1), n |-> Num(k)],
      [op |-> "slice", t |-> Drawn(sd, <<"u8", "u16", "u32", "u64", "ns", "br">>, k + 1), n |-> Num(k)],
      [op |-> "slice", t |-> Drawn(sd, <<"u8", "u16", "u32", "u64", "ns", "br">>, k + 1), n |-> Num(k)],
      \* (whether a direct slice can be given depends on the delivery)
      IF Prop = "C06" THEN [op |-> "u8"]
      ELSE [op |-> "sdirect", t |-> Drawn(sd, <<"u16", "u32", "u64">>, k + 1), n |-> Num(k)],
      [op |-> "if", t |-> Drawn(sd, <<"u32", "u64", "with">>, k + 1), q |-> Bit_(k)],
      [op |-> "with"], [op |-> "hdr"],
      IF H(sd, k + 2) % 3 = 0 THEN [op |-> "rest"] ELSE [op |-> "u16"],
      IF H(sd, k + 2) % 3 = 0 THEN [op |-> "resttrim"] ELSE [op |-> "u8"]>>
    \o (IF Failing THEN <<[op |-> "clear"], [op |-> "clear"]>> ELSE <<>>)
    \o (IF o.src # "buf" /\ Len(stack) < 3 THEN <<[op |-> "clone"]>> ELSE <<>>)
    \o (IF Len(stack) > 1 THEN <<[op |-> "pop"], [op |-> "pop"]>> ELSE <<>>)

NoRef(op) == <<>>
c_Ref(op) == IF Prop # "C06" THEN <<>>
             ELSE <<[op EXCEPT !.src = "chunks", !.cuts = <<Len(op.b)>>, !.temp = <<TRUE>>, !.hint = TRUE,
                               !.cap = 0, !.reads = <<>>, !.al = 0, !.ref = "set"]>>
=============================================================================
