------------------------------ MODULE PerfAttr ------------------------------
(* Event attribute structures in a file: tools of any age write them, each   *)
(* knowing the members of its own time, and this crate reads them back.      *)
(*                                                                           *)
(* The writer places members by offset (struct perf_event_attr in the        *)
(* kernel's header), independently of PerfDecode, which reads in sequence.   *)
(* Checked: what the writer knew is what is read, what it did not know is    *)
(* zero, exactly the declared bytes are consumed; a structure from the       *)
(* future is accepted if it does not use what we do not know; the parse      *)
(* configuration reflects the attributes.                                    *)
EXTENDS PerfParser, PerfDraw, Json, IOUtils

CONSTANTS Samples, Sel(_, _, _),
          Sizes,        \* declared sizes
          Fill(_),      \* choices of member values: sequence of [set of member names -> ones, rest zero]
          Extras,       \* choices for bytes beyond the newest known member: "zero", "first", "last"
          Avail,        \* how many bytes of it are there: "all", "less", "more"
          MaxAttrs, PrintIt

\* member -> <<offset, size>>
Member ==
  [ type |-> <<0, 4>>, size |-> <<4, 4>>, config |-> <<8, 8>>, sample_period |-> <<16, 8>>,
    sample_type |-> <<24, 8>>, read_format |-> <<32, 8>>, flags |-> <<40, 8>>, wakeup |-> <<48, 4>>,
    bp_type |-> <<52, 4>>, config1 |-> <<56, 8>>, config2 |-> <<64, 8>>, branch_sample_type |-> <<72, 8>>,
    sample_regs_user |-> <<80, 8>>, sample_stack_user |-> <<88, 4>>, clockid |-> <<92, 4>>,
    sample_regs_intr |-> <<96, 8>>, aux_watermark |-> <<104, 4>>, sample_max_stack |-> <<108, 2>>,
    aux_sample_size |-> <<112, 4>>, sig_data |-> <<120, 8>>, config3 |-> <<128, 8>> ]
Names == DOMAIN Member \ {"size"}
\* PERF_ATTR_SIZE_VER0 .. VER8
Published == {64, 72, 80, 96, 104, 112, 120, 128, 136}

VARIABLES sd, st, en, file, attrs, o, stack, hist, last
vars == <<sd, st, en, file, attrs, o, stack, hist, last>>

\* a different value for every member and file position
WordOf(nm, k) == [j \in 1..Member[nm][2] |-> (Member[nm][1] * 5 + j * 29 + k * 83 + 1) % 256]
Known(size) == {nm \in Names : Member[nm][1] + Member[nm][2] <= size}
\* which member byte i (from 1) belongs to
Owner == [i \in 1..136 |-> LET c == {nm \in Names : i > Member[nm][1] /\ i <= Member[nm][1] + Member[nm][2]}
                           IN  IF c = {} THEN "" ELSE CHOOSE nm \in c : TRUE]
Bytes(e, size, ms, x, k) ==
    LET n == Max2(size, 8)
        present == ms \cap Known(n)
        sz == Put(OfNat(size, 4), e)
        ByteAt(i) == IF i \in 5..8 THEN sz[i - 4]
                   ELSE IF i > 136 THEN IF (x = "first" /\ i = 137) \/ (x = "last" /\ i = n) THEN 1 ELSE 0
                   ELSE IF Owner[i] \in present
                        THEN LET off == Member[Owner[i]][1]  w == Member[Owner[i]][2]
                                 j == i - off
                             IN  WordOf(Owner[i], k)[IF e = "L" THEN j ELSE w + 1 - j]
                        ELSE 0
    IN  [i \in 1..n |-> ByteAt(i)]

Init == /\ sd \in Samples /\ st = "write" /\ en \in {"L", "B"} /\ file = <<>> /\ attrs = <<>> /\ o = <<>> /\ stack = <<>>
        /\ hist = <<>> /\ last = <<>>
        /\ (Samples # {0} => en = (IF H(sd, 1) % 2 = 0 THEN "L" ELSE "B"))
Write ==
    /\ st = "write" /\ Len(attrs) < MaxAttrs
    \* (only the last may be broken)
    /\ IF attrs = <<>> THEN TRUE ELSE attrs[Len(attrs)].a = "all" /\ attrs[Len(attrs)].size \in Published
    /\ LET k == 10 * Len(attrs) + 10 IN
       \E i \in Sel(sd, Len(Sizes), k) :
       \E j \in Sel(sd, Len(Fill(Sizes[i])), k + 1), x \in Sel(sd, Len(Extras), k + 2), a \in Sel(sd, Len(Avail), k + 3) :
         LET size == Sizes[i]
             ms == Fill(size)[j]
             b == Bytes(en, size, ms, Extras[x], Len(attrs))
             cut == CASE Avail[a] = "less" -> Len(b) - 1 [] OTHER -> Len(b)
         IN  /\ file' = file \o SubSeq(b, 1, cut)
             /\ attrs' = Append(attrs, [size |-> size, ms |-> ms \cap Known(Max2(size, 8)), x |-> Extras[x], a |-> Avail[a],
                                        lo |-> Len(file), n |-> Len(attrs)])
    /\ UNCHANGED <<sd, st, en, o, stack, hist, last>>
Close ==
    /\ st = "write" /\ attrs # <<>>
    /\ file' = file \o <<7, 8, 9>>
    /\ LET less == attrs[Len(attrs)].a = "less"
           b == IF less THEN file ELSE file'
           c == H(sd, 3) % 4
           cuts == IF c = 0 \/ Len(b) < 40 THEN <<Len(b)>> ELSE IF c = 1 THEN <<5, 30, Len(b)>> ELSE [q \in 1..Len(b) |-> q]
       IN o' = [op |-> "open", b |-> b, en |-> en, ent |-> IF en = "L" THEN "Little" ELSE "Big", nat |-> en = "L",
                cfg |-> [sty |-> ZeroWord(8), rf |-> ZeroWord(8), fl |-> ZeroWord(8), bst |-> ZeroWord(8),
                         ru |-> ZeroWord(8), ri |-> ZeroWord(8)],
                src |-> IF Samples = {0} THEN "slice" ELSE "chunks", cuts |-> IF Samples = {0} THEN <<Len(b)>> ELSE cuts,
                temp |-> IF Samples = {0} THEN <<FALSE>> ELSE [q \in 1..Len(cuts) |-> c = 2], hint |-> Samples = {0} \/ c = 1,
                cap |-> 0, reads |-> <<>>, al |-> 0, hi |-> Len(b), fk |-> -1, ek |-> "Eof", cause |-> "", ref |-> "",
                want |-> "", note |-> "attr"]
    /\ stack' = <<OpenFrame(o')>> /\ st' = "read"
    /\ UNCHANGED <<sd, en, attrs, hist, last>>
Read ==
    /\ st = "read" /\ Len(hist) < Len(attrs)
    /\ (last # <<>> => last.r.ok)
    /\ \E q \in Sel(sd, 2, 60 + Len(hist)) :
       LET op == <<[op |-> "ty", t |-> "Attr"], [op |-> "attrconf"]>>[q]
           r == Call(o, TopOf(stack), op)
       IN  /\ last' = [op |-> op, r |-> r, a |-> attrs[Len(hist) + 1]]
           /\ hist' = Append(hist, op)
           /\ stack' = MoveTop(stack, IF r.p >= 0 THEN r.p ELSE TopOf(stack).p)
    /\ UNCHANGED <<sd, st, en, file, attrs, o>>
Stop == /\ st = "read" /\ (Len(hist) = Len(attrs) \/ (last # <<>> /\ ~last.r.ok))
        /\ st' = "done" /\ UNCHANGED <<sd, en, file, attrs, o, stack, hist, last>>
Next == Write \/ Close \/ Read \/ Stop
Spec == Init /\ [][Next]_vars

------------------------------------------------------------- \* properties
Some_ == last # <<>>
Good(a) == \/ a.size \in Published
           \/ a.size > 136 /\ (a.x = "zero" \/ Max2(a.size, 8) <= 136)
\* C12
RightOutcome == Some_ => last.r.ok = (Good(last.a) /\ last.a.a # "less")
RightError == (Some_ /\ ~last.r.ok) =>
    CASE last.a.a = "less" /\ last.a.size <= 8 -> last.r.v = {"Eof"}
      [] last.a.size <= 136 /\ last.a.size \notin Published -> "InvalidRecord" \in last.r.v
      [] last.a.a = "less" -> "Eof" \in last.r.v \/ "UnsupportedData" \in last.r.v
      [] OTHER -> last.r.v = {"UnsupportedData"}
RightMembers == (Some_ /\ last.r.ok /\ last.op.op = "ty") =>
    \A nm \in Names : last.r.v[nm] = IF nm \in last.a.ms THEN WordOf(nm, last.a.n) ELSE ZeroWord(Member[nm][2])
RightSize == (Some_ /\ last.r.ok) => /\ TopOf(stack).p = last.a.lo + last.a.size
                                     /\ (last.op.op = "ty" => last.r.v.size = OfNat(last.a.size, 4))
\* C13
Given(nm) == IF nm \in last.a.ms THEN WordOf(nm, last.a.n) ELSE ZeroWord(8)
RightConf == (Some_ /\ last.r.ok /\ last.op.op = "attrconf") =>
    /\ last.r.v.sty = MaskBits(Given("sample_type"), KnownSample)
    /\ last.r.v.rf = MaskBits(Given("read_format"), KnownRead)
    /\ last.r.v.ru = Given("sample_regs_user") /\ last.r.v.ri = Given("sample_regs_intr")

Scenario == (st = "done" /\ PrintIt) =>
    PrintT("SCENARIO " \o ToJson([open |-> o, ops |-> hist \o <<[op |-> "u8"]>>]))
=============================================================================
