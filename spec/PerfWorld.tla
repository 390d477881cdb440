----------------------------- MODULE PerfWorld -----------------------------
(* The whole system as one state machine: an event is configured, the kernel *)
(* writes records into a stream (some of them damaged, but framed), a source *)
(* delivers the stream in some pieces, and a user reads it back record by    *)
(* record through the parser, in any of the ways the interface offers.       *)
(*                                                                           *)
(* Model-checked (MCStream*.cfg): what is read back is what was written, the *)
(* reader is at a record boundary after every record, metadata is separate   *)
(* from the body, and the two byte orders and all ways of reading agree.     *)
(* Every complete behaviour is also printed as a scenario (Emit = TRUE),     *)
(* which the harness replays on the real crate.                              *)
EXTENDS PerfParser, PerfKernel, Json, IOUtils

(* Choices are made from sequences with Sel(sd, length, k), the indices      *)
(* allowed at decision k: all of them when model checking exhaustively, one  *)
(* that depends on the number sd when sampling (PerfDraw).                   *)
CONSTANTS MaxRecs,      \* records per stream
          Seeds,        \* value seeds (PerfKernel!Pick)
          Types,        \* record type numbers
          Miscs,        \* misc words
          Damages,      \* of "none", "extra", "cut", "tiny"
          Ents,         \* endianness choices
          Deliveries,   \* source choices
          Emit,         \* print complete behaviours as scenarios
          Samples,      \* values of sd
          Sel(_, _, _)

VARIABLES sd,
          st,      \* "conf", "write", "deliver", "read", "done"
          step,    \* step within "conf"
          cf,      \* the event attributes
          ent,     \* endianness choice
          wire,    \* bytes written
          recs,    \* [r: record, dmg: damage, lo, end: where it lies]
          o,       \* the opened session
          stack,   \* live parsers (PerfParser)
          n,       \* records read
          mid,     \* what the reader is in the middle of
          last,    \* the last call and its outcome
          hist     \* calls made
vars == <<sd, st, step, cf, ent, wire, recs, o, stack, n, mid, last, hist>>

Conf_ == ConfOf(cf)
En(e) == IF e \in {"Big", "DynB", "CustB"} THEN "B" ELSE "L"
Nat_(e) == e \in {"Native", "Little", "DynL"}
NoCfg == [sty |-> ZeroWord(8), rf |-> ZeroWord(8), fl |-> ZeroWord(8), bst |-> ZeroWord(8),
          ru |-> ZeroWord(8), ri |-> ZeroWord(8)]
NoOpen == <<>>

------------------------------------------------------------- \* configuring
\* in steps; a step's choices are a sequence of configurations
CONSTANT ConfSteps, ConfChoices(_, _)
Configure ==
    /\ st = "conf"
    /\ LET cs == ConfChoices(step, cf) IN \E c \in Sel(sd, Len(cs), step) : cf' = cs[c]
    /\ IF step < ConfSteps THEN step' = step + 1 /\ st' = "conf" /\ UNCHANGED ent
       ELSE step' = 0 /\ st' = "write" /\ \E e \in Sel(sd, Len(Ents), 50) : ent' = Ents[e]
    /\ UNCHANGED <<sd, wire, recs, o, stack, n, mid, last, hist>>

----------------------------------------------------------------- \* writing
RestLikeType(ty) == TypeName(ty) \in {"Mmap", "Mmap2", "Comm", "CGroup", "KSymbol", "Unknown"}
\* the frame as it is put into the stream
Damaged(r, dmg) ==
    LET en == En(ent)
        body == PutBody(Conf_, en, r)
        tr == PutTrailer(Conf_, en, r)
    IN  CASE dmg = "none" -> PutFrame(en, r, body \o tr)
          [] dmg = "extra" -> PutFrame(en, r, body \o <<1, 2, 3, 4, 5, 6, 7, 8>> \o tr)
          [] dmg = "cut" -> PutFrame(en, r, SubSeq(body, 1, Max2(0, Len(body) - 8)) \o tr)
          [] dmg = "tiny" -> PutFrame(en, r, <<9, 9, 9, 9>>)

\* whether to stop after k records: 1 yes, 2 no
Stopping(k) == Sel(sd, IF k = MaxRecs THEN 1 ELSE 2, 99 + 10 * k)
Write ==
    /\ st = "write"
    /\ recs # <<>> => 2 \in Stopping(Len(recs))
    /\ Len(recs) < MaxRecs
    /\ LET k == 100 + 10 * Len(recs) IN
       \E it \in Sel(sd, Len(Types), k), im \in Sel(sd, Len(Miscs), k + 1),
          is \in Sel(sd, Len(Seeds), k + 2), id \in Sel(sd, Len(Damages), k + 3) :
         LET t == Types[it]  m == Miscs[im]  s == Seeds[is]  d == Damages[id]
             ty == OfNat(t, 4)
             r == MakeRecord(Conf_, ty, m, s)
             b == Damaged(r, d)
         IN  /\ Len(b) < 65536
             /\ recs' = Append(recs, [r |-> r, dmg |-> d, lo |-> Len(wire), end |-> Len(wire) + Len(b)])
             /\ wire' = wire \o b
    /\ UNCHANGED <<sd, st, step, cf, ent, o, stack, n, mid, last, hist>>

-------------------------------------------------------------- \* delivering
CutsEvery(len, c) == IF len = 0 THEN <<>> ELSE [i \in 1..((len + c - 1) \div c) |-> Min2(i * c, len)]
\* hi: where the source fails (the length: it does not)
Open(d, hi) ==
    LET len == Len(wire)
        cuts == IF d.src = "chunks" THEN CutsEvery(len, d.c) ELSE <<len>>
    IN  [op |-> "open", b |-> wire, en |-> En(ent), ent |-> ent, nat |-> Nat_(ent), cfg |-> cf,
         src |-> d.src, cuts |-> cuts,
         temp |-> [i \in 1..Len(cuts) |-> CASE d.src = "slice" -> FALSE [] d.src = "buf" -> TRUE
                                            [] d.temp = "alt" -> i % 2 = 1
                                            [] OTHER -> d.temp = "all"],
         hint |-> d.src = "slice" \/ (d.src = "chunks" /\ d.hint),
         cap |-> IF d.src = "buf" THEN d.c ELSE 0, reads |-> IF d.src = "buf" THEN d.reads ELSE <<>>,
         al |-> d.al, hi |-> hi, fk |-> IF d.fk < 0 THEN -1 ELSE d.fk,
         ek |-> IF d.fk < 0 \/ d.fk = 3 THEN "Eof" ELSE "External",
         cause |-> IF d.fk < 0 THEN "" ELSE "gone", ref |-> "", want |-> d.want,
         note |-> "world"]
Deliver ==
    /\ st = "write" /\ recs # <<>>
    /\ 1 \in Stopping(Len(recs))
    /\ \E j \in Sel(sd, Len(Deliveries), 60) :
       LET d == Deliveries[j] IN
       IF d.fk < 0 THEN o' = Open(d, Len(wire))
       ELSE \E h \in Sel(sd, Len(wire) + 1, 61) : o' = Open(d, h - 1)
    /\ stack' = <<OpenFrame(o')>>
    /\ st' = "read"
    /\ UNCHANGED <<sd, step, cf, ent, wire, recs, n, mid, last, hist>>

----------------------------------------------------------------- \* reading
Hdr(k) == [ty |-> recs[k].r.ty, misc |-> recs[k].r.misc, size |-> OfNat(recs[k].end - recs[k].lo, 2)]
TypedOk(ty) == TypeName(ty) \notin {"Unknown", "Switch"}
CONSTANT Ways            \* subset of {"rec", "vis", "one", "mmap", "meta", "hdr"}
If(c, x) == IF c THEN <<x>> ELSE <<>>
Calls ==
    IF mid = "" THEN
        If("rec" \in Ways, [op |-> "rec"])
        \o If("vis" \in Ways, [op |-> "vis", w |-> "all"])
        \o If("one" \in Ways /\ n < Len(recs), [op |-> "vis", w |-> TypeName(recs[Min2(n + 1, Len(recs))].r.ty)])
        \o If("mmap" \in Ways, [op |-> "vis", w |-> "Mmap"])
        \o If("meta" \in Ways /\ n < Len(recs), [op |-> "meta"])
        \o If("hdr" \in Ways, [op |-> "hdr"])
    ELSE IF mid = "hdr" THEN
        <<[op |-> "rech", h |-> last.r.v]>>
        \o If("vis" \in Ways, [op |-> "vish", w |-> "all", h |-> last.r.v])
        \o If("meta" \in Ways, [op |-> "metah", h |-> last.r.v])
    ELSE IF mid = "body" THEN
        <<[op |-> "rest"]>> \o If(TypedOk(recs[n].r.ty), [op |-> "ty", t |-> TypeName(recs[n].r.ty)])
    ELSE <<>>

Read ==
    /\ st = "read"
    /\ mid # "pop"
    /\ n <= Len(recs)
    /\ \E j \in Sel(sd, Len(Calls), 200 + Len(hist)) :
        LET op == Calls[j]
            top == TopOf(stack)
            r == Call(o, top, op)
            p == IF r.p >= 0 THEN r.p ELSE top.p
        IN  /\ last' = [op |-> op, r |-> r]
            /\ hist' = Append(hist, op)
            /\ stack' = IF r.sub = <<>> THEN MoveTop(stack, p) ELSE Push(MoveTop(stack, p), r.sub[1])
            /\ mid' = CASE op.op = "hdr" -> IF r.ok THEN "hdr" ELSE ""
                        [] op.op \in {"meta", "metah"} -> IF r.ok THEN "body" ELSE ""
                        [] mid = "body" -> "pop"
                        [] OTHER -> ""
            \* (nobody knows where a failed source is left)
            /\ n' = IF mid = "body" \/ (op.op = "hdr" /\ r.ok) THEN n
                    ELSE IF ~r.ok /\ r.p < 0 THEN Len(recs) + 1
                    ELSE n + 1
    /\ UNCHANGED <<sd, st, step, cf, ent, wire, recs, o>>
PopBody ==
    /\ st = "read" /\ mid = "pop"
    /\ stack' = Pop(stack) /\ mid' = "" /\ hist' = Append(hist, [op |-> "pop"])
    /\ UNCHANGED <<sd, st, step, cf, ent, wire, recs, o, n, last>>
Stop ==
    /\ st = "read" /\ mid = "" /\ n > Len(recs)
    /\ st' = "done"
    /\ UNCHANGED <<sd, step, cf, ent, wire, recs, o, stack, n, mid, last, hist>>

Init == /\ sd \in Samples /\ st = "conf" /\ step = 1 /\ cf = NoCfg /\ ent = "Native" /\ wire = <<>> /\ recs = <<>>
        /\ o = NoOpen /\ stack = <<>> /\ n = 0 /\ mid = "" /\ hist = <<>>
        /\ last = [op |-> [op |-> ""], r |-> <<>>]
Next == Configure \/ Write \/ Deliver \/ Read \/ PopBody \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ PopBody \/ Stop)

-------------------------------------------------------------- \* properties
Reading == st \in {"read", "done"}
Fresh == Reading /\ last.op.op # ""

\* the boundary after k records
Boundary(k) == IF k = 0 THEN 0 ELSE recs[k].end
\* C01: after every record, damaged or not, the reader is at a boundary
Faulty == Reading /\ o.fk >= 0
InSync == Reading /\ mid \in {"", "body", "pop"} /\ (Faulty => n <= Len(recs)) => stack[1].p = Boundary(Min2(n, Len(recs)))
AfterHdr == Reading /\ mid = "hdr" => stack[1].p = Boundary(n) + 8
\* the stream has exactly the records that were written
EndsRight == (st = "done") =>
    /\ ~last.r.ok
    /\ IF Faulty THEN o.ek \in last.r.v ELSE last.r.v = {"Eof"}
\* C14: records that had been delivered in full are read, and no other
FaultStops == (Faulty /\ Fresh /\ n \in 1..Len(recs) /\ last.r.ok) => recs[n].end <= o.hi \/ mid = "hdr"

ReadsGroup(r) == TypeName(r.ty) = "Read" /\ HasBit(Conf_.rf, R_GROUP)
Whole(k) == recs[k].dmg = "none" \/ (recs[k].dmg = "extra" /\ ~RestLikeType(recs[k].r.ty))
\* C02-C05, C17: what was written is what is read
RightValue ==
    (Fresh /\ n \in 1..Len(recs) /\ last.op.op \notin {"hdr", "rest"} /\ Whole(n)) =>
        LET r == recs[n].r  x == last.r  op == last.op.op IN
        IF op \in {"meta", "metah"} THEN x.ok /\ x.v = SeenMeta(Conf_, r)
        ELSE IF ReadsGroup(r) THEN ~x.ok /\ x.v = {"UnsupportedConfig"}
        ELSE /\ x.ok
             /\ CASE op \in {"rec", "rech", "ty"} -> x.v = SeenBody(Conf_, r)
                  [] OTHER -> /\ x.v.meta = SeenMeta(Conf_, r)
                              /\ LET w == last.op.w  nm == TypeName(r.ty) IN
                                 IF w \in {"all", nm} THEN x.v.h = nm /\ x.v.rec = Some(SeenBody(Conf_, r))
                                 ELSE IF w = "Mmap" /\ nm = "Mmap2"
                                 THEN x.v.h = "Mmap" /\ x.v.rec = Some(ToMmap(SeenBody(Conf_, r)))
                                 ELSE x.v.h = "unimplemented" /\ x.v.rec = None
\* C05, C10: the sub-parser sees the body bytes, and only those
BodyBytes ==
    (Fresh /\ n \in 1..Len(recs) /\ last.op.op = "rest" /\ recs[n].dmg = "none") =>
        last.r.v = PutBody(Conf_, En(ent), recs[n].r)
\* C10: a record cut short fails, unless what is missing was padding
CutFails ==
    (Fresh /\ n \in 1..Len(recs) /\ last.op.op \in {"rec", "rech", "vis", "vish"} /\ recs[n].dmg = "cut"
     /\ ~RestLikeType(recs[n].r.ty)
     /\ PutBody(Conf_, En(ent), recs[n].r) # <<>>) => ~last.r.ok
Nested == Reading => \A k \in 1..Len(stack) : stack[k].lo <= stack[k].p /\ stack[k].p <= stack[k].hi
                                              /\ (k > 1 => stack[k].hi <= stack[k - 1].p)
Finishes_ == <>(st = "done") \/ <>[](st \in {"conf", "write"})

\* a scenario per complete behaviour
Scenario == (st = "done" /\ Emit) => PrintT("SCENARIO " \o ToJson([open |-> o, ops |-> hist]))
View == vars
=============================================================================
