----------------------------- MODULE PerfKernel -----------------------------
(* The writer's side: how the kernel lays out records, as functions from     *)
(* field values to bytes.  It is written from the layout tables (PerfAbi)    *)
(* and is the inverse of PerfDecode; MCStream checks that it is.             *)
(*                                                                           *)
(* wconf = [sty, rf, sia, hwi, ru, ri] (PerfAbi!ConfOf), en = byte order.    *)
EXTENDS PerfDecode

RECURSIVE Concat(_, _)
Concat(seqs, i) == IF i > Len(seqs) THEN <<>> ELSE seqs[i] \o Concat(seqs, i + 1)
Flat(seqs) == Concat(seqs, 1)
Zeros(n) == [i \in 1..n |-> 0]
PadTo(bs, m) == bs \o Zeros(RoundUp(Len(bs), m) - Len(bs))
Opt(o, en) == IF o = None THEN <<>> ELSE Put(o[1], en)

------------------------------------------------------------ \* packed words
\* the number v as bits lo .. lo+n-1
BitSet(v, lo, n) == {lo + j : j \in {k \in 0..(n - 1) : (v \div Pow2[k]) % 2 = 1}}
PackBits(table, v) == UNION {BitSet(v[k], table[k][1], table[k][2]) : k \in DOMAIN table}
BitsOf(w) == {i \in 0..(8 * Len(w) - 1) : HasBit(w, i)}

PutBranch(e, en) == Put(e.from, en) \o Put(e.to, en) \o Put(OfBits(PackBits(BranchBits, e), 8), en)
PutDataSrc(d, en) == Put(OfBits(PackBits(DataSrcBits, d) \cup BitsOf(d.snoop), 8), en)

------------------------------------------------------------------ \* fields
PutReadValue(v, en) == Put(v.value, en) \o Opt(v.te, en) \o Opt(v.tr, en) \o Opt(v.id, en) \o Opt(v.lost, en)
PutGroup(g, en) ==
    Put(OfNat(g.n, 8), en) \o Opt(g.te, en) \o Opt(g.tr, en)
    \o Flat([i \in 1..g.n |-> Put(g.e[i].value, en) \o Opt(g.e[i].id, en) \o Opt(g.e[i].lost, en)])

PutField(conf, misc, en, k, v) ==
    CASE k \in {"u8", "u16", "u32", "u64"} -> Put(v, en)
      [] k = "cpu" -> Put(v, en) \o Zeros(4)
      [] k = "tag" -> v
      [] k = "tail" -> v
      [] k = "readvalue" -> PutReadValue(v, en)
      [] k = "read" -> IF HasBit(conf.rf, R_GROUP) THEN PutGroup(v, en) ELSE PutReadValue(AsValue(v, 1), en)
      [] k = "auxflags" -> Put(v.bits, en)
      [] k = "mmapdetail" ->
            IF HasBit(misc, MiscBuildId)
            THEN LET id == v.build_id[1] IN <<Len(id), 0, 0, 0>> \o id \o Zeros(BuildIdMax - Len(id))
            ELSE Put(v.maj[1], en) \o Put(v.min[1], en) \o Put(v.ino[1], en) \o Put(v.gen[1], en)
      [] k = "nslist" -> Put(OfNat(Len(v), 8), en)
                         \o Flat([i \in 1..Len(v) |-> Put(v[i].dev, en) \o Put(v[i].inode, en)])
      [] k = "poke" -> LET d == v.old \o v.new IN
                       Put(OfNat(Len(v.old), 2), en) \o Put(OfNat(Len(v.new), 2), en)
                       \o d \o Zeros(RoundUpMod(Len(d), 4, 8) - Len(d))
      [] k = "u64list" -> Put(OfNat(Len(v), 8), en) \o Flat([i \in 1..Len(v) |-> Put(v[i], en)])
      [] k = "bytes64" -> Put(OfNat(Len(v), 8), en) \o v
      [] k = "raw" -> PadTo(Put(OfNat(Len(v), 4), en) \o v, 8)
      [] k = "branches" -> Put(OfNat(Len(v.e), 8), en) \o Opt(v.hw, en)
                           \o Flat([i \in 1..Len(v.e) |-> PutBranch(v.e[i], en)])
      [] k \in {"regs_user", "regs_intr"} -> Put(v.abi, en) \o Flat([i \in 1..Len(v.regs) |-> Put(v.regs[i], en)])
      \* the dump is always written at full (8-aligned) size, with the length in use after it
      [] k = "stack" -> IF v = <<>> THEN Zeros(8)
                        ELSE Put(OfNat(RoundUp(Len(v), 8), 8), en) \o PadTo(v, 8) \o Put(OfNat(Len(v), 8), en)
      [] k = "data_src" -> PutDataSrc(v, en)
      [] k = "txn" -> Put(v.bits, en)

\* A name ends with at least one NUL, and the record is a multiple of 8 bytes
\* long; before is how many bytes of the record precede the name.
PutName(v, before) == LET n == before + Len(v) + 1 IN v \o Zeros(1 + RoundUp(n, 8) - n)

RECURSIVE PutFields(_, _, _, _, _, _, _)
PutFields(conf, misc, en, lay, i, f, acc) ==
    IF i > Len(lay) THEN acc
    ELSE LET n == lay[i][1]  k == lay[i][2] IN
         PutFields(conf, misc, en, lay, i + 1, f,
                   acc \o (IF k = "name" THEN PutName(f[n], Len(acc))
                           ELSE PutField(conf, misc, en, k, f[n])))

RECURSIVE PutOptFields(_, _, _, _, _, _)
PutOptFields(conf, en, lay, i, f, acc) ==
    IF i > Len(lay) THEN acc
    ELSE PutOptFields(conf, en, lay, i + 1, f,
            IF f[lay[i][1]] = None THEN acc
            ELSE acc \o PutField(conf, <<0, 0>>, en, lay[i][3], f[lay[i][1]][1]))

----------------------------------------------------------------- \* records
(* A record to be written: [ty: type word, misc, f: its wire fields,         *)
(* sid: the fields of its trailer].                                          *)
PutBody(conf, en, r) ==
    IF TypeName(r.ty) = "Sample" THEN PutOptFields(conf, en, SampleLayout, 1, r.f, <<>>)
    ELSE PutFields(conf, r.misc, en, Layout[TypeName(r.ty)], 1, r.f, <<>>)
PutTrailer(conf, en, r) ==
    IF TypeName(r.ty) \in NoSampleId \/ ~conf.sia THEN <<>>
    ELSE PutOptFields(conf, en, SampleIdLayout, 1, r.sid, <<>>)
PutHeader(en, ty, misc, size) == Put(ty, en) \o Put(misc, en) \o Put(OfNat(size, 2), en)
PutFrame(en, r, body) == PutHeader(en, r.ty, r.misc, 8 + Len(body)) \o body
PutRecord(conf, en, r) == PutFrame(en, r, PutBody(conf, en, r) \o PutTrailer(conf, en, r))

\* What a reader must make of it.
SeenBody(conf, r) ==
    LET n == TypeName(r.ty) IN
    IF n = "Sample" THEN SampleShape(r.f) @@ ("t" :> "Sample")
    ELSE Finish(n, conf @@ [misc |-> r.misc], r.f) @@ ("t" :> n)
         @@ (IF n = "Unknown" THEN "ty" :> r.ty ELSE <<>>)
SeenMeta(conf, r) ==
    [ty |-> r.ty, misc |-> r.misc,
     sid |-> IF TypeName(r.ty) \in NoSampleId \/ ~conf.sia THEN EmptySampleId ELSE SampleIdShape(r.sid)]

------------------------------------------------------- \* values to write
(* Field values are made from a seed: 0 gives all zero bits and empty lists, *)
(* 1 all one bits, others bytes that differ by position, so that a value     *)
(* taken from the wrong place shows.                                         *)
Mix(s, i) == ((s * 73) + (i * 29) + ((s * i) % 7) * 31 + 11) % 256
W(s, i, n) == IF s = 0 THEN ZeroWord(n) ELSE IF s = 1 THEN [j \in 1..n |-> 255]
              ELSE [j \in 1..n |-> Mix(s, 8 * i + j)]
\* bytes; a name has no NUL at its end, though it may contain some
Blob(s, i, n) == [j \in 1..n |-> IF s = 1 THEN 255 ELSE Mix(s + 3, 5 * i + j)]
NameOf(s, i) ==
    LET n == IF s = 0 THEN 0 ELSE (s * 5 + i) % 14
        b == Blob(s, i, n)
    IN  [j \in 1..n |-> IF j = n /\ b[j] = 0 THEN 47 ELSE IF s % 5 = 2 /\ j = 2 /\ j < n THEN 0 ELSE b[j]]
Count(s, i) == IF s = 0 THEN 0 ELSE (s + i) % 4

PickRead(conf, s, i) == [value |-> W(s, i, 8),
    te |-> IF HasBit(conf.rf, R_TIME_ENABLED) THEN Some(W(s, i + 1, 8)) ELSE None,
    tr |-> IF HasBit(conf.rf, R_TIME_RUNNING) THEN Some(W(s, i + 2, 8)) ELSE None,
    id |-> IF HasBit(conf.rf, R_ID) THEN Some(W(s, i + 3, 8)) ELSE None,
    lost |-> IF HasBit(conf.rf, R_LOST) THEN Some(W(s, i + 4, 8)) ELSE None]
PickGroup(conf, s, i) ==
    LET n == Count(s, i)  v(j) == PickRead(conf, s, i + 5 * j) IN
    [te |-> v(0).te, tr |-> v(0).tr, n |-> n,
     e |-> [j \in 1..n |-> [value |-> v(j).value, id |-> v(j).id, lost |-> v(j).lost]]]
PickRegs(mask, s, i) ==
    LET abi == IF s = 0 THEN ZeroWord(8) ELSE OfNat(1 + (s % 2), 8) IN
    [abi |-> abi, mask |-> mask,
     regs |-> [j \in 1..(IF IsZero(abi) THEN 0 ELSE PopCount(mask)) |-> W(s, i + j, 8)]]
PickBranch(s, i) ==
    LET w == W(s, i + 2, 8) IN
    [k \in DOMAIN BranchBits |-> BitsFrom(w, BranchBits[k][1], BranchBits[k][2])]
    @@ [from |-> W(s, i, 8), to |-> W(s, i + 1, 8)]

\* a value for a field of kind k
Pick(conf, misc, k, s, i) ==
    CASE k = "u8" -> W(s, i, 1) [] k = "u16" -> W(s, i, 2) [] k \in {"u32", "cpu"} -> W(s, i, 4)
      [] k = "u64" -> W(s, i, 8) [] k = "tag" -> Blob(s, i, 8)
      [] k = "name" -> NameOf(s, i)
      [] k = "tail" -> Blob(s, i, 8 * Count(s, i))
      [] k = "readvalue" -> PickRead(conf, s, i)
      [] k = "read" -> IF HasBit(conf.rf, R_GROUP) THEN PickGroup(conf, s, i) ELSE AsGroup(PickRead(conf, s, i))
      [] k = "auxflags" -> AuxFlagsOf(W(s, i, 8))
      [] k = "mmapdetail" ->
            IF HasBit(misc, MiscBuildId)
            THEN [maj |-> None, min |-> None, ino |-> None, gen |-> None,
                  build_id |-> Some(Blob(s, i, IF s = 0 THEN 0 ELSE IF s = 1 THEN 20 ELSE (s * 7) % 21))]
            ELSE [maj |-> Some(W(s, i, 4)), min |-> Some(W(s, i + 1, 4)), ino |-> Some(W(s, i + 2, 8)),
                  gen |-> Some(W(s, i + 3, 8)), build_id |-> None]
      [] k = "nslist" -> [j \in 1..(IF s = 0 THEN 0 ELSE (s * 3 + i) % 9) |->
                             [dev |-> W(s, i + 2 * j, 8), inode |-> W(s, i + 2 * j + 1, 8)]]
      [] k = "poke" -> [old |-> Blob(s, i, IF s = 0 THEN 0 ELSE (s * 3) % 8), new |-> Blob(s, i + 3, IF s = 0 THEN 0 ELSE (s * 5) % 9)]
      [] k = "u64list" -> [j \in 1..Count(s, i) |-> W(s, i + j, 8)]
      [] k = "bytes64" -> Blob(s, i, Count(s, i) * 5)
      [] k = "raw" -> Blob(s, i, (s * 3 + i) % 14)
      [] k = "branches" -> [hw |-> IF conf.hwi THEN Some(W(s, i, 8)) ELSE None,
                            e |-> [j \in 1..Count(s, i) |-> PickBranch(s, i + 3 * j)]]
      [] k = "regs_user" -> PickRegs(conf.ru, s, i)
      [] k = "regs_intr" -> PickRegs(conf.ri, s, i)
      [] k = "stack" -> IF s = 0 THEN <<>> ELSE Blob(s, i, (s * 5 + i) % 20)
      [] k = "data_src" -> DataSrc(W(s, i, 8))
      [] k = "txn" -> TxnOf(W(s, i, 8))

PickFields(conf, misc, lay, s) ==
    [n \in {lay[i][1] : i \in 1..Len(lay)} |->
        LET i == CHOOSE j \in 1..Len(lay) : lay[j][1] = n IN Pick(conf, misc, lay[i][2], s, 3 * i)]
PickOpt(conf, lay, s) ==
    [n \in {lay[i][1] : i \in 1..Len(lay)} |->
        LET i == CHOOSE j \in 1..Len(lay) : lay[j][1] = n IN
        IF Wants(conf, lay[i][2]) THEN Some(Pick(conf, <<0, 0>>, lay[i][3], s, 3 * i)) ELSE None]

MakeRecord(conf, ty, misc, s) ==
    [ty |-> ty, misc |-> misc,
     f |-> IF TypeName(ty) = "Sample" THEN PickOpt(conf, SampleLayout, s)
           ELSE PickFields(conf, misc, Layout[TypeName(ty)], s),
     sid |-> PickOpt(conf, SampleIdLayout, s + 1)]
=============================================================================
