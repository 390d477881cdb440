----------------------------- MODULE PerfDecode -----------------------------
(* What bytes mean: the reader's side of the wire format, as functions.      *)
(*                                                                           *)
(* env  = [b: the bytes of the whole input, en: byte order, hi: offset at    *)
(*         which this reader's bytes end, ek: error kinds for running out,   *)
(*         full: offset up to which the reader may believe there are bytes   *)
(*         (larger than hi only if the source is going to fail),             *)
(*         o: how the input is delivered, quirk: 0, or 1 to describe what     *)
(*         known finding K1 makes of misaligned element arrays, or 2 to give *)
(*         up with error "K1" where it does]                                 *)
(* conf = configuration (PerfAbi!ConfOf) plus misc, the 2-byte misc word     *)
(* Every reader maps an offset to Ok(value, next offset) or Er(error kinds). *)
EXTENDS PerfAbi

Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Er(ks)   == [ok |-> FALSE, v |-> ks, p |-> 0]
\* Error kinds when something of known length does not fit: what the source
\* says, or, if no source could satisfy it, a complaint about the length.
TooLong(env, need, p) ==
    IF need <= env.full - p THEN env.ek ELSE env.ek \cup {"Eof", "InvalidRecord"}

Some(v) == <<v>>
None == <<>>

U(env, n, p) == IF p + n <= env.hi THEN Ok(WordAt(env.b, env.en, p, n), p + n) ELSE Er(env.ek)

Raw(env, n, p) == IF n <= env.hi - p THEN Ok(SubSeq(env.b, p + 1, p + n), p + n)
                  ELSE Er(TooLong(env, n, p))

\* n elements of sz bytes each, each element mapped by F(offset)
Many(env, n, sz, p, F(_)) ==
    IF sz > 0 /\ n > (env.hi - p) \div sz
    THEN Er(TooLong(env, IF n > (env.full - p) \div sz THEN HUGE ELSE n * sz, p))
    ELSE Ok([i \in 1..n |-> F(p + (i - 1) * sz)], p + n * sz)

Words(env, n, sz, p) ==
    LET W(q) == WordAt(env.b, env.en, q, sz) IN Many(env, n, sz, p, W)

\* Piecewise delivery: the chunk of the source that contains offset q.
ChunkOf(o, q) == CHOOSE i \in 1..Len(o.cuts) : o.cuts[i] > q /\ \A j \in 1..(i - 1) : o.cuts[j] <= q
\* Bytes q .. r-1 lie in one borrowed piece.
OnePiece(o, q, r) ==
    \/ o.src = "slice"
    \/ /\ o.src = "chunks"
       /\ q < r
       /\ LET i == ChunkOf(o, q) IN o.cuts[i] >= r /\ ~o.temp[i]

(* Known finding K1 (known-findings.txt): when the elements of an array lie  *)
(* in one borrowed piece, in native byte order, but misaligned, the code     *)
(* skips them and reads as many elements from behind them.                   *)
Skips(env, n, sz, align, p) ==
    /\ env.quirk # 0 /\ n > 0 /\ env.o.nat /\ (env.o.al + p) % align # 0
    /\ n <= (env.hi - p) \div sz
    /\ OnePiece(env.o, p, p + n * sz)
\* An array of n elements of sz bytes each, readable in place when aligned.
Array(env, n, sz, align, p, F(_)) ==
    IF ~Skips(env, n, sz, align, p) THEN Many(env, n, sz, p, F)
    ELSE IF env.quirk = 2 THEN Er({"K1"})
    ELSE Many(env, n, sz, p + n * sz, F)
WordArray(env, n, p) ==
    LET W(q) == WordAt(env.b, env.en, q, 8) IN Array(env, n, 8, 8, p, W)

\* Everything up to the end of the input; a source that fails has no end.
Rest(env, p) == IF env.ek # {"Eof"} THEN Er(env.ek) ELSE Ok(SubSeq(env.b, p + 1, env.hi), env.hi)
RestTrim(env, p) == IF env.ek # {"Eof"} THEN Er(env.ek) ELSE Ok(SubSeq(env.b, p + 1, TrimZeros(env.b, p, env.hi)), env.hi)

------------------------------------------------------------ \* packed words
Branch(env, q) ==
    LET W(o) == WordAt(env.b, env.en, q + o, 8)
        w == W(16)
    IN  [k \in DOMAIN BranchBits |-> BitsFrom(w, BranchBits[k][1], BranchBits[k][2])]
        @@ [from |-> W(0), to |-> W(8)]

DataSrc(w) ==
    [k \in DOMAIN DataSrcBits |-> BitsFrom(w, DataSrcBits[k][1], DataSrcBits[k][2])]
    @@ [snoop |-> MaskBits(w, DataSrcSnoop)]

TxnOf(w) == [bits |-> w, abort |-> SubSeq(w, 5, 8)]
AuxFlagsOf(w) == [bits |-> w, fmt |-> w[2]]

---------------------------------------------------------- \* counter values
\* optional u64 member
OptU64(env, on, p) == IF on THEN LET r == U(env, 8, p) IN IF r.ok THEN Ok(Some(r.v), r.p) ELSE r
                      ELSE Ok(None, p)

ReadValue(env, conf, p) ==
    IF HasBit(conf.rf, R_GROUP) \/ UnknownRead(conf) THEN Er({"UnsupportedConfig"})
    ELSE LET v  == U(env, 8, p) IN IF ~v.ok THEN v ELSE
         LET te == OptU64(env, HasBit(conf.rf, R_TIME_ENABLED), v.p) IN IF ~te.ok THEN te ELSE
         LET tr == OptU64(env, HasBit(conf.rf, R_TIME_RUNNING), te.p) IN IF ~tr.ok THEN tr ELSE
         LET id == OptU64(env, HasBit(conf.rf, R_ID), tr.p) IN IF ~id.ok THEN id ELSE
         LET lo == OptU64(env, HasBit(conf.rf, R_LOST), id.p) IN IF ~lo.ok THEN lo ELSE
         Ok([value |-> v.v, te |-> te.v, tr |-> tr.v, id |-> id.v, lost |-> lo.v], lo.p)

GroupElems(conf) == 1 + Bit(conf.rf, R_ID) + Bit(conf.rf, R_LOST)

ReadGroup(env, conf, p) ==
    IF ~HasBit(conf.rf, R_GROUP) \/ UnknownRead(conf) THEN Er({"UnsupportedConfig"})
    ELSE LET nr == U(env, 8, p) IN IF ~nr.ok THEN nr ELSE
         LET te == OptU64(env, HasBit(conf.rf, R_TIME_ENABLED), nr.p) IN IF ~te.ok THEN te ELSE
         LET tr == OptU64(env, HasBit(conf.rf, R_TIME_RUNNING), te.p) IN IF ~tr.ok THEN tr ELSE
         LET hasid == HasBit(conf.rf, R_ID)
             W(q) == WordAt(env.b, env.en, q, 8)
             E(q) == [value |-> W(q),
                      id    |-> IF hasid THEN Some(W(q + 8)) ELSE None,
                      lost  |-> IF HasBit(conf.rf, R_LOST)
                                THEN Some(W(q + (IF hasid THEN 16 ELSE 8))) ELSE None]
             es == Array(env, ToNat(nr.v), 8 * GroupElems(conf), 8, tr.p, E)
         IN  IF ~es.ok THEN es
             ELSE Ok([te |-> te.v, tr |-> tr.v, n |-> Len(es.v), e |-> es.v], es.p)

\* One counter seen as a group of one.
AsGroup(v) == [te |-> v.te, tr |-> v.tr, n |-> 1,
               e |-> << [value |-> v.value, id |-> v.id, lost |-> v.lost] >>]
\* A group member seen as a single counter.
AsValue(g, i) == [value |-> g.e[i].value, te |-> g.te, tr |-> g.tr,
                  id |-> g.e[i].id, lost |-> g.e[i].lost]

ReadAny(env, conf, p) ==
    IF HasBit(conf.rf, R_GROUP) THEN ReadGroup(env, conf, p)
    ELSE LET r == ReadValue(env, conf, p) IN IF r.ok THEN Ok(AsGroup(r.v), r.p) ELSE r

----------------------------------------------------------- \* compound kinds
\* u64 count, then that many words
CountedWords(env, p) ==
    LET n == U(env, 8, p) IN IF ~n.ok THEN n ELSE WordArray(env, ToNat(n.v), n.p)

CountedBytes(env, p) ==
    LET n == U(env, 8, p) IN IF ~n.ok THEN n ELSE
    Raw(env, ToNat(n.v), n.p)

\* u32 size, data, padding to a multiple of 8 counted from the size
RawField(env, p) ==
    LET n == U(env, 4, p) IN IF ~n.ok THEN n ELSE
    LET len == ToNat(n.v) IN
    IF len > env.hi - n.p \/ RoundUp(4 + len, 8) > env.hi - p THEN Er(TooLong(env, RoundUp(4 + len, 8), p))
    ELSE Ok(SubSeq(env.b, n.p + 1, n.p + len), p + RoundUp(4 + len, 8))

\* u64 size, data, u64 dynamic size; the last two only if size # 0
Stack(env, p) ==
    LET n == U(env, 8, p) IN IF ~n.ok THEN n ELSE
    IF IsZero(n.v) THEN Ok(<<>>, n.p) ELSE
    LET d == Raw(env, ToNat(n.v), n.p) IN IF ~d.ok THEN d ELSE
    LET dyn == U(env, 8, d.p) IN IF ~dyn.ok THEN dyn ELSE
    IF ToNat(dyn.v) > ToNat(n.v) THEN Er({"InvalidRecord"})
    ELSE Ok(SubSeq(d.v, 1, ToNat(dyn.v)), dyn.p)

\* abi, then one word per mask bit unless the abi says there are none
Regs(env, mask, p) ==
    LET abi == U(env, 8, p) IN IF ~abi.ok THEN abi ELSE
    LET rs == WordArray(env, IF IsZero(abi.v) THEN 0 ELSE PopCount(mask), abi.p) IN
    IF ~rs.ok THEN rs ELSE Ok([abi |-> abi.v, mask |-> mask, regs |-> rs.v], rs.p)

Branches(env, conf, p) ==
    LET n == U(env, 8, p) IN IF ~n.ok THEN n ELSE
    LET hw == OptU64(env, conf.hwi, n.p) IN IF ~hw.ok THEN hw ELSE
    LET B(q) == Branch(env, q)
        es == Array(env, ToNat(n.v), 24, 8, hw.p, B)
    IN  IF ~es.ok THEN es ELSE Ok([hw |-> hw.v, e |-> es.v], es.p)

Cpu(env, p) ==
    LET r == U(env, 4, p) IN
    IF ~r.ok THEN r ELSE LET z == U(env, 4, r.p) IN IF z.ok THEN Ok(r.v, z.p) ELSE z

NsEntry(env, q) == [dev |-> WordAt(env.b, env.en, q, 8), inode |-> WordAt(env.b, env.en, q + 8, 8)]
NsList(env, p) ==
    LET n == U(env, 8, p) IN IF ~n.ok THEN n ELSE
    LET E(q) == NsEntry(env, q) IN Array(env, ToNat(n.v), 16, 8, n.p, E)

BuildId(env, p) ==
    IF p + 24 > env.hi THEN Er(env.ek \cup (IF p < env.hi /\ env.b[p + 1] > BuildIdMax
                                            THEN {"InvalidRecord"} ELSE {}))
    ELSE IF env.b[p + 1] > BuildIdMax THEN Er({"InvalidRecord"})
    ELSE Ok([maj |-> None, min |-> None, ino |-> None, gen |-> None,
             build_id |-> Some(SubSeq(env.b, p + 5, p + 4 + env.b[p + 1]))], p + 24)
DevInode(env, p) ==
    IF p + 24 > env.hi THEN Er(env.ek)
    ELSE LET W(o, n) == Some(WordAt(env.b, env.en, p + o, n)) IN
         Ok([maj |-> W(0, 4), min |-> W(4, 4), ino |-> W(8, 8), gen |-> W(16, 8),
             build_id |-> None], p + 24)

\* u16 old length, u16 new length, old bytes, new bytes, padding: the whole
\* record is a multiple of 8, so the bytes end 4 (mod 8).
Poke(env, p) ==
    LET o == U(env, 2, p) IN IF ~o.ok THEN o ELSE
    LET n == U(env, 2, o.p) IN IF ~n.ok THEN n ELSE
    LET ol == ToNat(o.v)  nl == ToNat(n.v)
        d == Raw(env, RoundUpMod(ol + nl, 4, 8), n.p)
    IN  IF ~d.ok THEN d
        ELSE Ok([old |-> SubSeq(d.v, 1, ol), new |-> SubSeq(d.v, ol + 1, ol + nl)], d.p)

MapOk(r, v) == IF r.ok THEN Ok(v, r.p) ELSE r

Field(env, conf, k, p) ==
    CASE k = "u8"  -> U(env, 1, p)
      [] k = "u16" -> U(env, 2, p)
      [] k = "u32" -> U(env, 4, p)
      [] k = "u64" -> U(env, 8, p)
      [] k = "cpu" -> Cpu(env, p)
      [] k = "tag" -> Raw(env, 8, p)
      [] k = "name" -> RestTrim(env, p)
      [] k = "tail" -> Rest(env, p)
      [] k = "readvalue" -> ReadValue(env, conf, p)
      [] k = "read" -> ReadAny(env, conf, p)
      [] k = "auxflags" -> LET r == U(env, 8, p) IN IF r.ok THEN Ok(AuxFlagsOf(r.v), r.p) ELSE r
      [] k = "mmapdetail" -> IF HasBit(conf.misc, MiscBuildId) THEN BuildId(env, p)
                             ELSE DevInode(env, p)
      [] k = "nslist" -> NsList(env, p)
      [] k = "poke" -> Poke(env, p)
      [] k = "u64list" -> CountedWords(env, p)
      [] k = "bytes64" -> CountedBytes(env, p)
      [] k = "raw" -> RawField(env, p)
      [] k = "branches" -> Branches(env, conf, p)
      [] k = "regs_user" -> Regs(env, conf.ru, p)
      [] k = "regs_intr" -> Regs(env, conf.ri, p)
      [] k = "stack" -> Stack(env, p)
      [] k = "data_src" -> LET r == U(env, 8, p) IN IF r.ok THEN Ok(DataSrc(r.v), r.p) ELSE r
      [] k = "txn" -> LET r == U(env, 8, p) IN IF r.ok THEN Ok(TxnOf(r.v), r.p) ELSE r

RECURSIVE Fields(_, _, _, _, _, _)
Fields(env, conf, lay, i, p, acc) ==
    IF i > Len(lay) THEN Ok(acc, p)
    ELSE LET r == Field(env, conf, lay[i][2], p) IN
         IF r.ok THEN Fields(env, conf, lay, i + 1, r.p, acc @@ (lay[i][1] :> r.v)) ELSE r

\* As Fields, but with presence conditions; values become options.
RECURSIVE OptFields(_, _, _, _, _, _)
OptFields(env, conf, lay, i, p, acc) ==
    IF i > Len(lay) THEN Ok(acc, p)
    ELSE IF ~Wants(conf, lay[i][2]) THEN OptFields(env, conf, lay, i + 1, p, acc @@ (lay[i][1] :> None))
    ELSE LET r == Field(env, conf, lay[i][3], p) IN
         IF r.ok THEN OptFields(env, conf, lay, i + 1, r.p, acc @@ (lay[i][1] :> Some(r.v))) ELSE r

Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
OrElse(a, b) == IF a # None THEN a ELSE b

SampleIdLen(conf) ==
    IF conf.sia THEN 8 * Cardinality({i \in SampleIdBits : HasBit(conf.sty, i)}) ELSE 0

EmptySampleId == [pid |-> None, tid |-> None, time |-> None, id |-> None,
                  stream_id |-> None, cpu |-> None]

\* what is made of the fields of a trailer, and of those of a sample
SampleIdShape(f) == [Without(f, {"identifier"}) EXCEPT !.id = OrElse(f.id, f.identifier)]
SampleShape(f) == [Without(f, {"identifier"}) EXCEPT
                      !.id  = OrElse(f.id, f.identifier),
                      !.lbr = IF f.lbr = None THEN None ELSE Some(f.lbr[1].e)]
                  @@ ("lbr_hw_index" :> IF f.lbr = None THEN None ELSE f.lbr[1].hw)

SampleId(env, conf, p) ==
    IF ~conf.sia THEN Ok(EmptySampleId, p)
    ELSE LET r == OptFields(env, conf, SampleIdLayout, 1, p, <<>>) IN
         IF ~r.ok THEN r ELSE Ok(SampleIdShape(r.v), r.p)

\* the identification fields of a decoded sample
SampleIdOfSample(s) == [pid |-> s.pid, tid |-> s.tid, time |-> s.time, id |-> s.id,
                        stream_id |-> s.stream_id, cpu |-> s.cpu]

Sample(env, conf, p) ==
    LET r == OptFields(env, conf, SampleLayout, 1, p, "t" :> "Sample") IN
    IF ~r.ok THEN r ELSE Ok(SampleShape(r.v), r.p)

NsAt(ns, i) == IF i < Len(ns) THEN Some(ns[i + 1]) ELSE None

\* Shape of the decoded value, beyond its wire fields.
Finish(name, conf, f) ==
    CASE name = "Mmap2" -> Without(f, {"detail"}) @@ f.detail
      [] name = "Aux" -> Without(f, {"flags"}) @@ [flags |-> f.flags.bits, fmt |-> f.flags.fmt]
      [] name = "SwitchCpuWide" -> f @@ [dir |-> IF HasBit(conf.misc, MiscSwitchOut) THEN "Out" ELSE "In",
                                         apid |-> f.pid, atid |-> f.tid]
      [] name = "Namespaces" -> f @@ [network |-> NsAt(f.ns, NsIndex.network), uts |-> NsAt(f.ns, NsIndex.uts),
                                      ipc |-> NsAt(f.ns, NsIndex.ipc), pidns |-> NsAt(f.ns, NsIndex.pid),
                                      user |-> NsAt(f.ns, NsIndex.user), cgroup |-> NsAt(f.ns, NsIndex.cgroup)]
      [] name = "TextPoke" -> Without(f, {"poke"}) @@ f.poke
      [] OTHER -> f

\* A record body.  ty is the 4-byte type word.
Body(env, conf, ty, p) ==
    LET name == TypeName(ty) IN
    IF name = "Sample" THEN Sample(env, conf, p)
    ELSE LET r == Fields(env, conf, Layout[name], 1, p, "t" :> name) IN
         IF ~r.ok THEN r
         ELSE Ok(Finish(name, conf, r.v) @@ (IF name = "Unknown" THEN "ty" :> ty ELSE <<>>), r.p)

\* An MMAP2 record reduced to what an MMAP record has.
ToMmap(m) == [k \in {"pid", "tid", "addr", "len", "pgoff", "filename"} |-> m[k]] @@ ("t" :> "Mmap")

--------------------------------------------------------- \* record framing
\* hdr = [ty: 4 bytes, misc: 2 bytes, size: 2 bytes]
Header(env, p) ==
    IF p + 8 > env.hi THEN Er(env.ek)
    ELSE Ok([ty |-> WordAt(env.b, env.en, p, 4), misc |-> WordAt(env.b, env.en, p + 4, 2),
             size |-> WordAt(env.b, env.en, p + 6, 2)], p + 8)

(* The frame of a record whose header has been read and whose body starts   *)
(* at p.  Result:                                                            *)
(*   ok = TRUE : lo..mid is the record's own body, mid..end its sample_id    *)
(*   ok = FALSE: v = error kinds; consumed = TRUE if the frame was complete, *)
(*               in which case the input continues at end                    *)
Frame(env, conf, hdr, p) ==
    LET size == ToNat(hdr.size)
        end == p + size - 8
        sid == IF TypeName(hdr.ty) \in NoSampleId THEN 0 ELSE SampleIdLen(conf)
    IN  IF size < 8 THEN [ok |-> FALSE, v |-> {"InvalidRecord"}, consumed |-> FALSE, end |-> p]
        ELSE IF end > env.hi THEN [ok |-> FALSE, v |-> TooLong(env, size - 8, p) \ {"InvalidRecord"},
                                   consumed |-> FALSE, end |-> p]
        ELSE IF sid > size - 8 THEN [ok |-> FALSE, v |-> {"InvalidRecord"}, consumed |-> TRUE, end |-> end]
        ELSE [ok |-> TRUE, lo |-> p, mid |-> end - sid, end |-> end]

InnerEnv(env, hi) == [env EXCEPT !.hi = hi, !.ek = {"Eof"}, !.full = hi]
InnerConf(conf, hdr) == [conf EXCEPT !.misc = hdr.misc]

\* metadata of a complete frame
FrameMeta(env, conf, hdr, fr) ==
    [ty |-> hdr.ty, misc |-> hdr.misc,
     sid |-> IF TypeName(hdr.ty) \in NoSampleId THEN EmptySampleId
             ELSE SampleId(InnerEnv(env, fr.end), conf, fr.mid).v]

FrameBody(env, conf, hdr, fr) ==
    Body(InnerEnv(env, fr.mid), InnerConf(conf, hdr), hdr.ty, fr.lo)

------------------------------------------------------ \* perf_event_attr
RECURSIVE AttrFields(_, _, _, _, _)
AttrFields(env, size, i, p, acc) ==
    IF i > Len(AttrLayout) THEN Ok(acc, p)
    ELSE LET m == AttrLayout[i]
             n == KindSize[m[2]]
         IN  IF m[3] > size THEN AttrFields(env, size, i + 1, p, acc @@ (m[1] :> ZeroWord(n)))
             ELSE AttrFields(env, size, i + 1, p + n, acc @@ (m[1] :> WordAt(env.b, env.en, p, n)))

Attr(env, p) ==
    IF p + 8 > env.hi THEN Er(env.ek)
    ELSE LET ty == WordAt(env.b, env.en, p, 4)
             sz == WordAt(env.b, env.en, p + 4, 4)
             size == ToNat(sz)
             fits == size <= env.hi - p
             short == IF fits THEN {} ELSE TooLong(env, size, p)
             dirty == \E i \in (p + AttrMax + 1)..Min2(p + size, env.hi) : env.b[i] # 0
         IN  IF size <= AttrMax /\ size \notin AttrSizes
             THEN Er({"InvalidRecord"} \cup short)
             ELSE IF ~fits THEN Er((short \ {"InvalidRecord"}) \cup (IF dirty THEN {"UnsupportedData"} ELSE {}))
             ELSE IF dirty THEN Er({"UnsupportedData"})
             ELSE LET r == AttrFields(env, size, 1, p + 8, [type |-> ty, size |-> sz]) IN
                  Ok(Without(r.v, {"_reserved_2", "_reserved_3"}), p + size)

------------------------------------------------- \* where the data lies
(* Offsets of the variable-sized parts of a decoded value, for deciding      *)
(* whether a borrowed view points at the right place.                        *)
DataStart(env, conf, k, p) ==
    CASE k \in {"name", "tail"} -> p
      [] k = "raw" -> p + 4
      [] k = "branches" -> IF conf.hwi THEN p + 16 ELSE p + 8
      [] OTHER -> p + 8
ByteKinds  == {"name", "tail", "raw", "stack", "bytes64"}
ArrayKinds == {"u64list", "branches", "regs_user", "regs_intr", "nslist"}

\* <<field, kind, start>> of each such field; the value is known to decode
RECURSIVE PlacesOf(_, _, _, _, _)
PlacesOf(env, conf, lay, i, p) ==
    IF i > Len(lay) THEN {}
    ELSE IF Len(lay[i]) = 3 /\ ~Wants(conf, lay[i][2]) THEN PlacesOf(env, conf, lay, i + 1, p)
    ELSE LET k == lay[i][Len(lay[i])]
             q == Field(env, conf, k, p).p
             here == IF k = "poke"
                     THEN LET ol == ToNat(WordAt(env.b, env.en, p, 2)) IN
                          {<<"old", "raw", p + 4>>, <<"new", "raw", p + 4 + ol>>}
                     ELSE IF k \in ByteKinds \cup ArrayKinds
                     THEN {<<lay[i][1], k, DataStart(env, conf, k, p)>>} ELSE {}
         IN  here \cup PlacesOf(env, conf, lay, i + 1, q)

Places(env, conf, ty, p) ==
    LET name == TypeName(ty) IN
    PlacesOf(env, conf, IF name = "Sample" THEN SampleLayout ELSE Layout[name], 1, p)
=============================================================================
