----------------------------- MODULE PerfParser -----------------------------
(* The parser as a state machine.                                            *)
(*                                                                           *)
(* State: a stack of frames.  A frame is one live parser (the top-level one, *)
(* a clone, or the sub-parser of a record frame):                            *)
(*   [p: next byte, lo: first byte, hi: end of its bytes,                    *)
(*    ek: error kinds on running out, full: apparent end, misc: misc word,   *)
(*    q: describe known finding K1 instead of the right behaviour]           *)
(* Only the topmost parser is used at a time.                                *)
(*                                                                           *)
(* Call(o, f, op) is everything the interface promises about one call on     *)
(* frame f of a session opened with input and configuration o:               *)
(*   [ok, v: value or set of error kinds, p: next position (-1: anywhere     *)
(*    between the old position and the end), sub: frame entered, or <<>>]    *)
EXTENDS PerfDecode

Env(o, f) == [b |-> o.b, en |-> o.en, hi |-> f.hi, ek |-> f.ek, full |-> f.full,
              o |-> o, quirk |-> f.q]
Conf(o, f) == ConfOf(o.cfg) @@ [misc |-> f.misc]

\* The parser a session starts with.  A source that is going to fail at
\* offset o.hi gives the bytes before it.
OpenFrame(o) == [p |-> 0, lo |-> 0, hi |-> o.hi, ek |-> {o.ek}, full |-> Len(o.b), misc |-> <<0, 0>>,
                 q |-> 0]

Done(r) == [ok |-> r.ok, v |-> r.v, p |-> IF r.ok THEN r.p ELSE -1, sub |-> <<>>]
DoneAt(v, p) == [ok |-> TRUE, v |-> v, p |-> p, sub |-> <<>>]
Fail(ks, p) == [ok |-> FALSE, v |-> ks, p |-> p, sub |-> <<>>]

------------------------------------------------------------- \* elements
ElemSize == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, a0 |-> 0, a3 |-> 3, a64 |-> 64, a1024 |-> 1024,
             wide |-> 1, narrow |-> 4, over16 |-> 1, over64 |-> 4, gone |-> 2, ns |-> 16, br |-> 24]
ElemAlign == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, ns |-> 8, br |-> 8]
Elem(env, t, q) ==
    CASE t = "ns" -> NsEntry(env, q)
      [] t = "br" -> Branch(env, q)
      [] t = "a0" -> <<>>
      [] t \in {"a3", "a64", "a1024"} -> SubSeq(env.b, q + 1, q + ElemSize[t])
      \* types of the user's: one byte kept in much memory, or at even addresses only;
      \* some low bytes of a word; nothing
      [] t \in {"wide", "over16"} -> <<env.b[q + 1]>>
      [] t = "over64" -> SubSeq(WordAt(env.b, env.en, q, 4), 1, 2)
      [] t = "narrow" -> <<WordAt(env.b, env.en, q, 4)[1]>>
      [] t = "gone" -> <<>>
      [] OTHER -> WordAt(env.b, env.en, q, ElemSize[t])
\* Types of the user's that end where their contents say: strings that end in
\* a zero (their length is kept, or nothing), a count and as many bytes (the
\* last of which is kept).
Varying == {"str", "skip", "counted"}
OneVarying(env, t, q) ==
    IF t = "counted"
    THEN IF q >= env.hi THEN Er(env.ek)
         ELSE LET k == env.b[q + 1]  r == Raw(env, k, q + 1) IN
              IF r.ok THEN Ok(<<env.b[q + 1 + k]>>, r.p) ELSE r
    ELSE LET Z == {i \in (q + 1)..env.hi : env.b[i] = 0} IN
         IF Z = {} THEN Er(env.ek)
         ELSE LET z == CHOOSE i \in Z : \A j \in Z : i <= j IN
              Ok(IF t = "skip" THEN <<>> ELSE <<(z - 1 - q) % 256>>, z)
RECURSIVE ManyVarying(_, _, _, _, _, _)
ManyVarying(env, t, n, start, p, acc) ==
    IF Len(acc) = n THEN Ok(acc, p)
    ELSE \* each takes a byte at least
         IF n > env.hi - start THEN Er(TooLong(env, n, start))
         ELSE LET r == OneVarying(env, t, p) IN
              IF ~r.ok THEN r ELSE ManyVarying(env, t, n, start, r.p, Append(acc, r.v))
Elems(env, t, n, p) ==
    IF t \in Varying THEN ManyVarying(env, t, n, p, p, <<>>) ELSE LET E(q) == Elem(env, t, q) IN Many(env, n, ElemSize[t], p, E)

------------------------------------------------- \* single types, by name
RecNo == [n \in {RecName[k] : k \in KnownTypes} |-> CHOOSE k \in KnownTypes : RecName[k] = n]
TypedParse(o, f, t) ==
    LET env == Env(o, f)  conf == Conf(o, f) IN
    IF t \in DOMAIN RecNo THEN Body(env, conf, OfNat(RecNo[t], 4), f.p)
    ELSE CASE t = "SampleId" -> SampleId(env, conf, f.p)
           [] t = "ReadValue" -> ReadValue(env, conf, f.p)
           [] t = "ReadGroup" -> ReadGroup(env, conf, f.p)
           [] t = "RegsUser" -> Regs(env, conf.ru, f.p)
           [] t = "RegsIntr" -> Regs(env, conf.ri, f.p)
           [] t = "NsEntry" -> LET r == Raw(env, 16, f.p) IN MapOk(r, NsEntry(env, f.p))
           [] t = "Branch" -> LET r == Raw(env, 24, f.p) IN MapOk(r, Branch(env, f.p))
           [] t = "DataSource" -> Field(env, conf, "data_src", f.p)
           [] t = "Txn" -> Field(env, conf, "txn", f.p)
           [] t = "AuxFlags" -> Field(env, conf, "auxflags", f.p)
           [] t = "Abi" -> U(env, 8, f.p)
           [] t \in {"BpfType", "KsymType", "KsymFlags"} -> U(env, 2, f.p)
           [] t = "Attr" -> Attr(env, f.p)

------------------------------------------------------------ \* configuration
\* Flags this crate has no name for may be kept or dropped.
KnownConf(c) == [sty |-> MaskBits(c.sty, KnownSample), rf |-> MaskBits(c.rf, KnownRead),
                 ru |-> c.ru, ri |-> c.ri, sid |-> c.sid]
ConfView(c) == [sty |-> c.sty, rf |-> c.rf, ru |-> c.ru, ri |-> c.ri, sid |-> SampleIdLen(c)]

------------------------------------------------------ \* iterating a group
(* An iterator is the pair <<a, z>>: entries a+1 .. z of the group are left. *)
Idx(k, max) == Min2(ToNat(k), max)
GStep(g, it, s) ==
    LET a == it[1]  z == it[2]  left == z - a
        e(i) == Some(g.e[i])
        R(r, i) == [r |-> r, it |-> i]
        nth(k) == IF k < left THEN R(e(a + 1 + k), <<a + 1 + k, z>>) ELSE R(None, <<z, z>>)
        nthb(k) == IF k < left THEN R(e(z - k), <<a, z - k - 1>>) ELSE R(None, <<a, a>>)
        n == s[1]
    IN  CASE n = "next" -> nth(0)
          [] n = "back" -> nthb(0)
          [] n = "nth" -> nth(ToNat(s[2]))
          [] n = "nthback" -> nthb(ToNat(s[2]))
          [] n \in {"len", "count"} -> R(left, it)
          [] n = "hint" -> R(<<left, Some(left)>>, it)
          [] n = "fork" -> R(SubSeq(g.e, a + 1, z), it)
          [] n = "rev" -> R(Reverse(SubSeq(g.e, a + 1, z)), it)
          [] n = "fold" -> R(SubSeq(g.e, a + 1, z), it)
          [] n = "rfold" -> R(Reverse(SubSeq(g.e, a + 1, z)), it)
          [] n = "skip" -> R(SubSeq(g.e, a + 1 + Min2(ToNat(s[2]), left), z), it)
          \* every k-th, the first one included
          [] n = "every" -> LET k == Min2(Max2(ToNat(s[2]), 1), left + 1) IN
                            R([i \in 1..((left + k - 1) \div k) |-> g.e[a + 1 + (i - 1) * k]], it)
          \* up to k from either end, taken from the iterator
          [] n = "take" -> LET k == Min2(ToNat(s[2]), left) IN R(SubSeq(g.e, a + 1, a + k), <<a + k, z>>)
          [] n = "takeback" -> LET k == Min2(ToNat(s[2]), left) IN R(Reverse(SubSeq(g.e, z - k + 1, z)), <<a, z - k>>)
          \* the next one with this value, from either end
          [] n = "find" -> LET S == {i \in (a + 1)..z : g.e[i].value = s[2]} IN
                           IF S = {} THEN R(None, <<z, z>>)
                           ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN R(e(i), <<i, z>>)
          [] n = "rfind" -> LET S == {i \in (a + 1)..z : g.e[i].value = s[2]} IN
                            IF S = {} THEN R(None, <<a, a>>)
                            ELSE LET i == CHOOSE i \in S : \A j \in S : i >= j IN R(e(i), <<a, i - 1>>)
          [] n = "last" -> R(IF left = 0 THEN None ELSE e(z), it)
          [] n = "restart" -> R(None, <<0, g.n>>)
          [] n = "get" -> R(IF ToNat(s[2]) < g.n THEN e(ToNat(s[2]) + 1) ELSE None, it)
          [] n = "byid" -> LET S == {i \in 1..g.n : g.e[i].id = Some(s[2])} IN
                           R(IF S = {} THEN None
                             ELSE e(CHOOSE i \in S : \A j \in S : i <= j), it)
          [] n = "glen" -> R(g.n, it)
          [] n = "empty" -> R(g.n = 0, it)
          [] n = "single" -> R(IF g.n = 1 THEN Some(AsValue(g, 1)) ELSE None, it)
          [] n = "entry" -> R(IF ToNat(s[2]) < g.n THEN Some(AsValue(g, ToNat(s[2]) + 1)) ELSE None, it)
          [] n = "again" -> R(IF ToNat(s[2]) < g.n
                              THEN Some(AsGroup(AsValue(g, ToNat(s[2]) + 1))) ELSE None, it)
          [] n = "owned" -> R(g, it)
RECURSIVE GRun(_, _, _, _, _)
GRun(g, it, script, i, acc) ==
    IF i > Len(script) THEN acc
    ELSE LET r == GStep(g, it, script[i]) IN GRun(g, r.it, script, i + 1, Append(acc, r.r))

----------------------------------------------------------------- \* records
HasHdrArg(op) == op.op \in {"rech", "vish", "metah"}
\* The header of the next record: given by the caller or read from the input.
HdrOf(o, f, op) == IF HasHdrArg(op) THEN Ok(op.h, f.p) ELSE Header(Env(o, f), f.p)

\* The handler that gets a record named n, when the visitor implements w, and
\* the record it gets (<<>>: none, the catch-all is called with metadata only)
Handled(w, n, rec) ==
    CASE w = "all" \/ w = n -> [h |-> n, rec |-> Some(rec)]
      [] w = "Mmap" /\ n = "Mmap2" -> [h |-> "Mmap", rec |-> Some(ToMmap(rec))]
      [] OTHER -> [h |-> "unimplemented", rec |-> None]

RecordCall(o, f, op) ==
    LET env == Env(o, f)
        conf == [Conf(o, f) EXCEPT !.misc = <<0, 0>>]
        h == HdrOf(o, f, op)
    IN  IF ~h.ok THEN Fail(h.v, -1)
        ELSE LET fr == Frame(env, conf, h.v, h.p) IN
        IF ~fr.ok THEN Fail(fr.v, IF fr.consumed THEN fr.end ELSE -1)
        ELSE LET meta == FrameMeta(env, conf, h.v, fr) IN
        IF op.op \in {"meta", "metah"}
        THEN [ok |-> TRUE, v |-> meta, p |-> fr.end,
              sub |-> <<[p |-> fr.lo, lo |-> fr.lo, hi |-> fr.mid, ek |-> {"Eof"},
                         full |-> fr.mid, misc |-> h.v.misc, q |-> 0]>>]
        ELSE LET r == FrameBody(env, conf, h.v, fr) IN
        IF ~r.ok THEN Fail(r.v, fr.end)
        ELSE IF op.op \in {"rec", "rech"} THEN DoneAt(r.v, fr.end)
        ELSE LET k == Handled(op.w, TypeName(h.v.ty), r.v) IN
             DoneAt([h |-> k.h, meta |-> meta, rec |-> k.rec], fr.end)

\* n whole records, one after the other
RECURSIVE RecsFrom(_, _, _, _, _)
RecsFrom(o, f, n, p, acc) ==
    IF n = 0 THEN DoneAt(acc, p)
    ELSE LET r == RecordCall(o, [f EXCEPT !.p = p], [op |-> "rec"]) IN
         IF ~r.ok THEN Fail(r.v, r.p) ELSE RecsFrom(o, f, n - 1, r.p, Append(acc, r.v))

-------------------------------------------------------------------- \* calls
Call(o, f, op) ==
    LET env == Env(o, f)  conf == Conf(o, f)  p == f.p IN
    CASE op.op = "u8"  -> Done(U(env, 1, p))
      [] op.op = "u16" -> Done(U(env, 2, p))
      [] op.op = "u32" -> Done(U(env, 4, p))
      [] op.op = "u64" -> Done(U(env, 8, p))
      \* (the input is preceded by op.n zeros, which this call reads)
      [] op.op = "far" -> DoneAt(op.n, p)
      [] op.op = "arr" -> Done(Raw(env, op.n, p))
      [] op.op = "bytes" -> Done(Raw(env, ToNat(op.n), p))
      [] op.op = "rest" -> Done(Rest(env, p))
      [] op.op = "resttrim" -> Done(RestTrim(env, p))
      [] op.op = "rep" -> Done(Elems(env, op.t, ToNat(op.n), p))
      [] op.op = "slice" -> LET E(q) == Elem(env, op.t, q) IN
                            Done(Array(env, ToNat(op.n), ElemSize[op.t], ElemAlign[op.t], p, E))
      [] op.op = "if" ->
            IF ~op.q THEN DoneAt(None, p)
            ELSE LET r == IF op.t = "with" THEN Raw(env, 2, p) ELSE U(env, ElemSize[op.t], p)
                 IN  Done(MapOk(r, Some(r.v)))
      [] op.op = "with" -> Done(Raw(env, 3, p))
      [] op.op = "hdr" -> Done(Header(env, p))
      [] op.op = "ty" -> Done(TypedParse(o, f, op.t))
      [] op.op = "recs" -> RecsFrom(o, f, ToNat(op.n), p, <<>>)
      [] op.op \in {"rec", "rech", "vis", "vish", "meta", "metah"} -> RecordCall(o, f, op)
      [] op.op = "group" ->
            LET r == ReadGroup(env, conf, p) IN
            IF ~r.ok THEN Done(r)
            ELSE DoneAt([g |-> r.v, r |-> GRun(r.v, <<0, r.v.n>>, op.script, 1, <<>>)], r.p)
      [] op.op = "consts" -> DoneAt(ConstTable(op.t), p)
      \* integers written in a byte order are read alike through every way to name it
      [] op.op = "order" -> DoneAt([k \in 1..9 |-> <<SubSeq(op.n, 1, 2), SubSeq(op.n, 1, 4), op.n>>], p)
      [] op.op = "conf" -> DoneAt(KnownConf(ConfView(conf)), p)
      [] op.op = "attrconf" ->
            LET r == Attr(env, p) IN
            IF ~r.ok THEN Done(r)
            ELSE DoneAt(KnownConf(ConfView(ConfOf(
                    [sty |-> r.v.sample_type, rf |-> r.v.read_format, fl |-> r.v.flags,
                     bst |-> r.v.branch_sample_type, ru |-> r.v.sample_regs_user,
                     ri |-> r.v.sample_regs_intr]))), r.p)

DirectSkips(o, f, op) == Skips(Env(o, [f EXCEPT !.q = 1]), ToNat(op.n), ElemSize[op.t], ElemAlign[op.t], f.p)

(* A direct slice may always be refused (nothing consumed), except that a    *)
(* native, aligned one that lies in one borrowed piece must be given.  If    *)
(* there are too few bytes it must not be given, and may be an error.        *)
DirectMust(o, f, op) ==
    LET n == ToNat(op.n)  sz == ElemSize[op.t] IN
    /\ o.nat /\ f.hi - f.p >= 1
    /\ n > 0 /\ n <= (f.hi - f.p) \div sz
    /\ (o.al + f.p) % ElemAlign[op.t] = 0
    /\ OnePiece(o, f.p, f.p + n * sz)

(* It must be an error if the source fails right here, so that nothing can   *)
(* be said about the data (other than for a foreign byte order, where the    *)
(* source need not be asked).                                                *)
DirectFails(o, f, op) == o.nat /\ f.hi = f.p /\ f.ek = {"External"} /\ ToNat(op.n) > 0

------------------------------------------------------- \* effect on the state
TopOf(stack) == stack[Len(stack)]
SetTop(stack, f) == [stack EXCEPT ![Len(stack)] = f]
MoveTop(stack, p) == SetTop(stack, [TopOf(stack) EXCEPT !.p = p])
Push(stack, f) == Append(stack, f)
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
\* The source's fault has gone away (sub-parsers never see the source).
Unfault(o, f) == IF f.lo = 0 /\ f.full = Len(o.b) THEN [f EXCEPT !.hi = Len(o.b), !.ek = {"Eof"}] ELSE f
=============================================================================
