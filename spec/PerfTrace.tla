----------------------------- MODULE PerfTrace -----------------------------
(* Trace validation: is what the real code did a behaviour of PerfParser?    *)
(*                                                                           *)
(* The harness writes one JSON line per call on the real parser.  This       *)
(* module replays the lines on the specification's state and compares the    *)
(* aspects of each call that the property under test (IOEnv.LENS) is about.  *)
(* A session (open .. close) with a disagreement is reported and skipped;    *)
(* the remaining sessions are still checked.                                 *)
EXTENDS PerfParser, PerfText, PerfSource, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

Lenses ==
  [ C01 |-> {"ok", "kind", "pos", "val"},  C02 |-> {"ok", "val"},
    C03 |-> {"ok", "kind", "val"},         C04 |-> {"ok", "kind", "val"},
    C05 |-> {"ok", "kind", "val", "cp"},   C06 |-> {"ref"},
    C07 |-> {"ref"},                       C08 |-> {},
    C09 |-> {"mem"},                       C10 |-> {"ok", "ref"},
    C11 |-> {"ok", "kind", "val", "cp"},   C12 |-> {"ok", "kind", "val", "pos"},
    C13 |-> {"ok", "kind", "val", "cp"},   C14 |-> {"ok", "kind", "val", "cause"},
    C15 |-> {"loc", "again"},              C16 |-> {"ok", "val", "pos"},
    C17 |-> {"ok", "kind", "val", "pos"},  C18 |-> {"ok", "val"},
    C19 |-> {"cp"},                        C20 |-> {"dbg", "txt"},
    C21 |-> {"proto", "pos"},
    ALL |-> {"ok", "kind", "val", "pos", "ref", "mem", "loc", "again", "proto", "dbg", "txt",
             "cp", "cause"} ]
Lens == Lenses[IOEnv.LENS]
On(a) == a \in Lens
Has(l, k) == k \in DOMAIN l

VARIABLES i,       \* lines consumed
          s,       \* line of the current session's open (0: between sessions)
          stack,   \* the specification's state: live parsers, with a flag "lost"
                   \* when the interface leaves open where a parser stands,
                   \* and src: position and bytes on offer of its source
          refs,    \* open line of the reference session
          refq,    \* the first call of it that K1 affects (0: none)
          skip,    \* skipping the rest of a rejected session
          cnt      \* [calls, sessions, rejected]
vars == <<i, s, stack, refs, refq, skip, cnt>>

O == Trace[s]

------------------------------------------------------------- \* comparisons
SameRec(a, b) == a.t = b.t /\ a = b
RecOps == {"rec", "rech"}
VisOps == {"vis", "vish"}
MetaOps == {"meta", "metah"}
SameVal(op, a, b) ==
    CASE op.op \in RecOps -> SameRec(a, b)
      [] op.op = "recs" -> Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameRec(a[k], b[k])
      [] op.op \in VisOps -> /\ a.h = b.h /\ a.meta = b.meta /\ Len(a.rec) = Len(b.rec)
                             /\ (a.rec # <<>> => SameRec(a.rec[1], b.rec[1]))
      [] op.op \in {"conf", "attrconf"} -> KnownConf(a) = KnownConf(b)
      [] OTHER -> a = b

\* ---- direct slices: several outcomes are right
DirectOk(f, l) ==
    LET e == Elems(Env(O, f), l.t, ToNat(l.n), f.p)
    IN  IF ~l.ok THEN ~e.ok
        ELSE IF l.v = <<>> THEN ~DirectMust(O, f, l) /\ ~DirectFails(O, f, l)
        ELSE e.ok /\ l.v[1] = e.v
DirectPos(f, l) == IF f.q # 0 THEN f.p + ToNat(l.n) * ElemSize[l.t]   \* K1
                   ELSE IF l.ok /\ l.v # <<>> THEN f.p + ToNat(l.n) * ElemSize[l.t]
                   ELSE IF l.ok THEN f.p ELSE -1

\* ---- the same call in the reference session
RefOps == RecOps \cup VisOps \cup MetaOps \cup {"ty", "group"}
CanQuirk(o) == o.nat /\ CASE o.src = "slice" -> TRUE [] o.src = "buf" -> FALSE
                          [] OTHER -> \E j \in 1..Len(o.temp) : ~o.temp[j]
K1At(o, f, l) == CanQuirk(o) /\ LET e == Call(o, [f EXCEPT !.q = 2], l) IN ~e.ok /\ e.v = {"K1"}
\* Where more than one kind of error is right (counts that do not fit), the
\* kind is a function of the count; K1 may make it that of another count.
KindsMayDiffer(f, l, r, e) == /\ ~e.ok /\ {l.k, r.k} \subseteq e.v
                              /\ K1At(O, f, l) \/ K1At(Trace[refs], f, l)
RefBad(f, l, e) ==
    LET r == Trace[refs + (i + 1 - s)] IN
    CASE l.op = "sdirect" -> FALSE
      [] IOEnv.LENS = "C10" /\ l.op \notin RefOps -> FALSE
      [] OTHER -> ~ /\ l.op = r.op /\ Has(r, "ok")
                    /\ l.ok = r.ok
                    /\ (l.ok => SameVal(l, l.v, r.v))
                    /\ (~l.ok => l.k = r.k \/ KindsMayDiffer(f, l, r, e))
                    /\ (l.ok /\ l.p >= 0 /\ r.p >= 0 /\ IOEnv.LENS # "C10" => l.p = r.p)

\* ---- memory: a constant plus a multiple of what the source supplied
\* and of the pieces it came in (a buffered reader's are its reads', but no
\* more than its buffer holds)
PieceMin == Min({O.cap} \cup {IF O.reads[k] = 0 THEN 1 ELSE O.reads[k] : k \in DOMAIN O.reads})
Pieces(l) == IF O.src = "buf" /\ O.cap > 0 THEN l.sup \div PieceMin + Len(O.cuts) ELSE Len(O.cuts)
MemBound(l) == 49152 + 8 * l.sup + 96 * Pieces(l)

\* ---- borrowed data: <<name, offset>> pairs against the specification's places
ArrayAligned(q) == (O.al + q) % 8 = 0
LocBadAt(places, lo, end, x) ==
    LET S == {pl \in places : pl[1] = x[1]} IN
    IF S = {} THEN FALSE
    ELSE LET pl == CHOOSE z \in S : TRUE IN
         \/ x[2] # -1 /\ x[2] # pl[3]
         \/ /\ x[2] = -1
            /\ OnePiece(O, lo, end)
            /\ \/ pl[2] \in ByteKinds
               \/ pl[2] \in ArrayKinds /\ O.nat /\ ArrayAligned(pl[3])
LocBad(f, l, e) ==
    IF ~(l.ok /\ e.ok) THEN FALSE
    ELSE CASE l.op \in RecOps \cup VisOps ->
                LET env == Env(O, f)
                    conf == [Conf(O, f) EXCEPT !.misc = <<0, 0>>]
                    h == HdrOf(O, f, l)
                    fr == Frame(env, conf, h.v, h.p)
                    ps == Places(InnerEnv(env, fr.mid), InnerConf(conf, h.v), h.v.ty, fr.lo)
                IN  \E j \in 1..Len(l.loc) : LocBadAt(ps, f.p, fr.end, l.loc[j])
           [] l.op = "ty" /\ l.t \in DOMAIN RecNo ->
                LET ps == Places(Env(O, f), Conf(O, f), OfNat(RecNo[l.t], 4), f.p)
                IN  \E j \in 1..Len(l.loc) : LocBadAt(ps, f.lo, f.hi, l.loc[j])
           [] l.op = "ty" /\ l.t \in {"RegsUser", "RegsIntr"} ->
                \E j \in 1..Len(l.loc) :
                    LocBadAt({<<"regs", "regs_user", f.p + 8>>}, f.p, e.p, l.loc[j])
           [] l.op = "bytes" ->
                \E j \in 1..Len(l.loc) : LocBadAt({<<"v", "raw", f.p>>}, f.p, e.p, l.loc[j])
           [] l.op = "slice" ->
                \E j \in 1..Len(l.loc) :
                    LocBadAt({<<"v", IF (O.al + f.p) % ElemAlign[l.t] = 0 /\ O.nat THEN "raw" ELSE "copy", f.p>>},
                             f.p, e.p, l.loc[j])
           [] l.op \in {"rest", "resttrim"} ->
                \E j \in 1..Len(l.loc) : l.loc[j][2] \notin {-1, f.p}
           [] OTHER -> FALSE

\* ---- a counter group that is borrowed needs no memory for its values.  They
\* cannot be seen to be views of the input, so: what a call that decoded one has
\* allocated and not freed is less than the values.
GroupBytes(g) == IF g.n = 0 THEN 0 ELSE 8 * g.n * (1 + Len(g.e[1].id) + Len(g.e[1].lost))
KeptBad(f, l, e) ==
    IF ~(l.ok /\ e.ok) THEN FALSE
    ELSE LET must == O.nat /\ ArrayAligned(f.p) /\ OnePiece(O, f.p, e.p)
             conf == Conf(O, f)
         IN CASE l.op = "ty" /\ l.t = "ReadGroup" -> must /\ GroupBytes(e.v) > 0 /\ l.kept >= GroupBytes(e.v)
              [] l.op \in RecOps ->
                    /\ must /\ HasBit(conf.rf, R_GROUP) /\ e.v.t = "Sample"
                    /\ e.v.values # <<>> /\ {e.v.callchain, e.v.raw, e.v.lbr, e.v.regs_user, e.v.stack_user, e.v.regs_intr, e.v.aux} = {<<>>}
                    /\ GroupBytes(e.v.values[1]) > 1024     \* (the record has a box of its own)
                    /\ l.kept >= GroupBytes(e.v.values[1])
              [] OTHER -> FALSE

\* ---- copies and conversions of a decoded value
RecOf(l) == IF l.op \in VisOps THEN l.v.rec[1] ELSE l.v
CopyOf(l, label) ==
    LET v == RecOf(l) IN
    CASE label = "os" -> IF v.t = "Comm" THEN v.comm ELSE IF v.t = "CGroup" THEN v.path ELSE v.filename
      [] label = "mmap" -> ToMmap(v)
      [] label = "sampleid" -> SampleIdOfSample(v)
      [] label = "group" -> AsGroup(v)
      [] OTHER -> v
OwnedOf(l, label) ==
    LET v == RecOf(l) IN
    CASE label = "mmap" -> ToMmap(v)
      [] label = "values" -> v.values[1]
      [] OTHER -> v
CpBad(l) == l.ok /\ Has(l, "cp") /\ \E j \in 1..Len(l.cp) : l.cp[j][2] # CopyOf(l, l.cp[j][1])

\* ---- the source contract
RestLike(l) == l.op \in {"rest", "resttrim"} \/ (l.op = "ty" /\ l.t \in {"Mmap", "Mmap2", "Comm", "CGroup", "KSymbol"})
\* (src: what the source has been told before this call)
ProtoBad(src, l) ==
    /\ Has(l, "ev")
    /\ LET s0 == Source(src[1], src[2])
           s1 == Heard(s0, l.ev, 1)
       IN  \/ Has(l, "idle")               \* between calls the source hears nothing
           \/ FirstWrong(s0, l.ev, 1) # 0
           \/ s1.pos # l.p
           \/ l.ok /\ ~RestLike(l) /\ s1.asked > l.p /\ ~(l.op = "sdirect" /\ l.v = <<>>)
Told(src, l) == IF Has(l, "ev") THEN LET s1 == Heard(Source(src[1], src[2]), l.ev, 1) IN <<s1.pos, s1.off>> ELSE src

\* ---- everything that is wrong with line l, a call on frame f
\* (e is what the specification says of it; it is only evaluated where the
\* position is known)
Wrong(f, lost, src, l, e) ==
    LET direct == l.op = "sdirect"
        know == ~lost
    IN  {a \in Lens :
          CASE a = "ok"   -> know /\ (IF direct THEN ~DirectOk(f, l) ELSE l.ok # e.ok)
            [] a = "kind" -> know /\ ~l.ok /\
                             (IF direct THEN DirectFails(O, f, l) /\ l.k \notin f.ek \cup {"InvalidRecord"}
                              ELSE ~e.ok /\ l.k \notin e.v)
            [] a = "val"  -> know /\ ~direct /\ l.ok /\ e.ok /\ ~SameVal(l, e.v, l.v)
            [] a = "pos"  -> know /\ l.p >= 0 /\
                             (IF direct THEN (DirectPos(f, l) >= 0 /\ l.p # DirectPos(f, l))
                              ELSE IF l.ok = e.ok /\ e.p >= 0 THEN l.p # e.p
                              ELSE l.p < f.p \/ l.p > f.hi)
            [] a = "cause" -> ~l.ok /\ l.k = "External" /\ l.c # <<O.cause>>
            [] a = "ref"  -> O.ref = "cmp" /\ RefBad(f, l, e)
            [] a = "mem"  -> l.mem > MemBound(l)
            [] a = "loc"  -> know /\ ~direct /\ ((Has(l, "loc") /\ LocBad(f, l, e)) \/ (Has(l, "kept") /\ KeptBad(f, l, e)))
            [] a = "proto" -> ProtoBad(src, l)
            [] a = "dbg"  -> l.ok /\ Has(l, "dbg") /\ ~DebugRight(l, l.dbg)
            [] a = "txt"  -> ~l.ok /\ ~ErrTextRight(l)
            [] a = "cp"   -> CpBad(l)
            [] OTHER -> FALSE}

\* ---- known finding K1: the call did exactly what K1 makes of it, and that is
\* not what it should have done
Quirky == CanQuirk(O) /\ Lens \cap {"ok", "val", "pos", "ref", "loc"} # {}
AsK1(f) == [f EXCEPT !.q = 1]
Fits(l, e) == /\ l.ok = e.ok
              /\ (l.ok => SameVal(l, e.v, l.v))
              /\ (~l.ok => l.k \in e.v)
              /\ (l.p >= 0 /\ e.p >= 0 => l.p = e.p)
DirectIsK1(f, l) == /\ DirectSkips(O, f, l) /\ l.ok /\ l.v = <<>>
                    /\ l.p = f.p + ToNat(l.n) * ElemSize[l.t]

\* ---- where the specification stands after line l
After(f, lost, l, e) ==
    IF lost THEN [f |-> f, lost |-> TRUE]
    ELSE IF l.op = "sdirect" /\ Quirky /\ l.p < 0 /\ l.ok /\ l.v = <<>> /\ DirectSkips(O, f, l)
    THEN [f |-> f, lost |-> TRUE]
    ELSE IF l.op = "sdirect"
    THEN IF DirectPos(f, l) >= 0 THEN [f |-> [f EXCEPT !.p = DirectPos(f, l)], lost |-> FALSE]
         ELSE IF l.p >= 0 THEN [f |-> [f EXCEPT !.p = l.p], lost |-> FALSE]
         ELSE [f |-> f, lost |-> TRUE]
    ELSE IF l.ok = e.ok /\ e.p >= 0 THEN [f |-> [f EXCEPT !.p = e.p], lost |-> FALSE]
         ELSE IF l.p >= 0 /\ l.p <= f.hi THEN [f |-> [f EXCEPT !.p = l.p], lost |-> FALSE]
         ELSE [f |-> f, lost |-> TRUE]

SubFrame(f, lost, e) ==
    IF ~lost /\ e.ok THEN [f |-> e.sub[1], lost |-> FALSE, src |-> <<0, 0>>]
    ELSE [f |-> f, lost |-> TRUE, src |-> <<0, 0>>]

---------------------------------------------------------------- \* the run
Report(line, wrong) ==
    PrintT("REJECT " \o ToJson([open |-> s, line |-> line, wrong |-> wrong]))

Reject(wrong) == /\ Report(i + 1, wrong)
                 /\ skip' = TRUE
                 /\ cnt' = [cnt EXCEPT !.rejected = @ + 1]
                 /\ UNCHANGED <<stack, s, refs, refq>>

Init == i = 0 /\ s = 0 /\ stack = <<>> /\ refs = 0 /\ refq = 0 /\ skip = FALSE
        /\ cnt = [calls |-> 0, sessions |-> 0, rejected |-> 0, lost |-> 0, known |-> 0]

L == Trace[i + 1]

Open == /\ L.op = "open"
        /\ s' = i + 1
        /\ refs' = IF L.ref = "set" THEN i + 1 ELSE refs
        /\ refq' = IF L.ref = "set" THEN 0 ELSE refq
        /\ stack' = <<[f |-> OpenFrame(L), lost |-> FALSE, src |-> <<0, 0>>]>>
        /\ skip' = FALSE
        /\ cnt' = [cnt EXCEPT !.sessions = @ + 1]

Skip == L.op # "open" /\ skip /\ UNCHANGED <<s, stack, refs, refq, skip, cnt>>

Crash == /\ L.op # "open" /\ ~skip
         /\ Has(L, "panic")
         /\ Reject({"panic"})

NoCall == {"open", "pop", "clone", "clear", "again", "owned", "held", "idle", "close"}

Control ==
    /\ L.op \in NoCall \ {"open"} /\ ~skip /\ ~Has(L, "panic")
    /\ \/ /\ L.op = "pop" /\ stack' = Pop(stack) /\ UNCHANGED <<s, refs, refq, skip, cnt>>
       \/ /\ L.op = "clone" /\ stack' = Append(stack, TopOf(stack)) /\ UNCHANGED <<s, refs, refq, skip, cnt>>
       \/ /\ L.op = "clear"
          /\ stack' = [j \in 1..Len(stack) |-> [stack[j] EXCEPT !.f = Unfault(O, @)]]
          /\ UNCHANGED <<s, refs, refq, skip, cnt>>
       \/ /\ L.op = "again"
          /\ IF On("again") /\ \E j \in 1..Len(L.vs) :
                    ~SameVal(Trace[s + L.vs[j][1]], Trace[s + L.vs[j][1]].v, L.vs[j][2])
             THEN Reject({"again"}) ELSE UNCHANGED <<s, stack, refs, refq, skip, cnt>>
       \/ /\ L.op = "owned"
          /\ IF On("cp") /\ \E j \in 1..Len(L.vs) :
                    OwnedOf(Trace[s + L.vs[j][1]], L.vs[j][2]) # L.vs[j][3]
             THEN Reject({"owned"}) ELSE UNCHANGED <<s, stack, refs, refq, skip, cnt>>
       \* nothing is held once every parser and value of the session is gone
       \/ /\ L.op = "held"
          /\ IF On("mem") /\ L.n # 0
             THEN Reject({"held"}) ELSE UNCHANGED <<s, stack, refs, refq, skip, cnt>>
       \/ /\ L.op = "idle"
          /\ IF On("proto") THEN Reject({"idle"}) ELSE UNCHANGED <<s, stack, refs, refq, skip, cnt>>
       \/ /\ L.op = "close" /\ UNCHANGED <<s, stack, refs, refq, skip, cnt>>

\* (\E x \in {v} evaluates v once; a LET would evaluate it at every use)
Nothing == [ok |-> TRUE, v |-> <<>>, p |-> -1, sub |-> <<>>]
Step ==
    /\ L.op \notin NoCall /\ ~skip /\ ~Has(L, "panic")
    /\ LET top == TopOf(stack)
           idx == i + 1 - s
           none == top.lost \/ L.op = "sdirect"
       IN
       \E e0 \in {IF none THEN Nothing ELSE Call(O, top.f, L)} :
       \* (a call that fails at the end of the input may stop anywhere in it)
       \E any \in {L.op = "recs" /\ ~L.ok /\ L.p >= 0 /\ e0.p < 0} :
       \E odd \in {Quirky /\ ~none /\ (any \/ ~Fits(L, e0))} :
       \E ek \in {IF odd THEN Call(O, AsK1(top.f), L) ELSE e0} :
       \E k1 \in {IF L.op = "sdirect" THEN Quirky /\ ~top.lost /\ DirectIsK1(top.f, L)
                  ELSE odd /\ Fits(L, ek) /\ (any => ek.p = L.p)} :
       \* right, but K1 would show the same values and end somewhere else
       \E eq \in {IF Quirky /\ ~none /\ ~odd /\ L.p < 0 /\ L.op \in {"slice", "ty", "recs"}
                  THEN Call(O, AsK1(top.f), L) ELSE e0} :
       LET f == IF k1 THEN AsK1(top.f) ELSE top.f
           e == IF k1 THEN ek ELSE IF eq.p # e0.p /\ Fits(L, eq) THEN [e0 EXCEPT !.p = -1] ELSE e0
       IN
       \E w \in {Wrong(f, top.lost, top.src, L, e) \ (IF k1 THEN {"ref"} ELSE {})} :
       \E a \in {After(f, top.lost, L, e)} :
       LET bad == k1 /\ Wrong(top.f, top.lost, top.src, L, e0) # {}
           nxt == [f |-> [a.f EXCEPT !.q = 0], lost |-> a.lost, src |-> Told(top.src, L)]
           \* the two runs part ways at this call because of K1, or may do so after it
           part == On("ref") /\ O.ref = "cmp" /\ (k1 \/ (refq # 0 /\ idx >= refq))
           later == On("ref") /\ O.ref = "cmp" /\ Quirky /\ a.lost
       IN  IF w \ (IF part THEN {"ref"} ELSE {}) # {} THEN Reject(w)
           ELSE /\ stack' = IF L.op \in MetaOps /\ L.ok
                            THEN Append(SetTop(stack, nxt), SubFrame(f, top.lost, e))
                            ELSE SetTop(stack, nxt)
                /\ cnt' = [cnt EXCEPT !.calls = @ + 1, !.lost = IF top.lost THEN @ + 1 ELSE @,
                                      !.known = IF bad THEN @ + 1 ELSE @]
                /\ refq' = IF On("ref") /\ O.ref = "set" /\ refq = 0
                           THEN IF k1 THEN idx ELSE IF Quirky /\ a.lost THEN idx + 1 ELSE 0
                           ELSE refq
                /\ skip' = (part \/ later)
                /\ UNCHANGED <<s, refs>>

Next == /\ i < N
        /\ i' = i + 1
        /\ Open \/ Skip \/ Crash \/ Control \/ Step

Spec == Init /\ [][Next]_vars

\* printed when the whole trace has been consumed; the checker insists on it
Finished == i = N => PrintT("FINISHED " \o ToJson([lines |-> N] @@ cnt))
=============================================================================
