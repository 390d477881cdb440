------------------------------ MODULE PerfText ------------------------------
(* Debug and error text.                                                     *)
(*                                                                           *)
(* The harness reads {:?} and {:#?} text back into a tree:                   *)
(*   [k: "struct", n: name, f: <<key, tree>> pairs], [k: "tuple", n, f],     *)
(*   [k: "list", f], [k: "str", s: bytes between the quotes],                *)
(*   [k: "leaf", w: words, each [s: text, c: its bytes,                      *)
(*                               n: its value if it is a number, b: base]]   *)
(* and this module says which trees show a decoded value.                    *)
EXTENDS PerfAbi

------------------------------------------------------------ \* single leaves
Is(x, k) == x.k = k
\* v padded with zero bytes to 8
Wide(v) == [i \in 1..8 |-> IF i <= Len(v) THEN v[i] ELSE 0]
ShowsWord(v, x)  == Is(x, "leaf") /\ Len(x.w) = 1 /\ x.w[1].n = <<Wide(v)>>
ShowsHex(v, x)   == ShowsWord(v, x) /\ x.w[1].b = "x"
ShowsBool(v, x)  == Is(x, "leaf") /\ Len(x.w) = 1 /\ x.w[1].s = (IF v = 1 THEN "true" ELSE "false")

HexDigit == [d \in 0..15 |-> IF d < 10 THEN 48 + d ELSE 55 + d]    \* 0-9 A-F
HexCodes(v) == [i \in 1..(2 * Len(v)) |->
                  LET b == v[(i + 1) \div 2] IN HexDigit[IF i % 2 = 1 THEN b \div 16 ELSE b % 16]]
ShowsBuildId(v, x) == Is(x, "leaf") /\ Len(x.w) = 1 /\ x.w[1].c = HexCodes(v)

--------------------------------------------------------- \* quoted strings
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87 ELSE 99
Simple == [c \in {110, 114, 116, 48, 92, 34, 39} |->
             CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 48 -> 0 [] OTHER -> c]
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
RECURSIVE HexNum(_, _, _, _)
HexNum(c, i, j, acc) == IF i > j THEN acc ELSE HexNum(c, i + 1, j, acc * 16 + HexVal(c[i]))
Bad == <<-1>>
\* the bytes a string with escapes stands for; contains -1 if it is malformed
RECURSIVE Unescape(_, _, _)
Unescape(c, i, acc) ==
    IF i > Len(c) THEN acc
    ELSE IF c[i] # 92 THEN Unescape(c, i + 1, Append(acc, c[i]))
    ELSE IF i = Len(c) THEN Bad
    ELSE IF c[i + 1] \in DOMAIN Simple THEN Unescape(c, i + 2, Append(acc, Simple[c[i + 1]]))
    ELSE IF c[i + 1] = 120                                    \* \xNN
    THEN IF i + 3 > Len(c) \/ HexVal(c[i + 2]) = 99 \/ HexVal(c[i + 3]) = 99 THEN Bad
         ELSE Unescape(c, i + 4, Append(acc, 16 * HexVal(c[i + 2]) + HexVal(c[i + 3])))
    ELSE IF c[i + 1] = 117                                    \* \u{N...}
    THEN LET E == {j \in (i + 3)..Min2(Len(c), i + 9) : c[j] = 125} IN
         IF E = {} \/ c[i + 2] # 123 THEN Bad
         ELSE LET e == CHOOSE j \in E : \A k \in E : j <= k IN
              IF \E j \in (i + 3)..(e - 1) : HexVal(c[j]) = 99 THEN Bad
              ELSE Unescape(c, e + 1, acc \o Utf8(HexNum(c, i + 3, e - 1, 0)))
    ELSE Bad
ShowsName(v, x) == Is(x, "str") /\ Unescape(x.s, 1, <<>>) = v

---------------------------------------------------------- \* flags and codes
AllNames == FlagNames \o CodeNames
Named(t, s) == {i \in 1..Len(AllNames) : AllNames[i][1] = t \o "." \o s}
RECURSIVE BitsOfByte(_, _)
BitsOfByte(v, i) == IF v = 0 THEN {} ELSE (IF v % 2 = 1 THEN {i} ELSE {}) \cup BitsOfByte(v \div 2, i + 1)
BitSet(w) == UNION {BitsOfByte(w[i], 8 * (i - 1)) : i \in 1..Len(w)}

\* a set of flags: names and a rest in hex, separated by |
WordBits(t, w) == LET S == Named(t, w.s) IN
                  IF S # {} THEN AllNames[CHOOSE i \in S : TRUE][2]
                  ELSE IF w.n # <<>> THEN BitSet(w.n[1]) ELSE {-1}
ShowsFlags(t, v, x) == /\ Is(x, "tuple") /\ x.n = t /\ Len(x.f) = 1 /\ Is(x.f[1], "leaf")
                       /\ UNION {WordBits(t, x.f[1].w[i]) : i \in 1..Len(x.f[1].w)} = BitSet(v)
\* one of several codes: Type::NAME or Type(number)
ShowsCode(t, v, x) ==
    \/ Is(x, "leaf") /\ Len(x.w) = 1 /\ \E i \in 1..Len(AllNames) :
          /\ OfBits(AllNames[i][2], 8) = Wide(v)
          /\ \E s \in {x.w[1].s} : SubSeq(s, 1, Len(t) + 2) = t \o "::"
                 /\ t \o "." \o SubSeq(s, Len(t) + 3, Len(s)) = AllNames[i][1]
    \/ Is(x, "tuple") /\ x.n = t /\ Len(x.f) = 1 /\ ShowsWord(v, x.f[1])

---------------------------------------------------------------- \* the shapes
\* <<member of the decoded value, key in the text, kind, "opt" or "">>
FInt(k) == <<k, k, "int", "">>
FOpt(k) == <<k, k, "int", "opt">>
Tables ==
  [ Mmap |-> <<FInt("pid"), FInt("tid"), <<"addr", "addr", "hex", "">>, FInt("len"), FInt("pgoff"),
               <<"filename", "filename", "name", "">> >>,
    Mmap2 |-> <<FInt("pid"), FInt("tid"), <<"addr", "addr", "hex", "">>, FInt("len"), FInt("pgoff"),
                FInt("prot"), FInt("flags"), FOpt("maj"), FOpt("min"), FOpt("ino"),
                <<"gen", "ino_generation", "int", "opt">>, <<"build_id", "build_id", "buildid", "opt">>,
                <<"filename", "filename", "name", "">> >>,
    Lost |-> <<FInt("id"), FInt("lost")>>,
    Comm |-> <<FInt("pid"), FInt("tid"), <<"comm", "comm", "name", "">> >>,
    Exit |-> <<FInt("pid"), FInt("ppid"), FInt("tid"), FInt("ptid"), FInt("time")>>,
    Fork |-> <<FInt("pid"), FInt("ppid"), FInt("tid"), FInt("ptid"), FInt("time")>>,
    Throttle |-> <<FInt("time"), FInt("id"), FInt("stream_id")>>,
    Unthrottle |-> <<FInt("time"), FInt("id"), FInt("stream_id")>>,
    Read |-> <<FInt("pid"), FInt("tid"), <<"values", "values", "readvalue", "">> >>,
    Aux |-> <<FInt("aux_offset"), FInt("aux_size"), <<"flags", "flags", "auxflags", "">> >>,
    ITraceStart |-> <<FInt("pid"), FInt("tid")>>,
    LostSamples |-> <<FInt("lost")>>,
    SwitchCpuWide |-> <<FInt("pid"), FInt("tid")>>,
    Namespaces |-> <<FInt("pid"), FInt("tid"), <<"ns", "namespaces", "nslist", "">> >>,
    KSymbol |-> << <<"addr", "addr", "hex", "">>, FInt("len"), <<"ksym_type", "ksym_type", "ksymtype", "">>,
                   <<"flags", "flags", "ksymflags", "">>, <<"name", "name", "name", "">> >>,
    BpfEvent |-> << <<"ty", "ty", "bpftype", "">>, FInt("flags"), FInt("id"), <<"tag", "tag", "bytes", "">> >>,
    CGroup |-> <<FInt("id"), <<"path", "path", "name", "">> >>,
    TextPoke |-> << <<"addr", "addr", "hex", "">>, <<"old", "old_bytes", "bytes", "">>,
                    <<"new", "new_bytes", "bytes", "">> >>,
    AuxOutputHwId |-> <<FInt("hw_id")>>,
    Unknown |-> <<FInt("ty"), <<"data", "data", "bytes", "">> >>,
    Sample |-> <<FOpt("ip"), FOpt("pid"), FOpt("tid"), FOpt("time"), <<"addr", "addr", "hex", "opt">>,
                 FOpt("id"), FOpt("stream_id"), FOpt("cpu"), FOpt("period"),
                 <<"values", "values", "group", "opt">>, <<"callchain", "callchain", "words", "opt">>,
                 <<"raw", "raw", "bytes", "opt">>, FOpt("lbr_hw_index"), <<"lbr", "lbr", "branches", "opt">>,
                 <<"regs_user", "regs_user", "regs", "opt">>, <<"stack_user", "stack_user", "bytes", "opt">>,
                 FOpt("weight"), <<"data_src", "data_src", "datasrc", "opt">>,
                 <<"transaction", "transaction", "txn", "opt">>, <<"regs_intr", "regs_intr", "regs", "opt">>,
                 <<"phys_addr", "phys_addr", "hex", "opt">>, <<"aux", "aux", "bytes", "opt">>,
                 FOpt("cgroup"), FOpt("data_page_size"), FOpt("code_page_size")>>,
    \* parts
    ReadValue |-> <<FInt("value"), <<"te", "time_enabled", "int", "opt">>, <<"tr", "time_running", "int", "opt">>,
                    FOpt("id"), FOpt("lost")>>,
    ReadGroup |-> << <<"te", "time_enabled", "int", "opt">>, <<"tr", "time_running", "int", "opt">>,
                     <<"e", "entries", "entries", "">> >>,
    Entry |-> <<FInt("value"), FOpt("id"), FOpt("lost")>>,
    SampleId |-> <<FOpt("pid"), FOpt("tid"), FOpt("time"), FOpt("id"), FOpt("stream_id"), FOpt("cpu")>>,
    Meta |-> <<FInt("ty"), FInt("misc"), <<"sid", "sample_id", "sampleid", "">> >>,
    Ns |-> <<FInt("dev"), FInt("inode")>>,
    Regs |-> << <<"abi", "abi", "abi", "">>, FInt("mask"), <<"regs", "regs", "words", "">> >>,
    DataSource |-> << <<"op", "mem_op", "MemOp", "">>, <<"lvl", "mem_lvl", "MemLevel", "">>,
                      <<"snoop", "mem_snoop", "snoop", "">>, <<"lock", "mem_lock", "MemLock", "">>,
                      <<"dtlb", "mem_dtlb", "MemDtlb", "">>, <<"lvl_num", "mem_lvl_num", "lvlnum", "">>,
                      <<"remote", "mem_remote", "bool", "">>, <<"blk", "mem_blk", "MemBlk", "">>,
                      <<"hops", "mem_hops", "small", "">> >> ]

List(v, x, P(_, _)) == Is(x, "list") /\ Len(x.f) = Len(v) /\ \A i \in 1..Len(v) : P(v[i], x.f[i])
ShowsByte(v, x) == ShowsWord(<<v>>, x)
\* only the addresses of a branch entry are shown as such
ShowsBranch(v, x) == /\ Is(x, "tuple") /\ Len(x.f) = 1 /\ Is(x.f[1], "struct")
                     /\ \A k \in {"from", "to"} : \E j \in 1..Len(x.f[1].f) :
                           x.f[1].f[j][1] = k /\ ShowsWord(v[k], x.f[1].f[j][2])

RECURSIVE Shows(_, _, _), ShowsStruct(_, _, _)
Shows(kind, v, x) ==
    CASE kind = "int" -> ShowsWord(v, x)
      [] kind = "hex" -> ShowsHex(v, x)
      [] kind = "small" -> ShowsWord(OfNat(v, 4), x)
      [] kind = "bool" -> ShowsBool(v, x)
      [] kind = "name" -> ShowsName(v, x)
      [] kind = "buildid" -> ShowsBuildId(v, x)
      [] kind = "bytes" -> List(v, x, ShowsByte)
      [] kind = "words" -> List(v, x, ShowsWord)
      [] kind = "branches" -> List(v, x, ShowsBranch)
      [] kind = "branch" -> ShowsBranch(v, x)
      [] kind = "readvalue" -> ShowsStruct("ReadValue", v, x)
      [] kind = "group" -> ShowsStruct("ReadGroup", v, x)
      [] kind = "entries" -> Is(x, "list") /\ Len(x.f) = Len(v)
                             /\ \A i \in 1..Len(v) : ShowsStruct("Entry", v[i], x.f[i])
      [] kind = "nslist" -> Is(x, "list") /\ Len(x.f) = Len(v)
                            /\ \A i \in 1..Len(v) : ShowsStruct("Ns", v[i], x.f[i])
      [] kind = "ns" -> ShowsStruct("Ns", v, x)
      [] kind = "sampleid" -> ShowsStruct("SampleId", v, x)
      [] kind = "regs" -> ShowsStruct("Regs", v, x)
      [] kind = "datasrc" -> ShowsStruct("DataSource", v, x)
      [] kind = "txn" -> ShowsFlags("Txn", v.bits, x)
      [] kind = "auxflags" -> ShowsFlags("AuxFlags", v, x)
      [] kind = "ksymflags" -> ShowsFlags("KSymbolFlags", v, x)
      [] kind = "snoop" -> ShowsFlags("MemSnoop", v, x)
      [] kind \in {"MemOp", "MemLevel", "MemLock", "MemDtlb", "MemBlk"} -> ShowsFlags(kind, OfNat(v, 4), x)
      [] kind = "abi" -> ShowsCode("SampleRegsAbi", v, x)
      [] kind = "ksymtype" -> ShowsCode("KSymbolType", v, x)
      [] kind = "bpftype" -> ShowsCode("BpfEventType", v, x)
      [] kind = "lvlnum" -> ShowsCode("MemLevelNum", OfNat(v, 4), x)
ShowsStruct(t, v, x) ==
    LET tab == Tables[t]
        here == {i \in 1..Len(tab) : tab[i][4] = "" \/ v[tab[i][1]] # <<>>}
    IN  /\ Is(x, "struct")
        /\ Len(x.f) = Cardinality(here)
        /\ \A i \in here : \E j \in 1..Len(x.f) :
              /\ x.f[j][1] = tab[i][2]
              /\ Shows(tab[i][3], IF tab[i][4] = "" THEN v[tab[i][1]] ELSE v[tab[i][1]][1], x.f[j][2])

\* a record: itself, or the variant of the enum that holds it
ShowsRecord(v, x) ==
    IF v.t = "Switch" THEN Is(x, "leaf") /\ x.w[1].s = "Switch"
    ELSE \E y \in {IF Is(x, "tuple") /\ x.n = v.t /\ Len(x.f) = 1 THEN x.f[1] ELSE x} :
         /\ ShowsStruct(v.t, v, y)
         /\ (v.t = "SwitchCpuWide" => y.n = v.dir)
         /\ (v.t = "Unknown" => y.n = "Unknown")

\* a configuration: what the value shows of it
ShowsConf(v, x) ==
    /\ Is(x, "struct")
    /\ \E j \in 1..Len(x.f) : x.f[j][1] = "read_format" /\ ShowsFlags("ReadFormat", v.rf, x.f[j][2])
    /\ \E j \in 1..Len(x.f) : x.f[j][1] = "sample_type" /\ ShowsFlags("SampleFlags", v.sty, x.f[j][2])
    /\ \E j \in 1..Len(x.f) : x.f[j][1] = "regs_user" /\ ShowsHex(v.ru, x.f[j][2])
    /\ \E j \in 1..Len(x.f) : x.f[j][1] = "regs_intr" /\ ShowsHex(v.ri, x.f[j][2])

PartKind == [ReadValue |-> "readvalue", ReadGroup |-> "group", SampleId |-> "sampleid", RegsUser |-> "regs",
             RegsIntr |-> "regs", NsEntry |-> "ns", Branch |-> "branch", DataSource |-> "datasrc",
             Txn |-> "txn", Abi |-> "abi", BpfType |-> "bpftype", KsymType |-> "ksymtype",
             KsymFlags |-> "ksymflags"]
ShowsResult(l, x) ==
    CASE l.op \in {"rec", "rech"} -> ShowsRecord(l.v, x)
      [] l.op \in {"meta", "metah"} -> ShowsStruct("Meta", l.v, x)
      [] l.op = "conf" -> ShowsConf(l.v, x)
      [] l.op = "group" -> Shows("group", l.v.g, x)
      [] l.op = "ty" /\ l.t = "AuxFlags" -> ShowsFlags("AuxFlags", l.v.bits, x)
      [] l.op = "ty" /\ l.t \in DOMAIN PartKind -> Shows(PartKind[l.t], l.v, x)
      [] l.op = "ty" /\ l.t \in DOMAIN Tables -> ShowsRecord(l.v, x)
      [] OTHER -> TRUE

\* both {:?} and {:#?}
DebugRight(l, d) == \A i \in 1..Len(d) : ShowsResult(l, d[i])

------------------------------------------------------------------ \* errors
Category == [Eof |-> "unexpected EOF during parsing", InvalidRecord |-> "invalid record",
             UnsupportedData |-> "unsupported serialized data", UnsupportedConfig |-> "unsupported config"]
ErrTextRight(l) ==
    IF l.k = "External" THEN (l.c # <<>> => l.txt = l.c[1])
    ELSE IF l.k \notin DOMAIN Category THEN TRUE
    ELSE l.txt = Category[l.k] \o (IF l.c = <<>> THEN "" ELSE ": " \o l.c[1])
=============================================================================
