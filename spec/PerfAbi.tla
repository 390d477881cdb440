------------------------------ MODULE PerfAbi ------------------------------
(* The perf_event_open wire format as data: record type numbers, flag bits,  *)
(* and the field layout of every record type, in the order the kernel        *)
(* writes them.  Source: perf_event_open(2) and include/uapi/linux/          *)
(* perf_event.h.                                                             *)
EXTENDS PerfBytes, TLC

------------------------------------------------------------------ \* records
RecName ==  \* type number -> record name
    ( 1 :> "Mmap") @@ ( 2 :> "Lost") @@ ( 3 :> "Comm") @@ ( 4 :> "Exit") @@
    ( 5 :> "Throttle") @@ ( 6 :> "Unthrottle") @@ ( 7 :> "Fork") @@ ( 8 :> "Read") @@
    ( 9 :> "Sample") @@ (10 :> "Mmap2") @@ (11 :> "Aux") @@ (12 :> "ITraceStart") @@
    (13 :> "LostSamples") @@ (14 :> "Switch") @@ (15 :> "SwitchCpuWide") @@
    (16 :> "Namespaces") @@ (17 :> "KSymbol") @@ (18 :> "BpfEvent") @@ (19 :> "CGroup") @@
    (20 :> "TextPoke") @@ (21 :> "AuxOutputHwId")
KnownTypes == DOMAIN RecName

TypeName(ty) == LET n == ToNat(ty) IN IF n \in KnownTypes THEN RecName[n] ELSE "Unknown"

MiscSwitchOut == 13           \* bit of misc
MiscBuildId   == 14
BuildIdMax    == 20

\* Layouts: sequences of <<field name, kind>>.
Layout ==
  [ Mmap    |-> << <<"pid","u32">>, <<"tid","u32">>, <<"addr","u64">>, <<"len","u64">>,
                   <<"pgoff","u64">>, <<"filename","name">> >>,
    Lost    |-> << <<"id","u64">>, <<"lost","u64">> >>,
    Comm    |-> << <<"pid","u32">>, <<"tid","u32">>, <<"comm","name">> >>,
    Exit    |-> << <<"pid","u32">>, <<"ppid","u32">>, <<"tid","u32">>, <<"ptid","u32">>,
                   <<"time","u64">> >>,
    Fork    |-> << <<"pid","u32">>, <<"ppid","u32">>, <<"tid","u32">>, <<"ptid","u32">>,
                   <<"time","u64">> >>,
    Throttle   |-> << <<"time","u64">>, <<"id","u64">>, <<"stream_id","u64">> >>,
    Unthrottle |-> << <<"time","u64">>, <<"id","u64">>, <<"stream_id","u64">> >>,
    Read    |-> << <<"pid","u32">>, <<"tid","u32">>, <<"values","readvalue">> >>,
    Mmap2   |-> << <<"pid","u32">>, <<"tid","u32">>, <<"addr","u64">>, <<"len","u64">>,
                   <<"pgoff","u64">>, <<"detail","mmapdetail">>, <<"prot","u32">>,
                   <<"flags","u32">>, <<"filename","name">> >>,
    Aux     |-> << <<"aux_offset","u64">>, <<"aux_size","u64">>, <<"flags","auxflags">> >>,
    ITraceStart |-> << <<"pid","u32">>, <<"tid","u32">> >>,
    LostSamples |-> << <<"lost","u64">> >>,
    Switch      |-> << >>,
    SwitchCpuWide |-> << <<"pid","u32">>, <<"tid","u32">> >>,
    Namespaces  |-> << <<"pid","u32">>, <<"tid","u32">>, <<"ns","nslist">> >>,
    KSymbol |-> << <<"addr","u64">>, <<"len","u32">>, <<"ksym_type","u16">>,
                   <<"flags","u16">>, <<"name","name">> >>,
    BpfEvent |-> << <<"ty","u16">>, <<"flags","u16">>, <<"id","u32">>, <<"tag","tag">> >>,
    CGroup  |-> << <<"id","u64">>, <<"path","name">> >>,
    TextPoke |-> << <<"addr","u64">>, <<"poke","poke">> >>,
    AuxOutputHwId |-> << <<"hw_id","u64">> >>,
    Unknown |-> << <<"data","tail">> >> ]

NsIndex == [network |-> 0, uts |-> 1, ipc |-> 2, pid |-> 3, user |-> 4, cgroup |-> 6]

------------------------------------------------------------- \* sample_type
S_IP == 0            S_TID == 1           S_TIME == 2          S_ADDR == 3
S_READ == 4          S_CALLCHAIN == 5     S_ID == 6            S_CPU == 7
S_PERIOD == 8        S_STREAM_ID == 9     S_RAW == 10          S_BRANCH_STACK == 11
S_REGS_USER == 12    S_STACK_USER == 13   S_WEIGHT == 14       S_DATA_SRC == 15
S_IDENTIFIER == 16   S_TRANSACTION == 17  S_REGS_INTR == 18    S_PHYS_ADDR == 19
S_AUX == 20          S_CGROUP == 21       S_DATA_PAGE_SIZE == 22
S_CODE_PAGE_SIZE == 23                    S_WEIGHT_STRUCT == 24
KnownSample == 0..24

\* Order in which the kernel writes the fields of a sample:
\* <<field, sample_type bits that ask for it, kind>>
SampleLayout ==
  << <<"identifier",     {S_IDENTIFIER},             "u64">>,
     <<"ip",             {S_IP},                     "u64">>,
     <<"pid",            {S_TID},                    "u32">>,
     <<"tid",            {S_TID},                    "u32">>,
     <<"time",           {S_TIME},                   "u64">>,
     <<"addr",           {S_ADDR},                   "u64">>,
     <<"id",             {S_ID},                     "u64">>,
     <<"stream_id",      {S_STREAM_ID},              "u64">>,
     <<"cpu",            {S_CPU},                    "cpu">>,
     <<"period",         {S_PERIOD},                 "u64">>,
     <<"values",         {S_READ},                   "read">>,
     <<"callchain",      {S_CALLCHAIN},              "u64list">>,
     <<"raw",            {S_RAW},                    "raw">>,
     <<"lbr",            {S_BRANCH_STACK},           "branches">>,
     <<"regs_user",      {S_REGS_USER},              "regs_user">>,
     <<"stack_user",     {S_STACK_USER},             "stack">>,
     <<"weight",         {S_WEIGHT, S_WEIGHT_STRUCT},"u64">>,
     <<"data_src",       {S_DATA_SRC},               "data_src">>,
     <<"transaction",    {S_TRANSACTION},            "txn">>,
     <<"regs_intr",      {S_REGS_INTR},              "regs_intr">>,
     <<"phys_addr",      {S_PHYS_ADDR},              "u64">>,
     <<"cgroup",         {S_CGROUP},                 "u64">>,
     <<"data_page_size", {S_DATA_PAGE_SIZE},         "u64">>,
     <<"code_page_size", {S_CODE_PAGE_SIZE},         "u64">>,
     <<"aux",            {S_AUX},                    "bytes64">> >>

\* The sample_id trailer of non-sample records.
SampleIdLayout ==
  << <<"pid",        {S_TID},        "u32">>,
     <<"tid",        {S_TID},        "u32">>,
     <<"time",       {S_TIME},       "u64">>,
     <<"id",         {S_ID},         "u64">>,
     <<"stream_id",  {S_STREAM_ID},  "u64">>,
     <<"cpu",        {S_CPU},        "cpu">>,
     <<"identifier", {S_IDENTIFIER}, "u64">> >>
SampleIdBits == {S_TID, S_TIME, S_ID, S_STREAM_ID, S_CPU, S_IDENTIFIER}
NoSampleId == {"Mmap", "Sample"}     \* documented by RecordMetadata::sample_id

------------------------------------------------------------- \* read_format
R_TIME_ENABLED == 0   R_TIME_RUNNING == 1   R_ID == 2   R_GROUP == 3   R_LOST == 4
KnownRead == 0..4

----------------------------------------------------------- \* configuration
A_SAMPLE_ID_ALL == 18    \* bit of the attribute flag word
B_HW_INDEX == 17         \* bit of branch_sample_type

\* What the parser needs to know of an event's attributes.
ConfOf(a) == [sty |-> a.sty, rf |-> a.rf, sia |-> HasBit(a.fl, A_SAMPLE_ID_ALL),
              hwi |-> HasBit(a.bst, B_HW_INDEX), ru |-> a.ru, ri |-> a.ri]

Wants(conf, bits) == \E i \in bits : HasBit(conf.sty, i)
UnknownRead(conf) == \E i \in 5..63 : HasBit(conf.rf, i)

---------------------------------------------------------- \* perf_event_attr
AttrSizes == {64, 72, 80, 96, 104, 112, 120, 128, 136}
AttrMax == 136
\* <<member, kind, smallest size that includes it>>, in wire order after type and size
AttrLayout ==
  << <<"config","u64",64>>, <<"sample_period","u64",64>>, <<"sample_type","u64",64>>,
     <<"read_format","u64",64>>, <<"flags","u64",64>>, <<"wakeup","u32",64>>,
     <<"bp_type","u32",64>>, <<"config1","u64",64>>, <<"config2","u64",72>>,
     <<"branch_sample_type","u64",80>>, <<"sample_regs_user","u64",96>>,
     <<"sample_stack_user","u32",96>>, <<"clockid","u32",96>>,
     <<"sample_regs_intr","u64",104>>, <<"aux_watermark","u32",112>>,
     <<"sample_max_stack","u16",112>>, <<"_reserved_2","u16",112>>,
     <<"aux_sample_size","u32",120>>, <<"_reserved_3","u32",120>>,
     <<"sig_data","u64",128>>, <<"config3","u64",136>> >>
KindSize == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8]

-------------------------------------------------------- \* bits of packed words
BranchBits == [mispred |-> <<0,1>>, predicted |-> <<1,1>>, in_tx |-> <<2,1>>,
               abort |-> <<3,1>>, cycles |-> <<4,16>>, ty |-> <<20,4>>]
DataSrcBits == [op |-> <<0,5>>, lvl |-> <<5,14>>, lock |-> <<24,2>>, dtlb |-> <<26,7>>,
                lvl_num |-> <<33,4>>, remote |-> <<37,1>>, blk |-> <<40,3>>, hops |-> <<43,3>>]
DataSrcSnoop == (19..23) \cup {38, 39}       \* snoop and snoopx, kept in place

----------------------------------------------- \* named constants
\* name and set bits of every public constant of the interface
FlagNames ==
  << <<"SampleFlags.IP", {0}>>, <<"SampleFlags.TID", {1}>>, <<"SampleFlags.TIME", {2}>>,
     <<"SampleFlags.ADDR", {3}>>, <<"SampleFlags.READ", {4}>>, <<"SampleFlags.CALLCHAIN", {5}>>,
     <<"SampleFlags.ID", {6}>>, <<"SampleFlags.CPU", {7}>>, <<"SampleFlags.PERIOD", {8}>>,
     <<"SampleFlags.STREAM_ID", {9}>>, <<"SampleFlags.RAW", {10}>>, <<"SampleFlags.BRANCH_STACK", {11}>>,
     <<"SampleFlags.REGS_USER", {12}>>, <<"SampleFlags.STACK_USER", {13}>>, <<"SampleFlags.WEIGHT", {14}>>,
     <<"SampleFlags.DATA_SRC", {15}>>, <<"SampleFlags.IDENTIFIER", {16}>>, <<"SampleFlags.TRANSACTION", {17}>>,
     <<"SampleFlags.REGS_INTR", {18}>>, <<"SampleFlags.PHYS_ADDR", {19}>>, <<"SampleFlags.AUX", {20}>>,
     <<"SampleFlags.CGROUP", {21}>>, <<"SampleFlags.DATA_PAGE_SIZE", {22}>>, <<"SampleFlags.CODE_PAGE_SIZE", {23}>>,
     <<"SampleFlags.WEIGHT_STRUCT", {24}>>, <<"ReadFormat.TOTAL_TIME_ENABLED", {0}>>, <<"ReadFormat.TOTAL_TIME_RUNNING", {1}>>,
     <<"ReadFormat.ID", {2}>>, <<"ReadFormat.GROUP", {3}>>, <<"ReadFormat.LOST", {4}>> >>
CodeNames ==
  << <<"AuxFlags.TRUNCATED", {0}>>, <<"AuxFlags.OVERWRITE", {1}>>, <<"AuxFlags.PARTIAL", {2}>>,
     <<"AuxFlags.COLLISION", {3}>>, <<"AuxFlags.PMU_FORMAT_MASK", 8..15>>, <<"KSymbolFlags.UNREGISTER", {0}>>,
     <<"MemOp.NA", {0}>>, <<"MemOp.LOAD", {1}>>, <<"MemOp.STORE", {2}>>,
     <<"MemOp.PFETCH", {3}>>, <<"MemOp.EXEC", {4}>>, <<"MemLevel.NA", {0}>>,
     <<"MemLevel.HIT", {1}>>, <<"MemLevel.MISS", {2}>>, <<"MemLevel.L1", {3}>>,
     <<"MemLevel.LFB", {4}>>, <<"MemLevel.L2", {5}>>, <<"MemLevel.L3", {6}>>,
     <<"MemLevel.LOC_RAM", {7}>>, <<"MemLevel.REM_RAM1", {8}>>, <<"MemLevel.REM_RAM2", {9}>>,
     <<"MemLevel.REM_CCE1", {10}>>, <<"MemLevel.REM_CCE2", {11}>>, <<"MemLevel.IO", {12}>>,
     <<"MemLevel.UNC", {13}>>, <<"MemLock.NA", {0}>>, <<"MemLock.LOCKED", {1}>>,
     <<"MemDtlb.NA", {0}>>, <<"MemDtlb.HIT", {1}>>, <<"MemDtlb.MISS", {2}>>,
     <<"MemDtlb.L1", {3}>>, <<"MemDtlb.L2", {4}>>, <<"MemDtlb.WK", {5}>>,
     <<"MemDtlb.OS", {6}>>, <<"MemSnoopX.FWD", {0}>>, <<"MemSnoopX.PEER", {1}>>,
     <<"MemBlk.NA", {0}>>, <<"MemBlk.DATA", {1}>>, <<"MemBlk.ADDR", {2}>>,
     <<"MemSnoop.NA", {19}>>, <<"MemSnoop.NONE", {20}>>, <<"MemSnoop.HIT", {21}>>,
     <<"MemSnoop.MISS", {22}>>, <<"MemSnoop.HITM", {23}>>, <<"MemSnoop.FWD", {38}>>,
     <<"MemSnoop.PEER", {39}>>, <<"Txn.ELISION", {0}>>, <<"Txn.TRANSACTION", {1}>>,
     <<"Txn.SYNC", {2}>>, <<"Txn.ASYNC", {3}>>, <<"Txn.RETRY", {4}>>,
     <<"Txn.CONFLICT", {5}>>, <<"Txn.CAPACITY_WRITE", {6}>>, <<"Txn.CAPACITY_READ", {7}>>,
     <<"Txn.ABORT_MASK", 32..63>>, <<"AuxPmuFormatType.CORESIGHT", {}>>, <<"AuxPmuFormatType.CORESIGHT_RAW", {0}>>,
     <<"BpfEventType.UNKNOWN", {}>>, <<"BpfEventType.PROG_LOAD", {0}>>, <<"BpfEventType.PROG_UNLOAD", {1}>>,
     <<"KSymbolType.UNKNOWN", {}>>, <<"KSymbolType.BPF", {0}>>, <<"KSymbolType.OOL", {1}>>,
     <<"SampleRegsAbi.NONE", {}>>, <<"SampleRegsAbi.ABI_32", {0}>>, <<"SampleRegsAbi.ABI_64", {1}>>,
     <<"BranchType.UNKNOWN", {}>>, <<"BranchType.COND", {0}>>, <<"BranchType.UNCOND", {1}>>,
     <<"BranchType.IND", {0, 1}>>, <<"BranchType.CALL", {2}>>, <<"BranchType.IND_CALL", {0, 2}>>,
     <<"BranchType.RET", {1, 2}>>, <<"BranchType.SYSCALL", {0, 1, 2}>>, <<"BranchType.COND_CALL", {0, 3}>>,
     <<"BranchType.COND_RET", {1, 3}>>, <<"MemLevelNum.L1", {0}>>, <<"MemLevelNum.L2", {1}>>,
     <<"MemLevelNum.L3", {0, 1}>>, <<"MemLevelNum.L4", {2}>>, <<"MemLevelNum.ANY_CACHE", {0, 1, 3}>>,
     <<"MemLevelNum.LFB", {2, 3}>>, <<"MemLevelNum.RAM", {0, 2, 3}>>, <<"MemLevelNum.PMEM", {1, 2, 3}>>,
     <<"MemLevelNum.NA", {0, 1, 2, 3}>> >>
\* what the constructors make of every pattern of bits
Low(v, n) == {k \in 0..n - 1 : (v \div Pow2[k]) % 2 = 1}
MadeTable ==
    [i \in 1..128 |-> <<"MemSnoop", OfBits({19 + k : k \in Low((i - 1) \div 4, 5)} \cup
                                           {38 + k : k \in Low((i - 1) % 4, 2)}, 8)>>]
    \o [i \in 1..768 |-> <<CASE i % 3 = 1 -> "BranchType" [] i % 3 = 2 -> "MemLevelNum" [] OTHER -> "AuxPmuFormatType",
                           OfNat((i - 1) \div 3, 8)>>]
    \o [i \in 1..32 |-> <<IF i % 2 = 1 THEN "BpfEventType" ELSE "KSymbolType", OfBits({(i - 1) \div 2}, 8)>>]
    \o [i \in 1..64 |-> <<"SampleRegsAbi", OfBits({i - 1}, 8)>>]
ConstTable(t) == IF t = "made" THEN MadeTable ELSE LET T == IF t = "flags" THEN FlagNames ELSE CodeNames IN
                 [i \in 1..Len(T) |-> <<T[i][1], OfBits(T[i][2], 8)>>]
=============================================================================
