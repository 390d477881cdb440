#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Record framing keeps the stream in sync",
 "Parsing a record whose header declares size n >= 8, with n bytes available, advances the input by exactly n bytes, whether its body decodes, carries extra trailing bytes, or is rejected with an error; so every following record decodes exactly as it would alone. A header size below 8 is rejected as an invalid record and an incomplete record is rejected as end-of-input; neither ever yields a record.",
 ["inputs", "histories", "configurations"],
 "every stream of records (any types, sizes 0..65535, any bodies), every configuration, every position of a bad record in the stream, every source kind",
 "The tests parse a single record from a fresh slice and never look at where the parser ends up; no test parses two records in a row or continues after an error.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("the body is split off as its own sub-parser of header.size-8 bytes before anything in it is interpreted", "src/parse.rs parse_metadata_with_header_impl, split_at"),
  ("cursor over the split-off bytes", "src/parsebuf.rs ParseBufCursor::new")],
 ["Parser::parse::<Record>, Parser::parse_record, Parser::parse_metadata, then any later read"],
 [("position", "bytes of the source consumed so far", "src/parsebuf.rs TrackingParseBuf")])

prop("C02", "Every record type reaches its own handler",
 "A record is handed to exactly one handler, the one for its kernel type number (the record enum has the matching variant), and a type number this crate does not know is handed to the unknown handler together with its type and its whole body. The handler also receives the type and misc values of the header unchanged. A handler the user did not implement falls through to the catch-all exactly once, except that MMAP2 falls through to the MMAP handler with the same mapping.",
 ["inputs", "programs"],
 "all 2^32 type numbers x all misc values x all visitors (any subset of handlers implemented)",
 "The tests use five record types and one visitor that implements nothing; no test checks which handler is called, and some type numbers are never parsed.",
 ["src/parse.rs", "src/visitor.rs", "src/records/mod.rs"],
 [("type dispatch", "src/parse.rs parse_record_impl"), ("default handlers", "src/visitor.rs Visitor"), ("record enum construction", "src/records/mod.rs RecordVisitor")],
 ["Visitor methods called by Parser::parse_record", "Record variant returned by Parser::parse"])

prop("C03", "Non-sample records decode to the values the kernel wrote",
 "For every non-SAMPLE record type, each field of the decoded record equals the value at that field's place in the kernel's wire format, including the parts selected by misc bits (MMAP2 build-id versus device/inode, SWITCH_CPU_WIDE in versus out) and the fixed namespace slots. Names lose exactly their trailing NUL bytes and nothing else; text-poke bytes are split at the recorded old length and cut at the recorded new length. A body too short for its fixed fields or declared lengths, or a build-id length above 20, is rejected.",
 ["inputs", "configurations"],
 "every record type, every field value, every misc value, every name/byte-string content and length, every namespace count",
 "The tests decode one hand-written example of MMAP, COMM, EXIT, LOST and THROTTLE from an aligned slice; the other fifteen types, the misc-selected variants and all boundary lengths are untested.",
 ["src/records/mmap.rs", "src/records/mmap2.rs", "src/records/comm.rs", "src/records/exit.rs", "src/records/lost.rs", "src/records/throttle.rs", "src/records/read.rs", "src/records/aux_record.rs", "src/records/itrace_start.rs", "src/records/lost_samples.rs", "src/records/switch_cpu_wide.rs", "src/records/namespaces.rs", "src/records/ksymbol.rs", "src/records/bpf_event.rs", "src/records/cgroup.rs", "src/records/text_poke.rs", "src/records/aux_output_hw_id.rs", "src/util/cow.rs"],
 [("field-by-field Parse impls in wire order", "src/records/*.rs"), ("trailing NUL trimming", "src/parse.rs parse_rest_trim_nul"), ("owned/borrowed byte splitting", "src/util/cow.rs CowSliceExt")],
 ["public fields and accessors of each record type"])

prop("C04", "Sample fields decode exactly as configured",
 "For every event configuration, a SAMPLE record yields a value for exactly the fields that the configured sample_type, read_format, register masks and branch options say are present, and each value is the one at that field's place in the kernel's sample layout (the sample id falls back to the identifier field, the weight slot is present for either weight format, registers are absent when the ABI word says none, raw data is padded to 8 bytes, and the user stack is cut to its dynamic size). Inconsistent lengths are rejected, never decoded to something else.",
 ["configurations", "inputs"],
 "all 2^25 sample_type sets x read_format x register masks x branch options x field contents and element counts",
 "The tests use two sample_type sets with one payload each; presence and order of the fields depend on a 2^25-fold configuration space and on counts inside the data.",
 ["src/records/sample.rs", "src/records/read.rs", "src/config.rs", "src/flags.rs", "src/macros.rs"],
 [("ordered conditional field parsing", "src/records/sample.rs Parse for Sample"), ("optional-field storage", "src/macros.rs option_struct"), ("field padding", "src/parse.rs parse_padded")],
 ["Sample accessors"])

prop("C05", "The sample_id trailer is decoded and kept out of the body",
 "When sample_id_all is configured, every record other than MMAP and SAMPLE has the configured identification fields at its very end: the metadata reports exactly those (the id falling back to the identifier), and none of those bytes ever reach the record's own fields. When it is not configured, and always for MMAP and SAMPLE, the metadata is empty and the whole body belongs to the record; a body too short to hold the trailer is rejected as an invalid record. The advertised trailer length equals what is taken, and identification extracted from a sample equals that sample's own fields.",
 ["configurations", "inputs"],
 "all sample_type sets x sample_id_all on/off x all record types x all body lengths",
 "No test ever sets sample_id_all together with a decodable record.",
 ["src/records/mod.rs", "src/parse.rs", "src/visitor.rs"],
 [("trailer split off by computed length", "src/parse.rs parse_metadata_with_header_impl"), ("trailer length", "src/records/mod.rs SampleId::estimate_len"), ("trailer parsing", "src/records/mod.rs Parse for SampleId")],
 ["RecordMetadata::sample_id", "SampleId accessors, estimate_len, from_sample", "the record's own fields"])

prop("C06", "The result does not depend on how the input is delivered",
 "The same bytes under the same configuration give the same records, values and errors whether they come from one slice at any memory alignment, from a buffered reader with any buffer size and any pattern of short reads, or from a custom source that delivers them in chunks split at arbitrary places, borrowed or temporary, with or without a length hint.",
 ["inputs", "schedules", "configurations"],
 "every byte stream x every partition into chunks x every borrowed/temporary mix x every alignment x every reader buffer size and short-read schedule",
 "All decoding tests use one contiguous slice; the multi-chunk path is only constructed, never read back, and buffered readers are never used.",
 ["src/parse.rs", "src/parsebuf.rs", "src/util/cow.rs"],
 [("fast and slow paths for reading across chunks", "src/parse.rs parse_array/parse_bytes/parse_slice"), ("chunk cursor", "src/parsebuf.rs ParseBufCursor"), ("buffered reader source", "src/parsebuf.rs ParseBuf for BufReader")],
 ["results of any parse call"],
 [("chunks, offset", "remaining pieces of a record spread over chunks", "src/parsebuf.rs ParseBufCursor")])

prop("C07", "Both byte orders decode to the same values",
 "Data written in a given byte order and parsed with the matching endianness choice (native, little, big, or chosen at run time) yields the same values as the same data in the other order parsed with the other choice, in every field of every record including headers, counts, array elements, trailers and the event attribute structure; byte strings are never reordered. Switching an existing configuration to another byte order changes nothing else about it.",
 ["inputs", "configurations"],
 "every record and attribute structure x every endianness type x aligned and unaligned, contiguous and split input",
 "Every decoding test uses the little-endian type on a little-endian host, so big-endian decoding and the choice between reinterpretation and conversion are never exercised.",
 ["src/endian.rs", "src/parse.rs", "src/config.rs"],
 [("conversion functions", "src/endian.rs"), ("native reinterpretation guarded by is_native", "src/parse.rs parse_slice_direct")],
 ["decoded values under Native/Little/Big/Dynamic and custom Endian implementations"])

prop("C08", "Every input gets an answer: no panic, abort or hang",
 "For every byte input, however malformed or adversarial, every configuration and every source that keeps its contract, each parse call returns a value or an error: it never panics, aborts the process or fails to terminate. This includes the accessors, iterators, conversions and debug output of whatever was decoded.",
 ["inputs", "configurations", "histories", "schedules"],
 "arbitrary bytes, counts and lengths up to 2^64-1, arbitrary configurations, any sequence of calls on one parser including after errors",
 "The regression tests replay seven inputs once found by a fuzzer.",
 ["src/parse.rs", "src/parsebuf.rs", "src/records/", "src/impls/perf_event_attr.rs"],
 [("checked arithmetic on lengths", "src/parse.rs, src/records/read.rs"), ("end-of-input errors from every source", "src/parsebuf.rs")],
 ["outcome of each call (value / error / panic / abort / timeout)"])

prop("C09", "Memory use is bounded by the input actually supplied",
 "While parsing, the memory allocated is bounded by a small constant (tens of kilobytes) plus a small multiple of the number of input bytes the source has really supplied (and of the pieces it supplied them in), whatever element counts, sizes and lengths the data claims and whether or not the source knows its remaining length. Dropping the parser, its source and the decoded values releases everything they held.",
 ["inputs", "configurations", "schedules"],
 "every claimed count or length up to 2^64-1 in every field that carries one, on sources with and without a length hint",
 "Three regression inputs are run under an allocator that only rejects single requests of 4 MiB or more.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("capacity bound", "src/parse.rs safe_capacity_bound"), ("incremental reading when the length is not known to be available", "src/parse.rs parse_bytes_slow, src/parsebuf.rs ParseBufCursor::new")],
 ["a counting allocator around each parse call"])

prop("C10", "A record is decoded from its own bytes only",
 "What a record decodes to is a function of its own header-delimited bytes and the configuration: it never includes bytes that follow or precede the record, and never invents missing ones. A count, size or fixed field that needs more bytes than the record still has makes that record fail with an error, even when the bytes after the record would satisfy it, and a record cut short at any point never decodes to different values than the complete one.",
 ["inputs", "configurations"],
 "every record type and configuration, every inner count/length value, every truncation point, every following byte content",
 "Tests give each parser a buffer that ends exactly with the record and never vary lengths against the surrounding data.",
 ["src/parse.rs", "src/parsebuf.rs", "src/records/"],
 [("sub-parser limited to the frame", "src/parse.rs split_at"), ("length checks against what remains", "src/parsebuf.rs ParseBufCursor")],
 ["decoded record or error with adversarial neighbours"])

prop("C11", "Counter reads and counter groups are consistent views of the data",
 "A counter read or group yields exactly the values written for the configured read_format: count, times, and per-counter value, id and lost count; fields not configured are reported absent. Lookup by index and by id, length, and every way of iterating (forward, backward, skipping, mixed, last) agree with each other; converting between a single read and a one-entry group loses nothing, and other group sizes refuse conversion. A group format parsed as a single read, the reverse, or any read_format flag the crate does not know is rejected as unsupported.",
 ["inputs", "configurations", "histories"],
 "all read_format values x all group sizes x all values (duplicate ids included) x all sequences of iterator operations",
 "One test checks the length of one two-entry group.",
 ["src/records/read.rs", "src/flags.rs"],
 [("element width from read_format", "src/flags.rs element_len"), ("entry decoding and iteration", "src/records/read.rs GroupEntry, GroupIter"), ("conversions", "src/records/read.rs From/TryFrom")],
 ["ReadValue, ReadGroup, GroupEntry, GroupIter public API"],
 [("iterator position", "entries left at both ends", "src/records/read.rs GroupIter")])

prop("C12", "Event attribute structures decode by their declared size",
 "Parsing an event attribute structure of any published size reads exactly as many bytes as the structure declares, yields every member that size includes at its wire value, and leaves members beyond that size at zero. Sizes that were never published and are smaller than the newest are rejected as invalid; larger sizes are accepted only if every extra byte is zero and are otherwise rejected as unsupported data.",
 ["inputs"],
 "every declared size, every member value, every content of the bytes beyond the known members, every following byte content",
 "There is no test of attribute structure parsing at all.",
 ["src/impls/perf_event_attr.rs"],
 [("size-versioned member parsing", "src/impls/perf_event_attr.rs"), ("zero check of unknown tail", "src/impls/perf_event_attr.rs")],
 ["Parser::parse::<perf_event_attr> and the parser's position after it"])

prop("C13", "The parse configuration mirrors the event attributes",
 "A configuration built from event attributes reports the same known sample_type and read_format flags and the same register masks, and makes decoding follow the attribute's sample_id_all and hardware-index options; no option changes or hides another. Flags unknown to the crate never turn known ones on or off, and an unknown read_format flag makes counter values be rejected rather than misread. One record's misc flags never influence how another record is decoded.",
 ["configurations", "histories"],
 "all 2^64 sample_type x 2^64 read_format x register masks x branch_sample_type x attribute flag words, and all sequences of records",
 "Tests set sample_type and read_format through test-only setters on otherwise default configurations, one or two values each.",
 ["src/config.rs", "src/flags.rs", "src/parse.rs"],
 [("packed configuration word", "src/config.rs ConfigFlags"), ("per-record copy of the configuration", "src/parse.rs parse_record_impl")],
 ["ParseConfig accessors", "which fields decoding expects"],
 [("packed flags", "read_format, sample_type, sample_id_all, hw_index and misc in one word", "src/config.rs ConfigFlags")])

prop("C14", "Source failures are reported, never swallowed",
 "If the source fails with an error at any point before the bytes a call needs have been delivered, that call returns an error of the matching kind (end-of-input only when the source reported end of input, otherwise the forwarded external error with its original cause) and never a value built from the partial data. Failures after the last needed byte do not affect the call, and bytes delivered before the failure decode normally.",
 ["fault_sequences", "inputs", "schedules"],
 "every failure position in every stream x every I/O error kind x every delivery schedule x every call",
 "No test has a source that fails.",
 ["src/parse.rs", "src/parsebuf.rs", "src/error.rs"],
 [("error propagation from every chunk request", "src/parse.rs, src/parsebuf.rs"), ("end-of-input distinguished from other errors when reading the rest", "src/parse.rs parse_rest"), ("I/O error conversion", "src/error.rs From<io::Error>")],
 ["ParseError::kind and source of the returned error"])

prop("C15", "Decoded data borrows from the input when it can",
 "When a record lies in one piece of borrowed input, its byte strings (and, for native byte order and aligned input, its element arrays) are views of the input at exactly the right place rather than copies; data that came from a temporary buffer is always an independent copy that stays unchanged whatever the source does afterwards.",
 ["inputs", "schedules"],
 "every record with variable-length data x every chunk layout, kind and alignment x every later use of the source",
 "No test looks at whether data is borrowed, and none keeps a record while reading on.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("direct slices of external chunks", "src/parse.rs parse_bytes_direct, parse_slice_direct"), ("single-chunk fast path", "src/parse.rs parse_record_with_header, src/parsebuf.rs as_slice"), ("copying of temporary chunks", "src/parsebuf.rs ParseBufChunk::to_cow")],
 ["address of returned slices relative to the input buffer", "contents re-read after further parsing"])

prop("C16", "The parser behaves as one cursor over the input",
 "Any sequence of successful primitive reads (integers, arrays, byte strings, repeated elements, element slices, conditional reads, the rest with or without trailing NULs) returns consecutive pieces of the input with nothing skipped, repeated or reordered: each read takes exactly the bytes it asked for, succeeds if and only if they are available, and a zero-length read always succeeds and takes nothing. Reading the rest takes everything that is left, possibly nothing; a cloned parser continues independently from the same place.",
 ["histories", "inputs", "schedules"],
 "all sequences of primitive calls with all lengths, on all contents, chunk layouts, alignments and byte orders",
 "One test reads the rest of a five-byte slice; no test mixes calls.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("read primitives", "src/parse.rs Parser"), ("advance on each source", "src/parsebuf.rs")],
 ["return values of the Parser methods and the source's position"],
 [("position", "bytes consumed", "src/parsebuf.rs")])

prop("C17", "Custom record parsing sees what built-in parsing sees",
 "Reading only the record frame gives a sub-parser over exactly the record's own body (trailer excluded) with the same metadata as built-in parsing, so decoding any record type from it gives the same value as parsing the record directly, misc-dependent variants included, and the outer parser continues at the next record however much of the sub-parser was used. Supplying an already parsed header gives the same outcome as letting the parser read it.",
 ["programs", "inputs", "histories"],
 "all record types, misc values and configurations x all ways to consume the sub-parser x header read by the parser or supplied by the caller",
 "One doc example reads a custom sample from a frame; nothing compares the two paths.",
 ["src/parse.rs", "src/records/mod.rs", "src/config.rs"],
 [("frame parsing shared by both paths", "src/parse.rs parse_metadata_with_header_impl"), ("per-record misc in the configuration", "src/config.rs with_misc")],
 ["Parser::parse_metadata, parse_metadata_with_header, parse_record_with_header, Record::parse_with_header"])

prop("C18", "Packed words are unpacked without loss or overlap",
 "Each accessor of a packed value (branch entries, memory data source, transaction word, aux flags and format, BPF/ksymbol/ABI codes) reports exactly the bits the kernel assigns to it, for every bit pattern including ones with no name, and independently of all other bits.",
 ["inputs"],
 "all 2^64 values of each packed word",
 "No test decodes a branch entry, data source, transaction word or aux flags.",
 ["src/records/sample.rs", "src/records/aux_record.rs", "src/records/bpf_event.rs", "src/records/ksymbol.rs"],
 [("bitfield accessors and retained flag sets", "src/records/sample.rs BranchEntry, DataSource, MemSnoop, Txn"), ("aux format extraction", "src/records/aux_record.rs pmu_format_type")],
 ["accessors of BranchEntry, DataSource, Txn, AuxFlags and the code newtypes"])

prop("C19", "Copies and conversions preserve the record",
 "Cloning any decoded record, sample, metadata or configuration gives a value indistinguishable from the original, and converting to owned data, to the enum, from MMAP2 to MMAP, or into a sample identification keeps every shared field unchanged. Owned copies do not depend on the input buffer or the original.",
 ["inputs", "programs", "configurations"],
 "every record of every type (every presence pattern of optional fields), borrowed or owned, under any sequence of clone/convert/drop",
 "No test clones or converts a decoded record.",
 ["src/macros.rs", "src/records/"],
 [("optional-field clone and drop", "src/macros.rs option_struct"), ("into_owned/to_owned/into_mmap", "src/records/*.rs")],
 ["projection of the copy compared with the original's wire data"])

prop("C20", "Debug and error text shows the real data",
 "Debug output of a record lists each present field with its decoded value and no absent optional field; names are shown with every byte recoverable, build ids as two uppercase hex digits per byte, most significant digit first, and addresses in hex. An error's text is its category, followed, if there is a cause, by a colon, a space and the cause; an external error is described by its cause alone.",
 ["inputs", "configurations"],
 "every record and configuration; every byte string including invalid UTF-8; every error kind and cause",
 "No test formats a record or an error.",
 ["src/util/fmt.rs", "src/error.rs", "src/macros.rs", "src/records/"],
 [("byte string, hex string and address formatting", "src/util/fmt.rs"), ("error display", "src/error.rs"), ("optional-field debug", "src/macros.rs")],
 ["format!(\"{:?}\") of records, format!(\"{}\") of errors"])

prop("C21", "The parser keeps its side of the source contract",
 "Against any custom source, the parser advances only past bytes the source has most recently offered, never past a chunk it has not seen, and when a call succeeds the source has been advanced by exactly the bytes that call consumed, so another reader can take over at that point. It asks for data only when it still needs some (between calls, on creation and when dropped it neither asks nor advances) and stops asking once the source reports an error.",
 ["schedules", "histories", "inputs"],
 "all chunk layouts x all call sequences, observing every request and advance the source receives",
 "The only test source with several chunks is never read through a parser.",
 ["src/parsebuf.rs", "src/parse.rs"],
 [("chunk/advance discipline in every read loop", "src/parse.rs, src/parsebuf.rs")],
 ["sequence of chunk()/advance() calls received by a custom ParseBuf"],
 [("offered", "bytes of the last chunk not yet advanced past", "ParseBuf::chunk / advance")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
