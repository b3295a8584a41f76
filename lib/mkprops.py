import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":t.strip(),"meaning":"abstract state the property talks about"} for t in state.split(",")]
    if obs: a["observe_at"]=[t.strip() for t in obs.split(";")]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Signature, delta, patch round trip reproduces the new data exactly",
  "For every old and new data and every valid choice of signature format, block length and strong-sum length, taking a signature of the old data, loading it, computing a delta of the new data against it and applying that delta to the old data succeeds at every step and yields exactly the new data. Strong-sum lengths so short that different blocks of the inputs really share both checksums are the only exception.",
  ["inputs","configurations"],"all pairs of old/new byte strings (empty, tiny, larger than every internal limit, rearranged, repeated) x the four signature formats x block lengths x strong-sum lengths x buffer sizes",
  "Tests sample a few file pairs; corruption hides behind particular lengths, alignments and block lengths (literal and copy size classes, 64 KiB lookahead, short last block).",
  ["src/mksum.c","src/readsums.c","src/sumset.c","src/delta.c","src/emit.c","src/patch.c","src/whole.c"],
  "mksum writes block sums, readsums/sumset index them, delta.c scans greedily and emits COPY/LITERAL/END, patch.c interprets them against the basis",
  obs="rs_sig_begin/rs_loadsig_begin/rs_delta_begin/rs_patch_begin outputs; rs_*_file outputs")
p("C02","Results do not depend on how input and output are sliced into calls",
  "For every job kind, the concatenation of the output bytes and the final result are a function of the input bytes and parameters alone, whatever input and output windows (including empty ones) the caller offers in each call and whether end of input is announced with the last bytes or in a later call. A delta computed without a signature may split its literal data differently, but must still describe exactly the input.",
  ["schedules","inputs"],"all sequences of (input window, output window, end-of-input flag) for signature, load, delta and patch jobs over all inputs",
  "The number of slicings is unbounded; suspended state (partially written commands, accumulated input, half-done copies) is only exposed by particular cut points.",
  ["src/job.c","src/scoop.c","src/tube.c","src/delta.c","src/patch.c","src/mksum.c","src/readsums.c"],
  "scoop accumulates input across calls, tube keeps pending output, state functions resume",
  state="scoop (pending input), tube (pending output), copy remaining, scan position, state function",
  obs="rs_job_iter return value and buffers")
p("C03","Jobs stay inside the caller's buffers and leave them consistent",
  "In every call, whatever the input bytes (well-formed or hostile) and window sizes, a job reads only the offered input bytes and its own memory, writes only into the offered output space, never alters the input, keeps no reference to either buffer after returning, and moves the cursors and counts forward together by exactly the bytes it consumed and produced. No input makes a job crash, read uninitialised or freed memory, or leak.",
  ["inputs","schedules"],"all byte strings fed to load/delta/patch/signature jobs x all window sequences x all basis-read callback behaviours within its contract",
  "Off-by-one reads and stale pointers are silent in an ordinary test run and need specific window sizes.",
  ["src/scoop.c","src/tube.c","src/patch.c","src/delta.c","src/readsums.c","src/buf.c"],
  "exact-size windows freed after every call under AddressSanitizer, cursor/count bookkeeping checked per call",
  obs="rs_job_iter buffers before/after")
p("C04","Jobs block only for input or output space, deliver eagerly, and finish",
  "A call returns blocked only if the output space ran out or more input is required; with end of input announced, all input offered and output space left over it returns done or an error, never blocked, and a caller who keeps supplying input and space always reaches a final result in a bounded number of calls. A signature or patch job that blocks with output space left has already delivered every output byte determined by the input offered so far.",
  ["schedules","inputs"],"all window sequences (including starvation of either side) for all four job kinds",
  "Liveness over unbounded schedules; a lost wake-up or spurious blocked result needs a particular coincidence of empty input and full output.",
  ["src/job.c","src/tube.c","src/scoop.c","src/delta.c","src/patch.c"],
  "rs_job_iter loop: flush pending output, run state function until blocked/done/error",
  state="pending input, pending output, state function", obs="rs_job_iter results")
p("C05","Signatures contain exactly the documented header and block checksums",
  "A signature is the 12-byte big-endian header (format magic, block length, strong-sum length) followed, for each consecutive block of the data including a shorter last one, by its 4-byte rolling checksum and the leading bytes of its strong checksum (MD4 or BLAKE2b as the format says), and nothing else. Values are those of the published algorithms, so signatures interoperate with other builds and versions.",
  ["inputs","configurations"],"all data x four formats x block lengths x strong-sum lengths",
  "Tests compare few stored signatures; errors can depend on block length modulo hash block sizes, on lengths, on particular byte values.",
  ["src/mksum.c","src/checksum.c","src/rollsum.c","src/rabinkarp.c","src/mdfour.c","src/blake2/blake2b-ref.c","src/netint.c"],
  "rs_sig_s_header, rs_sig_do_block; rs_calc_weak_sum, rs_calc_strong_sum", obs="signature job output bytes")
p("C06","Every delta produced is well formed, in range and canonically encoded",
  "A delta starts with the delta magic and is a sequence of literal and copy commands, each of positive length in the shortest encoding that can hold its numbers, terminated by exactly one end command with nothing after it. Every copy lies inside the data described by the signature, copies that continue the previous copy are merged into it, and literal data is split only when a command reaches the maximum literal size of 65533 bytes. (A delta against no signature or one without blocks is all literal; there the pieces may follow the input windows and be larger, the rest still holds.)",
  ["inputs","configurations"],"all signatures and new data, including matches at offsets and lengths that need 1, 2, 4 and 8 byte numbers",
  "Wrong size classes appear only at exact boundary lengths or offsets, and an encoder/decoder pair with the same mistake still round-trips.",
  ["src/delta.c","src/emit.c","src/netint.c","src/prototab.c"],
  "rs_emit_literal_cmd, rs_emit_copy_cmd, rs_appendmatch, rs_appendmiss", obs="delta job output bytes")
p("C07","Deltas use every block match the signature offers, and only true matches",
  "Scanning the new data from left to right, at each position not already covered, the delta copies a block exactly when the next block-length bytes (or, at the very end, all the remaining bytes) have the rolling checksum and truncated strong checksum of some block in the signature, taking the earliest such block; every other byte is sent as literal. In particular unchanged data is never resent and a block whose strong checksum differs is never referenced.",
  ["inputs","configurations"],"all signatures (including colliding rolling sums, zero sums, duplicates, many blocks) and all new data, with matches at any offset",
  "A missed match still round-trips, so result-comparing tests never notice; a false match needs a rolling-checksum collision.",
  ["src/delta.c","src/sumset.c","src/hashtable.h","src/hashtable.c","src/checksum.h","src/rollsum.h","src/rabinkarp.h"],
  "rolling window in rs_delta_s_scan/rs_delta_s_flush, rs_signature_find_match, hash table with bloom filter", obs="commands of the delta stream")
p("C08","Patching executes every well-formed delta exactly",
  "For every sequence of literal and copy commands in any of their defined encodings (including ones the encoder never emits, such as oversized number fields), every basis that contains the copied ranges and every correct basis-read callback (short reads or its own buffer allowed), patching outputs exactly the literal bytes and basis ranges in order and finishes successfully at the end command.",
  ["inputs","schedules"],"all well-formed delta streams x bases (beyond 4 GiB offsets too) x callback behaviours x window sequences",
  "The encoder under test never produces most encodings, so round-trip tests cannot reach them.",
  ["src/patch.c","src/prototab.c","src/netint.c","src/fileutil.c"],
  "rs_patch_s_cmdbyte/params/run/literal/copy/copying, rs_file_copy_cb", obs="patch job output and result; basis reads requested")
p("C09","Malformed or truncated deltas are rejected, never accepted",
  "A delta stream with a wrong magic, an undefined command, a zero or negative length or a negative position, or one that ends before its end command, makes the patch fail with an error (bad magic, corrupt, or input ended respectively) and never report success; the output delivered before the failure is exactly that of the complete commands and literal bytes preceding it. A copy range the basis cannot supply also ends in an error.",
  ["inputs","schedules"],"every truncation point, every byte mutation and every command byte of any delta stream, under any slicing",
  "Success on damaged input means silent corruption; each cut or flipped byte is a separate case.",
  ["src/patch.c","src/prototab.c","src/tube.c","src/scoop.c","src/fileutil.c"],
  "magic check, RS_KIND_* dispatch, parameter validation, end-of-input handling in scoop and tube", obs="patch job result")
p("C10","Signature loading accepts exactly the well-formed signatures",
  "Loading a signature succeeds exactly when the stream is a complete header with a known format, a positive block length and a strong-sum length between 1 and the format's maximum, followed by a whole number of block entries; the loaded signature then behaves as those entries in order. Anything else fails with an error (bad magic, corrupt or bad parameter, or input ended) and never reports success.",
  ["inputs","schedules"],"all byte strings as signature streams (every truncation, header field value) under any slicing and through the file interface",
  "A signature cut short or with a nonsense header that is accepted gives a bad delta much later; each cut is its own case.",
  ["src/readsums.c","src/sumset.c","src/sumset.h"],
  "rs_loadsig_s_magic/blocklen/stronglen/weak/strong, rs_signature_init", obs="loadsig job result, later delta behaviour")
p("C11","Statistics report exactly what the job did",
  "After a job finishes, its statistics equal the true counts of the streams involved: number of literal and copy commands, the bytes they carry and the bytes their headers occupy for delta and patch, the number of blocks and block length for signature and load, and total input and output bytes for the file interface. The match statistics logged for a signature count exactly the positions looked up, the matching blocks and the strong checksums calculated by the deltas made with it. The printed form of statistics shows exactly these numbers and is truncated to fit the space given.",
  ["inputs","schedules"],"all inputs and slicings for the four job kinds",
  "Counters can drift only for particular command kinds or when a call is resumed, which no result-comparing test reads.",
  ["src/emit.c","src/patch.c","src/mksum.c","src/readsums.c","src/buf.c","src/stats.c","src/sumset.c","src/hashtable.h"],
  "job->stats updated by emitters, patch commands, block handling and file buffers; match counters of the block index", obs="rs_job_statistics, stats arguments of rs_*_file, rs_signature_log_stats")
p("C12","Rolling checksums agree with checksums computed from scratch",
  "For both rolling checksums and any sequence of appending data in pieces of any size, adding one byte, dropping the oldest byte, sliding by one byte and resetting, the checksum and byte count equal those of the window's bytes computed from scratch by the published definition.",
  ["inputs","histories"],"all operation sequences over windows of any length and all byte values",
  "An error that appears only for some window length, byte value or operation order silently loses matches.",
  ["src/rollsum.h","src/rollsum.c","src/rabinkarp.h","src/rabinkarp.c","src/checksum.h","src/checksum.c"],
  "modular arithmetic of rotate/rollin/rollout/update", state="accumulators and count", obs="digest and count")
p("C13","Block lookup returns the first stored matching entry or nothing",
  "The block index returns, for any history of insertions, the earliest inserted entry that has the looked-up hash and compares equal, and nothing if there is none, whatever the hash values (zero, equal, clustered) and however full the table; inserting beyond capacity is refused without disturbing the contents, and iteration visits every stored entry exactly once.",
  ["histories","inputs"],"all sequences of add/find/iterate with arbitrary hash values and comparison results up to capacity",
  "Probe chains, filter bits and the zero-hash special case interact only for particular hash value patterns.",
  ["src/hashtable.h","src/hashtable.c","src/sumset.c"],
  "open addressing with triangular probing, one-hash bloom filter, zero hash remapped", state="table slots, filter, count", obs="find/add/iter results")
p("C14","Failures of callbacks and files surface as errors, never as success",
  "If a read, write, seek, basis-read or application callback fails at any point of an operation, the operation stops with that error (an I/O error for files, the callback's own result otherwise) and does not report success, and everything delivered before the failure is a correct prefix of the result. A basis that ends early is reported as an error, and a temporary inability to supply data is retried without losing or duplicating bytes.",
  ["fault_sequences","inputs"],"every operation x every callback or file operation x every occurrence at which it fails or returns short",
  "Tests run with healthy files; each failing call position is a distinct case.",
  ["src/job.c","src/buf.c","src/fileutil.c","src/whole.c","src/patch.c"],
  "rs_job_drive result checks, rs_infilebuf_fill, rs_outfilebuf_drain, rs_file_copy_cb", obs="results of rs_job_drive and rs_*_file, bytes written")
p("C15","Jobs are independent, signatures are reusable, and jobs can be abandoned",
  "Any number of jobs interleaved in any order, or each run by its own thread, each produce what they would produce alone, a loaded signature serves any number of delta jobs, successive or interleaved, without changing, and a job can be freed at any point of its life without leaking or damaging anything else.",
  ["schedules","histories"],"all interleavings of several jobs, sharing a signature, with any of them freed after any call",
  "Hidden shared state or ownership mistakes need a particular interleaving or an early free.",
  ["src/job.c","src/sumset.c","src/delta.c","src/readsums.c","src/mksum.c"],
  "all state lives in the job; job owns its signature only for signature generation", state="jobs, shared signature", obs="outputs of interleaved rs_job_iter calls")
p("C16","Signature parameter selection returns valid, documented choices",
  "For every old-file size up to 2^60 or unknown, every format request and every requested block and strong-sum length, parameter selection either reports an error for an unknown format, a strong-sum length above the format's maximum or a block length above 2^31-1, or yields a known format, a positive block length and a strong-sum length between 1 and the maximum: explicit valid requests are kept, and the recommended values follow the documented formulas (square-root block length, minimum strength growing with size, maximum by default).",
  ["inputs","configurations"],"all (size, format, block length, strong length) requests",
  "Boundary sizes (powers of two, perfect squares, huge files) each select different values.",
  ["src/sumset.c","src/util.c"],
  "rs_sig_args, rs_long_ln2, rs_long_sqrt", obs="rs_sig_args results, signature headers produced")
p("C17","rdiff exit status is truthful and existing files are not overwritten",
  "The command-line tool exits 0 only if the requested signature, delta or patch was completely produced and written, and otherwise exits with the failure's code and a message; bad usage is a syntax error. Without the force option it never modifies an existing output file, with it it replaces it, and standard input and output work in place of files. Help and version requests exit 0 and touch nothing, and requested statistics are those of the run.",
  ["configurations","fault_sequences"],"all combinations of action, options, argument count, file states (missing, existing, unreadable, full device, malformed content) and pipes",
  "The shell tests exercise healthy invocations only; each combination of missing/existing/failing files is a separate case.",
  ["src/rdiff.c","src/fileutil.c","src/isprefix.c","src/whole.c"],
  "rdiff_sig/rdiff_delta/rdiff_patch, rs_file_open, rs_file_close", obs="exit status, files and stdout of the rdiff process")
p("C18","MD4 digests match RFC 1320 however the data is fed",
  "For every byte string and every way of feeding it in pieces (including empty pieces and totals beyond 2^32 bits), the incremental and one-shot digest functions return the RFC 1320 MD4 digest, and separate digest contexts do not influence one another.",
  ["inputs","schedules"],"all messages x all partitions into updates",
  "Buffer-tail handling and length encoding fail only for particular length residues or very long inputs.",
  ["src/mdfour.c","src/mdfour.h"],
  "rs_mdfour_begin/update/result tail buffering and padding", state="chaining words, tail, total length", obs="rs_mdfour, rs_mdfour_result")
p("C19","Base64 and hex text conversions are exact and stay in bounds",
  "Base64 encoding of any bytes yields exactly the standard alphabet text without padding and terminated, decoding it yields the same bytes and the same length, decoding stops at the first foreign character, and hex conversion yields two lowercase digits per byte; none of them writes past the space the documented sizes require.",
  ["inputs"],"all byte strings of all lengths; all texts",
  "Errors depend on length modulo 3 and on particular bit patterns.",
  ["src/base64.c","src/hex.c"],
  "rs_base64, rs_unbase64, rs_hexify", obs="returned text and lengths")
p("C20","File and callback-driven interfaces equal streaming for any buffer sizes",
  "The whole-file operations and the callback-driven loop produce the same bytes and result as streaming the same data through the job, for every configured input and output buffer size of at least one byte, every file kind (regular, pipe, empty) and any pattern of short reads. (On failure the bytes written are a prefix of those; a delta against an empty signature may split its literals differently.)",
  ["configurations","schedules","inputs"],"all buffer sizes x short-read patterns x inputs for signature, load, delta and patch",
  "Buffer refill and drain logic is only stressed by small or odd buffer sizes and short reads.",
  ["src/whole.c","src/buf.c","src/job.c","src/fileutil.c"],
  "rs_whole_run, rs_infilebuf_fill (move tail, refill), rs_outfilebuf_drain", state="file buffer contents, cursor", obs="rs_sig_file/rs_loadsig_file/rs_delta_file/rs_patch_file outputs and results, rs_job_drive")
p("C21","Diagnostics go to the chosen sink, filtered by severity, and change nothing else",
  "Every message is delivered exactly once to the sink chosen last, if its severity is within the threshold set last, and otherwise nowhere; its text carries the severity, the reporting function when named and the whole message (very long ones may be cut, never overrunning anything). A job that fails reports the failure at error severity; every result code has a description of its own; a dump of a signature shows each block's checksums in order. Neither the threshold nor the sink (or none) affects the output or result of any operation.",
  ["histories","configurations","inputs"],"all histories of threshold and sink changes and messages of any severity and length; all operations under all settings",
  "Errors show only for particular severities, message lengths or settings, and settings are global state no test varies.",
  ["src/trace.c","src/trace.h","src/msg.c","src/job.c","src/sumset.c"],
  "rs_trace_to, rs_trace_set_level, rs_log_va, rs_strerror, rs_sumset_dump", state="threshold, sink", obs="messages received by the callback, rs_strerror texts, results and outputs of jobs")
p("C22","The memory a job holds does not grow with the amount of data",
  "However much data passes through a signature, delta or patch job, and however the caller's input and output windows are sized (including output slower than input, or stalled), the memory the job holds stays within a fixed amount plus a small multiple of the block length, the literal limit and the windows; a loaded signature holds memory in proportion to the blocks that were really supplied, never to what a header claims. The whole-file operations and rdiff process files far larger than the memory available.",
  ["inputs","schedules","histories"],"all lengths of input x all window sequences x all job kinds",
  "Tests use files of a few kilobytes in default buffers, where holding everything in memory goes unnoticed.",
  ["src/scoop.c","src/delta.c","src/patch.c","src/tube.c","src/mksum.c","src/readsums.c","src/sumset.c","src/buf.c","src/whole.c"],
  "rs_scoop_input, rs_getinput, rs_appendmiss literal limit, rs_tube_copy, rs_signature growth, rs_filebuf", state="scoop buffer, tube, signature arrays, file buffers", obs="bytes allocated by the library at any moment; rdiff under an address-space limit")
p("C23","The file helpers protect, size and read files truthfully",
  "Opening a name for writing without force never touches a file that exists, whatever is in it and however it is reached: it ends with an error message and the IO error status; with force the file is replaced, and an absent one is created. The name \"-\", an empty name or none stand for standard input or output, which closing leaves open. The size given is that of a regular file and -1 for anything else. Reading basis data at a position delivers one byte or more of what the file holds there, no more than asked for and nothing beyond, reports the end of the data beyond it, and an IO error where reading fails.",
  ["histories","configurations","inputs"],"all histories of opening (names, modes, force), writing, closing, sizes and positioned reads",
  "Protection and reading at the edges depend on the state of the files, on which tests touch a few.",
  ["src/fileutil.c"],
  "rs_file_open, rs_file_close, rs_file_size, rs_file_copy_cb", state="files, handles", obs="streams opened, exit status, file contents, bytes delivered")
p("C24","Running out of memory is never success",
  "If any allocation the library makes is refused, at any point of any operation, the process either aborts after reporting it at critical severity, or the call reports a memory error, has given back what it got, and everything else stays as it was, so that it can be repeated with the right result or everything freed. Nothing else happens: no success with a wrong or missing result, no damaged memory, no leak, no endless loop. rdiff never exits 0 without its complete output.",
  ["fault_sequences"],"every allocation of every operation refused, alone or with the following ones",
  "Allocations do not fail in tests; each one is a separate fault point.",
  ["src/util.c","src/hashtable.c","src/sumset.c","src/scoop.c","src/buf.c","src/job.c"],
  "rs_alloc, rs_realloc, rs_alloc_struct, hashtable_new, rs_build_hash_table", state="allocated objects", obs="result codes, outputs, exit status, allocation balance")
p("C25","The work of a job grows no faster than its data",
  "The computing a signature, delta, patch or load job does, and the indexing of a loaded signature, stays within a constant for every byte that goes in or out and every call, whatever the data (as long as different blocks rarely share a weak sum), the number of blocks, the position, and however the caller's windows are sized, including output slower than input: finding a match at every byte costs no more with many blocks or long blocks (up to 256 KB) than with few and short ones, a miss is not summed anew, and data waiting in the job is not moved again and again. Twice the data is about twice the work, never four times.",
  ["inputs","schedules","histories"],"all lengths of input, numbers of blocks and window sequences",
  "Tests use files of a few kilobytes, where work that grows with the square of the data is not noticed.",
  ["src/delta.c","src/scoop.c","src/sumset.c","src/hashtable.h","src/hashtable.c","src/tube.c","src/patch.c","src/mksum.c","src/readsums.c"],
  "rs_delta_s_scan, rs_findmatch, rs_scoop_input, hashtable find and add, rs_signature_add_block", state="scoop buffer, weak sum, hash table", obs="steps executed and bytes moved by the library for a job")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
