#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))

IO = ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/compression.h", "spoc/file.h"]

p("C01", "Write/read round trip is bit-exact under any chunking and scheduling",
  "A point cloud written by the library's uncompressed, compressed or dispatching writer, or re-encoded with spoc_compress/spoc_decompress, is read back bit for bit: same WKT, compression flag, number of extra fields and every field of every point in order (including -0.0, NaN payloads, infinities, denormals and maximal integers). This holds however the underlying stream splits its bytes into reads and writes and whatever the number and interleaving of worker threads. Each reader consumes exactly the bytes of one file, so files concatenated on one stream are read back one after another.",
  ["inputs", "schedules", "configurations"],
  "every point cloud with 0..255 extra fields and 0..65535 WKT bytes, every split of the stream into partial reads and writes, every team size and interleaving of the parallel encoder and decoder",
  "Unit tests round-trip a few random clouds through a stringstream, which never splits a transfer, on whatever interleaving the host happens to produce; special bit patterns and stream framing are not exercised.",
  IO + ["apps/compress/compress.cpp", "apps/decompress/decompress.cpp"],
  [("column split, per-field deflate in parallel sections", "spoc/io.h write_spoc_file_compressed"), ("parallel record assembly", "spoc/io.h read_compressed_points"), ("buffered record reader", "spoc/io.h read_uncompressed_points")],
  ["bytes accepted by the output stream", "records returned by the readers", "stream position after a read"])

p("C02", "Files are exactly the documented SPOC 0.1 layout, in both directions",
  "Every uncompressed file emitted is byte for byte the documented layout (signature, version, WKT length and text, extra-field count, point count, compression flag, then fixed little-endian records), and every compressed file is the same header followed by one length-prefixed zlib stream per field, length 0 standing for an all-zero field. Conversely any file of that layout produced by an independent encoder, at any zlib level or block structure and with all-zero fields either elided or encoded, is accepted and yields exactly the encoded points, under any stream chunking. Files with another signature or version are rejected with an error.",
  ["inputs", "schedules", "configurations"],
  "every point cloud, every legal zlib encoding a peer may choose, every stream chunking and thread interleaving",
  "The tests only ever decode what the same code encoded, so a symmetric format drift passes them; independent peers and alternative zlib encodings never appear.",
  IO + ["README.md"],
  [("header codec", "spoc/header.h write_header/read_header"), ("record codec", "spoc/point_record.h"), ("field codec", "spoc/io.h write_compressed/read_compressed")],
  ["bytes delivered by the simulated output device", "records decoded from peer-encoded bytes"])

p("C03", "Truncated or failing input is never accepted as a complete file",
  "If the input ends or fails (end of file, I/O error, broken peer) before the last byte the header promises, every reader and every program that needs the missing data reports an error: the library throws, and the programs exit non-zero with a message on stderr. None of them returns, or reports success after delivering, invented, stale or zero-filled points. A program that streams (spoc_transform, the noop example) may have delivered a prefix of correct records, but still ends with a failure.",
  ["inputs", "fault_sequences", "crash_points"],
  "every file, every byte offset at which the input stops, every kind of input failure (EOF, EIO, error after a partial read, upstream process killed), every chunking",
  "Tests read complete in-memory streams; no test truncates or fails an input at an arbitrary byte.",
  IO + ["spoc/app_utils.h", "apps/*/*.cpp", "examples/noop.cpp"],
  [("stream state checks in header, record and field readers", "spoc/header.h read_header; spoc/point_record.h read_point_record; spoc/io.h read_compressed, read_uncompressed_points")],
  ["exit status, stderr and delivered bytes of each simulated process", "exceptions leaving the library readers"])

p("C04", "A program never reports success unless its whole output was delivered",
  "When a program (compress, decompress, filter, merge, tile, tool, transform, srs, info, and the streaming examples) exits with status 0, every byte of the output it owes (SPOC file, tiles or text) has been accepted by the output device, including what is only flushed at close or exit. When the device refuses data at any point (disk full, I/O error, broken pipe, failing close) the program exits non-zero with a message on stderr, or is ended by the signal; library writers throw instead of returning. Partial writes and interrupted calls that eventually succeed lose, duplicate and reorder nothing.",
  ["fault_sequences", "inputs", "crash_points"],
  "every program and option, every output size, every byte offset and kind of output failure (ENOSPC, EIO, EPIPE, short write, EINTR, failing close), stdout and named files",
  "Tests write to stringstreams that never fail; no test exercises a full disk or broken pipe at any offset, still less at the final flush.",
  ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/app_utils.h", "apps/*/*.cpp", "examples/*.cpp"],
  [("flush-and-check after writing", "spoc/io.h write_spoc_file*"), ("stream creation", "spoc/app_utils.h output_stream")],
  ["exit status and stderr of each simulated process", "bytes accepted by the simulated device"])

p("C05", "Corrupt or hostile input is contained",
  "For any input bytes, including headers that promise absurd point counts or field lengths, every reader and program terminates within a bounded number of steps, never crashes, never touches memory outside its own objects and never hangs; it either rejects the input with an error or returns exactly the points those bytes denote. Memory use beyond the configured limit surfaces as a reported error, not as a crash.",
  ["inputs", "fault_sequences"],
  "every mutation of header fields, lengths, counts and compressed payloads by in-flight or at-rest corruption, under memory limits",
  "Tests feed well-formed streams plus a handful of bad headers; they cannot observe overruns, endless loops or the effect of corrupted counts.",
  IO + ["apps/*/*.cpp"],
  [("header validation", "spoc/header.h read_header"), ("inflate result and size checks", "spoc/compression.h decompress"), ("buffer sizing", "spoc/io.h read_uncompressed_points")],
  ["termination within a step budget", "instrumented memory accesses against allocation bounds", "exit status"])

p("C06", "Damaged compressed data never yields different points silently",
  "If the zlib payload of any field in a compressed file is damaged anywhere (flipped bits, lost or repeated bytes, swapped sectors, missing tail, payload cut at any byte including inside the checksum), reading it either fails with an error or returns exactly the original points; it never returns altered points. (Damage that happens to leave a complete zlib stream with a matching Adler-32 makes a different valid file; it is outside this property.) The general compression API obeys the same rule for its streams.",
  ["fault_sequences", "inputs"],
  "every location and kind of storage damage inside compressed payloads, with and without a patched length prefix, under any chunking",
  "The tests corrupt nothing inside the compressed payload; checksum verification at the very end of a stream is never provoked.",
  ["spoc/compression.h", "spoc/io.h"],
  [("zlib adler32 and stream-end verification", "spoc/compression.h decompress"), ("decompressed size check", "spoc/compression.h decompress(vector,ptr,size)")],
  ["records returned by readers on damaged storage", "bytes returned by the compression API"])

p("C07", "A program killed at any instant leaves nothing that passes for a result",
  "If a program is killed at an arbitrary instant, its inputs are untouched, and every output file it had not finished is rejected by every SPOC reader as incomplete, while files it had finished (earlier tiles) are complete and correct. Re-running the same command after a kill (with --force for tiles) produces exactly the result of an undisturbed run. Destructive steps are not taken early: an existing output file is not truncated while the input can still turn out unreadable for the programs that load their whole input first.",
  ["crash_points", "schedules"],
  "every program writing files or pipes, every event at which SIGKILL can strike, every buffering and chunking",
  "No test kills anything; crash points between open, partial write and close are unreachable for unit tests.",
  ["apps/*/*.cpp", "spoc/io.h", "spoc/app_utils.h"],
  [("length-carrying header and per-field lengths make partial files detectable", "spoc/header.h, spoc/io.h"), ("input fully read before output is opened", "apps/compress/compress.cpp, apps/filter/filter.cpp, apps/tool/tool.cpp, apps/srs/srs.cpp")],
  ["simulated file system after the kill", "result of re-running"])

p("C08", "Pipelines equal their staged execution under any scheduling",
  "Programs connected by pipes produce byte for byte the output obtained by running each stage to completion with intermediate files, for every pipe capacity, process speed, chunking and interleaving, and always run to completion without deadlock. Documented inverse stages cancel exactly (compress then decompress; no-op stages), and the streamed result equals the composition of the stages' documented effects.",
  ["schedules", "configurations", "inputs"],
  "every pipeline of two to four stages, every pipe capacity from one byte up, every interleaving of the processes and their worker threads",
  "Tests never connect two programs; README pipelines are only run by hand at one schedule.",
  ["apps/*/*.cpp", "spoc/app_utils.h", "examples/noop.cpp", "README.md"],
  [("stdin/stdout defaults", "spoc/app_utils.h input_stream/output_stream"), ("record-at-a-time streaming", "apps/transform/transform.h apply")],
  ["bytes leaving the last stage", "exit status of every stage", "deadlock detection of the simulator"])

p("C09", "spoc_transform applies its commands to every record, in order, and nothing else",
  "spoc_transform emits the input header unchanged and then exactly one record per input record, in input order, obtained by applying the given commands in command-line order, each with its documented effect (add, scale, rotate, quantize, set, copy-field, replace, replace-not, noise); fields no command names are bit-identical. This is independent of how input arrives (chunking, delays, file or pipe), of the number of commands and of values already processed. Every option the program documents in its help and manual is usable, and a command with a value that cannot be read is refused instead of carried out without it.",
  ["inputs", "schedules", "histories"],
  "every command list over every record stream, every arrival pattern of the bytes",
  "Tests apply single operations to a few records in memory; option parsing, command composition, per-field variants and streaming delivery are untested.",
  ["apps/transform/transform.h", "apps/transform/transform_cmd.h", "apps/transform/transform.cpp", "apps/transform/transform.1.md"],
  [("operation list", "apps/transform/transform.h apply"), ("option table", "apps/transform/transform_cmd.h get_args")],
  ["every record delivered by the simulated process"])

p("C10", "spoc_filter keeps exactly the documented subset, unaltered and in order",
  "The output of spoc_filter contains only input records, bit-identical, each at most once, with WKT and compression preserved: class and coordinate filters keep exactly the records satisfying the condition in input order; unique-xyz keeps exactly one record per distinct location; subsample keeps exactly one record per occupied voxel. With random seed 0 the kept representative is the first in input order and order is preserved; with any other seed the choice is a reproducible function of input and seed. Several filters given together act as their documented composition.",
  ["inputs", "schedules", "configurations"],
  "every cloud, option combination and seed, every thread interleaving of the voxel computation, every stream behaviour",
  "Tests check sizes for a few clouds on one interleaving; identity, order, representative choice and composition are unchecked.",
  ["apps/filter/filter.h", "apps/filter/filter.cpp", "apps/filter/filter_cmd.h", "spoc/subsampling.h", "spoc/voxel.h"],
  [("first-seen sets", "spoc/subsampling.h"), ("parallel voxel indexing", "spoc/voxel.h get_voxel_indexes")],
  ["records delivered by the simulated process"])

p("C11", "spoc_tool commands have exactly their documented effect",
  "recenter-xy/xyz subtract the centroid, subtract-min-xy/xyz subtract the minimum, resize-extra sets the number of extra fields keeping the surviving values and zero-filling new ones, and upsample-classifications copies classes to all points sharing a voxel of the given resolution; every other field, the record order, WKT and compression are preserved bit for bit. A request that cannot be honoured (missing field, too many extra fields, unreadable side file) fails with an error and writes no output. This holds under any chunking of the inputs and interleaving of worker threads.",
  ["inputs", "schedules", "fault_sequences"],
  "every cloud and command parameter, side-input failures at any byte, every interleaving",
  "Tests check a few hand-made clouds; extreme parameters, side-input failure and thread interleavings are untested.",
  ["apps/tool/tool.h", "apps/tool/tool.cpp", "apps/tool/tool_cmd.h", "spoc/voxel.h", "spoc/extent.h"],
  [("copy-then-modify of records", "apps/tool/tool.h"), ("voxel map", "spoc/voxel.h")],
  ["records delivered by the simulated process", "exit status"])

p("C12", "Streaming programs make progress with bounded memory",
  "spoc_transform and the streaming examples process a stream of any declared length in constant memory: heap use does not grow with the number of records, and after k complete records have arrived the program can be made to deliver all but a constant-size suffix of their results without waiting for the end of the input. Generator output of unbounded length can thus be consumed, and a stalled input only stalls output, never loses or duplicates records once it resumes; every average that the averaging example reports is that of the records received so far, and it goes on reporting.",
  ["schedules", "fault_sequences", "inputs"],
  "every declared length including 2^64-1, every stall point and arrival pattern",
  "Tests run on finite in-memory streams and cannot see memory growth, latency or behaviour during a stall.",
  ["apps/transform/transform.h", "examples/noop.cpp", "examples/stream_averaging.cpp", "examples/generate_infinite_points.cpp"],
  [("record-at-a-time loop", "apps/transform/transform.h apply")],
  ["heap high-water mark of the simulated process", "records delivered while the source is stalled"])

p("C13", "Loss of a peer ends every program promptly and with an error",
  "When the reader of a program's output goes away, the program stops within a bounded amount of further input and work and does not report success; when the writer of its input goes away early, it stops without reading forever and does not report success. In a pipeline, killing any one stage therefore brings all other stages to an end within a bounded number of steps.",
  ["fault_sequences", "schedules", "crash_points"],
  "every pipeline, every stage killed at every instant, SIGPIPE default or ignored, finite and unbounded sources",
  "Tests have no peers; behaviour after a broken pipe or a vanished producer cannot be seen in a unit test.",
  ["apps/transform/transform.h", "spoc/point_record.h", "spoc/io.h", "examples/noop.cpp", "examples/generate_infinite_points.cpp"],
  [("stream state checks per record", "spoc/point_record.h read_point_record/write_point_record")],
  ["steps until each process exits after the kill", "exit status"])

p("C14", "Parallel operations give the sequential result for any team and schedule",
  "Every library operation that uses worker threads (compressed read and write, quantization, rotation/translation/scaling of point sets, voxel indexing, radius search) returns exactly the result of sequential execution, whatever the number of threads actually granted, the assignment of iterations to threads and the interleaving of their memory accesses. Running two such operations concurrently on distinct data from two caller threads gives the same results as running them one after the other.",
  ["schedules", "inputs", "configurations"],
  "team sizes 1..8, dynamic thread adjustment, every interleaving of worker memory accesses, operations over every input",
  "A test run observes one interleaving per execution on the host's team size; a data race or team-size dependency can pass indefinitely.",
  ["spoc/io.h", "spoc/affine.h", "spoc/utils.h", "spoc/voxel.h", "spoc/radius_search.h"],
  [("disjoint index ranges per iteration", "all omp parallel for loops"), ("one field per section", "spoc/io.h write_spoc_file_compressed")],
  ["results of each operation against a sequential reference"])

p("C15", "Radius search reports exactly the neighbours, once each",
  "For every search the callback is invoked exactly once per query point and given exactly the indexes of the candidate points within the radius of that query (itself included when it is a candidate), each once; when a maximum number of neighbours is given and more exist, exactly that many distinct true neighbours are given. This holds for every point set, radius, subset of queries and candidates and voxel occupancy, and the result given to each query does not depend on how many worker threads run or how they are scheduled.",
  ["inputs", "schedules"],
  "every point set, radius, maximum, query and candidate subset, every team size and interleaving of concurrent queries",
  "Tests compare against brute force on a few uniform clouds with one schedule.",
  ["spoc/radius_search.h", "spoc/voxel.h"],
  [("voxel neighbourhood enumeration", "spoc/radius_search.h random_neighbor_selector"), ("one callback per parallel iteration", "spoc/radius_search.h radius_search")],
  ["callbacks per query against brute force"])

p("C16", "Results are a function of input, options and seed only",
  "Running the same command on the same input with the same options and random seed always gives the same output bytes and exit status, independent of wall-clock time, process identity, entropy sources, uninitialised memory contents, memory addresses, thread count, scheduling, and stream chunking. This includes the random operations (seeded subsampling and unique filters, gaussian and uniform noise); and different seeds drive the random operations differently.",
  ["schedules", "configurations", "inputs"],
  "every program and seed, every pair of environments differing in clock, entropy, heap contents and layout, schedule and chunking",
  "A test process sees one clock, heap and schedule; dependence on any of these is invisible within a single run.",
  ["apps/filter/filter.h", "apps/transform/transform.h", "spoc/subsampling.h", "spoc/io.h"],
  [("explicitly seeded engines", "spoc/subsampling.h; apps/transform/transform.h")],
  ["pairs of runs of the same workload in different simulated environments"])

p("C17", "spoc_file operations keep its invariants, even when they fail",
  "After any sequence of operations on an in-memory SPOC file, all its records have the same number of extra fields and its header (counts, WKT, compression, version) describes its contents. An operation that fails, whether because its argument is inconsistent or because memory runs out at any allocation inside it, throws and leaves the file exactly as it was before the call. Copies are independent of their source, and assignment, swap, clone and move transfer exactly the documented state.",
  ["histories", "fault_sequences"],
  "every sequence of construction, mutation, copying and moving operations, with allocation failure at every allocation of every operation",
  "Tests call each mutator once in good conditions; failing allocations in the middle of a mutation are unreachable.",
  ["spoc/file.h", "spoc/point_record.h"],
  [("consistency check before mutation", "spoc/file.h"), ("copy and swap", "spoc/file.h operator=")],
  ["full observable state before and after each call against a reference model"])

p("C18", "Running out of memory is an ordinary error everywhere",
  "If any memory allocation fails, at any point of any program or library read, write, compression, search or filter operation, including inside worker threads and inside zlib, the operation reports an error (exception, or non-zero exit with a message) or completes correctly; the process is never aborted, never crashes and never delivers wrong results as success. The library stays usable: retrying the operation once memory is available succeeds and gives the right result.",
  ["fault_sequences", "schedules"],
  "every allocation of every operation failing, singly or persistently, in the caller's or a worker thread, under every interleaving",
  "Tests never make an allocation fail, and failure inside a parallel region needs a particular thread to hit it.",
  ["spoc/io.h", "spoc/compression.h", "spoc/radius_search.h", "spoc/affine.h", "spoc/voxel.h", "apps/*/*.cpp"],
  [("exceptions carried out of parallel regions", "spoc/io.h, spoc/radius_search.h"), ("zlib status checks", "spoc/compression.h")],
  ["exceptions and exit status; process termination state", "result of the retry"])

p("C19", "Tiling partitions the cloud and never clobbers files unasked",
  "spoc_tile writes every input record bit-identically to exactly one tile, in input order within each tile, with WKT and compression preserved, one file per occupied grid cell named by prefix, zero-padded index and extension; cells have the requested size or number. Without --force, no file that already exists is ever modified, no matter when it came into existence before the tile is created; with --force the tile is replaced completely. A failed run reports an error.",
  ["inputs", "schedules", "histories", "crash_points"],
  "every cloud and tile option, every pre-existing file set, concurrent runs or foreign writers creating files at any instant, output failures at any byte",
  "Tests check the index arithmetic only; file creation, existing files, races with other writers and failures are never executed.",
  ["apps/tile/tile.cpp", "apps/tile/tile.h", "apps/tile/tile_cmd.h"],
  [("exists check before create", "apps/tile/tile.cpp"), ("tile index map", "apps/tile/tile.h")],
  ["simulated file system contents before, during and after the run"])

p("C20", "Merging conserves every record of every input in order",
  "spoc_merge outputs all records of the first input, then all of the second, and so on, each bit-identical except for the point id, which is the input's ordinal or the requested id; the WKT is that of the first input and the output is compressed exactly when all inputs are. If any input is unreadable, truncated or inconsistent in its extra fields, or the output cannot be written, merge fails with an error and does not report success.",
  ["inputs", "fault_sequences", "schedules"],
  "every number and mix of inputs, failures of any input or the output at any byte, every chunking",
  "Tests append one file to another in memory; the program, mixed compression and failing inputs are never run.",
  ["apps/merge/merge.cpp", "apps/merge/merge.h", "apps/merge/merge_cmd.h"],
  [("append with id", "apps/merge/merge.h"), ("compression conjunction", "apps/merge/merge.cpp")],
  ["bytes and exit status of the simulated process"])

p("C21", "The compression API is lossless, bounded and honest about errors",
  "For every byte sequence and level, compressing and decompressing through the buffer or the stream API in any combination restores the exact bytes, whatever the chunking of the streams. Input that is not one complete valid zlib stream, input streams that fail, output streams that refuse data, invalid levels and zlib memory exhaustion are reported by an exception; no call loops forever or returns partial data as success.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte sequence including sizes around the internal buffer size and sizes beyond 32 bits, every chunking, every offset and kind of stream failure, zlib allocation failures",
  "Tests round-trip a few strings through stringstreams; stream failures, truncated streams and buffer-boundary sizes are not covered.",
  ["spoc/compression.h"],
  [("deflate/inflate loops", "spoc/compression.h compress/decompress")],
  ["returned bytes, exceptions and step counts"])

p("C22", "Elapsed time is measured correctly whatever the wall clock does",
  "The benchmark timer reports the time that really passed between start and stop (or now), to its millisecond resolution, never negative and never altered by adjustments of the wall clock while it runs; restarting resets it and stopping freezes it.",
  ["histories", "fault_sequences"],
  "every sequence of start, stop and query calls interleaved with delays and wall-clock jumps forwards and backwards",
  "Tests cannot set the clock back; they only see time pass normally.",
  ["spoc/benchmark_utils.h"],
  [("clock reads", "spoc/benchmark_utils.h timer")],
  ["reported values against simulated true time"])

p("C23", "The Python module reads and writes exactly what the library does, or raises",
  "Through the Python extension, reading a file or its header yields exactly the records, field arrays, WKT and flags the file contains; objects built or altered from Python hold exactly what was set (records handed over or given out are copies), and writing them produces files any other SPOC reader accepts, so saving and reloading any point cloud is lossless under every splitting of the transfers. A truncated or failing input, a failing output (refused write, full disk, failing close, failing open), inconsistent records and an index out of range raise an exception: nothing invented is returned, nothing incomplete passes as written, the interpreter survives, and the objects that existed before the call are unchanged and still usable.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of calls on the extension's objects, every cloud, chunking, truncation point, read error and output failure seen through the extension module inside a real interpreter",
  "The Python tests use sample files and complete streams only; disk errors, truncation and rejected calls through the extension are not covered.",
  ["spocpy/spocpy/spocpy.cpp", "spoc/io.h", "spoc/file.h"],
  [("file functions of the extension", "spocpy/spocpy/spocpy.cpp py_readheader, py_readspocfile, py_writespocfile"), ("bindings", "spocpy/spocpy/spocpy.cpp PYBIND11_MODULE"), ("index checks", "spoc/file.h get_point_record, set_point_record; spoc/point_record.h get_extra")],
  ["objects returned to Python and exceptions raised", "files delivered in the simulated file system"])

p("C24", "Field export and import are inverse and all-or-nothing",
  "spoc_tool get-field writes one value per record in record order, integers exactly and coordinates to at least 15 significant digits, and set-field assigns the i-th value of the field file to the i-th record and changes nothing else, creating the extra field if necessary. A field file that runs short, fails while being read or contains something that is not a value of that field (other text, a negative number, a number the field cannot hold) makes set-field fail without writing any output, and a request for a field the file does not have fails; a failure while writing the values is reported.",
  ["inputs", "fault_sequences", "schedules"],
  "every cloud and field, every failure of the point file, field file or output at any byte, every chunking",
  "Tests use complete well-formed in-memory streams; short, failing or malformed field files at arbitrary bytes are not covered.",
  ["apps/tool/tool.h", "apps/tool/tool.cpp"],
  [("per-value stream check", "apps/tool/tool.h set_field"), ("value printing", "apps/tool/tool.h get_field")],
  ["text and records delivered by the simulated process", "exit status"])

p("C25", "Reports tell the truth about the files or fail",
  "spoc_info, spoc_srs and spoc_diff report exactly what the files contain: point count, WKT, compression, per-field minimum, maximum and quartiles, class counts; setting the SRS changes the WKT and nothing else; diff answers \"same\" exactly when the compared parts are equal. Whatever happens on the way (input failing or truncated at any byte, output refused, processes interleaved in any way), a program that exits successfully has delivered the complete and true report.",
  ["inputs", "fault_sequences", "schedules"],
  "every file and pair of files, every failure point of inputs and outputs, every chunking",
  "Tests check fragments of the output for a few clouds; failing inputs and outputs are never exercised and diff's answer under read failure is unknown.",
  ["apps/info/info.h", "apps/info/info.cpp", "apps/srs/srs.cpp", "apps/diff/diff.h", "apps/diff/diff.cpp"],
  [("report generation", "apps/info/info.h process"), ("comparison", "apps/diff/diff.h diff")],
  ["text and exit status of the simulated processes"])

p("C28", "Command lines: refused without side effects, answered without input, indifferent to spelling",
  "Every program parses its whole command line before it acts. A command line that is refused (unknown or ambiguous option, missing or surplus value or operand, no or two commands where one is needed) ends the program with a failing status and a message on standard error, without reading standard input, without a byte on standard output and without creating, truncating or changing any file. Asking for help or for the version is answered with success, whatever operands and other options are given before it and even when there is nothing to read and nothing to write: the help names every option, the version is 'Version 0.1', and no input is read and no file touched. How an option is spelled (long, short, abbreviated to a unique prefix, value attached or separate), the place of options among operands, '--', and the verbose option never change the exit status or any byte of the outputs. A program that loads its whole input before writing (compress, decompress, filter, tool, setting the srs) gives the same result when the output names the input file itself.",
  ["inputs", "schedules", "fault_sequences"],
  "every command line of every program: options, spellings, orders and mistakes, on inputs that never end and on files that exist",
  "Tests run a handful of fixed command lines; a program that opens its output or waits for input before it refuses, or a log line that ends up in the data, is invisible to them.",
  ["apps/*/*_cmd.h", "apps/*/*.cpp", "spoc/cmd.h", "spoc/app_utils.h"],
  [("command line parsing", "apps/*/*_cmd.h get_args"), ("help text", "spoc/cmd.h print_help"), ("opening of inputs and outputs", "spoc/app_utils.h input_stream, output_stream")],
  ["exit status, standard output and error and files of the simulated processes"])

p("C29", "Nothing is leaked: repeated operations run in bounded memory, whatever fails",
  "When a library operation (reading, writing, compressing, decompressing, radius search, voxel filters, transformations, in-memory files) has returned or thrown and its results are destroyed, everything it acquired is released again: its buffers, zlib's state and the memory of its worker threads. That holds also when something failed inside: the input ended, was damaged or could not be read, the output refused data or failed at close, a compression level was not valid, or an allocation failed. Through Python, a call that returned or raised leaves no file open, and once the objects are gone no native memory either. So a process may repeat any operation for ever, failures included, without growing.",
  ["inputs", "fault_sequences", "schedules"],
  "every operation on every input, with every failure at every point, repeated any number of times under every schedule of its worker threads",
  "Tests run each operation once, mostly successfully, in a process that ends at once; what a failing path forgets to release never shows.",
  ["spoc/io.h", "spoc/compression.h", "spoc/file.h", "spoc/utils.h", "spoc/radius_search.h", "spocpy/spocpy/spocpy.cpp"],
  [("zlib state owners", "spoc/compression.h zlib_deflator, zlib_inflator"), ("record and field buffers", "spoc/io.h read_spoc_file*, write_spoc_file*"), ("bindings", "spocpy/spocpy/spocpy.cpp")],
  ["heap and open descriptors of the simulated process after each call"])

p("C26", "Summaries render as valid JSON text",
  "Every JSON object the library builds is printed as syntactically valid JSON that parses back to the same values.",
  ["inputs"], "every object, string and number",
  "Tests print a few hand-made objects.",
  ["spoc/json.h"], [("stream operators", "spoc/json.h")], ["text written"])

p("C27", "Point, extent and affine arithmetic obey their algebra",
  "Encoded points decode to the same points up to the documented resolution, extents are the tightest boxes around their points, and rotation, scaling and translation matrices satisfy their documented identities.",
  ["inputs"], "every finite point set and matrix",
  "Tests sample a few values.",
  ["spoc/point.h", "spoc/extent.h", "spoc/affine.h"], [("arithmetic operators", "spoc/point.h, spoc/affine.h")], ["returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
