#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


G, C, R, W = "src/vblf/general.py", "src/vblf/can.py", "src/vblf/reader.py", "src/vblf/writer.py"
L, E, F, T, K = ("src/vblf/lin.py", "src/vblf/ethernet.py", "src/vblf/flexray.py",
                 "src/vblf/tp_diag.py", "src/vblf/constants.py")
CODEC = [G, C, L, E, F, T, K]

prop("C01", "A written log reads back exactly",
     "For every sequence of objects the writer accepts, every compression level 0-9 and every positive buffer size, "
     "reading the closed log yields exactly those objects: equal in every field, in write order, each exactly once.",
     ["histories", "inputs", "configurations"],
     "all object sequences over all supported and unsupported types, all field values and sizes (including objects larger "
     "than the buffer), all compression levels 0-9, all buffer sizes >= 1",
     "test_roundtrip writes one copy of each sample object with the default buffer and four levels; test_writer_buffer repeats a "
     "single 128-byte-class object. Container boundaries falling inside headers, signatures and big objects, odd object sizes, tiny "
     "buffers, long logs and payloads that contain the object signature are never reached.",
     [W, R] + CODEC,
     [("8-byte alignment and buffering of packed objects", W + ": BlfWriter.write"),
      ("container chunking and flush loop", W + ": BlfWriter._flush_container, close"),
      ("carry-over of an incomplete object into the next container", R + ": BlfReader._generate_objects")],
     [("write buffer", "packed objects not yet in a container", W), ("carry-over bytes", "tail of the previous container", R)],
     ["BlfWriter.write/close", "BlfReader iteration"])

prop("C02", "Objects decode to the values the BLF layout stores",
     "For every supported object type and every well-formed encoding of it, each decoded field equals the little-endian number, "
     "float, bytes or text that the BLF layout stores there, with enumerations and flags keeping their stored number. "
     "Optional trailing parts (LIN response baudrate and exact baudrate, CAN FD extended bit timing) are decoded exactly when the "
     "object's size and extension offset say they are present, and read as zero otherwise.",
     ["inputs"],
     "all field values of all object types, all text and payload lengths, all optional-part combinations",
     "each type is decoded from a single sample file with hand-picked, mostly repeated-byte values (0x11, 0x22, ...), one length per "
     "variable part and one optional-part combination; width, sign, order, boundary-value and length errors outside that sample are invisible.",
     CODEC, [("struct formats and field order of each object class", "unpack() of every class in can/general/lin/ethernet/flexray/tp_diag")],
     observe=["unpack() of each object class", "BlfReader iteration"])

prop("C03", "Encoding is exact, lossless and repeatable",
     "Encoding an object yields the BLF layout of its current field values, exactly as many bytes as its header declares, and "
     "re-encoding an object decoded from well-formed bytes reproduces those bytes exactly. Encoding never changes the object, so "
     "encoding again gives the same bytes, and changing one field changes only that field's bytes.",
     ["inputs", "histories"],
     "all field values of all object types, all text and payload lengths, all sequences of field updates and encodes",
     "pack() == raw is asserted on one sample per type, so values the sample does not contain, optional-part combinations, empty or "
     "unterminated texts and objects built or edited in memory are not covered.",
     CODEC, [("field order and offsets in each pack()", "pack() of every object class"),
             ("offset-addressed writes into a buffer of the declared size", C + ", " + G + ", " + L)],
     observe=["pack() of each object class", "unpack()"])

prop("C04", "The reader finds every object however the file packages them",
     "For every valid BLF file, the reader yields exactly the objects it contains, in file order, each once: however the object stream "
     "is divided over log containers (including cuts inside a signature or header, and containers holding only part of one object), "
     "with any filler bytes between objects or containers, with objects inside or outside containers, and with containers deflated or stored.",
     ["inputs", "configurations"],
     "all divisions of an object stream into containers, all filler lengths and contents free of the object signature, all "
     "compressed/stored mixes, header sizes and container header variants",
     "the reader is only ever run on files the library's own writer made in one layout; Vector tools cut containers and pad differently, "
     "and no test reads an independently built file.",
     [R, G], [("signature search with one-byte resynchronisation", R + ": _generate_objects"),
              ("carry-over of incomplete data between containers", R + ": _generate_objects"),
              ("decompression decision", R + ": _generate_objects")],
     [("carry-over bytes", "incomplete signature, header or object of the previous container", R)],
     ["BlfReader iteration over independently built files"])

prop("C05", "Every file the writer produces is structurally valid BLF",
     "Every closed log is a 144-byte file header followed only by log containers starting at 8-byte-aligned offsets with zero filler between "
     "them; each container's declared sizes match its contents, and it declares its payload as stored (method 0) or deflated (method 2) and its "
     "uncompressed size truthfully. The concatenated payloads are exactly the encodings of the written objects in order with only zero filler "
     "(at most 7 bytes) between them, each starting at a multiple of 8 in the stream where the buffer size is one, so that any other BLF reader can read the log.",
     ["histories", "inputs", "configurations"],
     "all object sequences, compression levels 0-9 and buffer sizes >= 1",
     "tests read files back only with the library's own tolerant reader, which ignores container header fields and skips filler of any kind, "
     "so symmetric or tolerated format errors never show.",
     [W, G], [("container header construction", G + ": LogContainer.new; " + W + ": _flush_container"),
              ("file and object alignment", W + ": write, _flush_container")],
     observe=["bytes of the closed file, parsed by an independent BLF parser"])

prop("C06", "The file header of a closed log tells the truth",
     "After closing, the file header states the number of objects written, the real file size, the uncompressed size (header size plus the "
     "sizes of all objects written), the compression level used, and UTC measurement-start and last-object times that are ordered and "
     "bracket the writer's creation and the last successful write. A reader opened on the log exposes these same values.",
     ["histories", "configurations"],
     "all numbers and sizes of written objects (including none), levels, buffer sizes, time zones and write timings, with rejected writes interleaved",
     "no test looks at the statistics of a written file; they are only decoded from one sample file.",
     [W, G], [("running counters", W + ": write, _flush_container"), ("final header rewrite", W + ": _update_file_statistics, close")],
     [("file statistics", "header record being accumulated", W)],
     ["file header bytes", "BlfReader.file_statistics"])

prop("C07", "A crash or truncation leaves a readable prefix of the log",
     "Whatever point the writer's output is cut off at (any byte offset of a finished log, or any point between or inside the writes made so "
     "far while logging), reading what is there yields exactly the objects that lie completely within the complete containers present, in "
     "order, and ends normally without an error. Only a file shorter than its file header is refused, with a ValueError.",
     ["crash_points", "histories", "configurations"],
     "all truncation offsets of all logs, all crash points between file operations and inside the last one, all levels and buffer sizes",
     "no test reads a truncated or unfinished file; each of the thousands of cut points is a different input.",
     [R, W], [("valid provisional header written first", W + ": __init__"),
              ("short-read handling for signature, header and body", R + ": _generate_objects"),
              ("in-place header rewrite at close", W + ": _update_file_statistics")],
     observe=["file bytes after every operation on the writer's output", "BlfReader iteration"])

prop("C08", "Buffered objects reach the file on time, in bounded containers",
     "After each write returns, fewer than buffer-size bytes of object data are held back from the file, whatever the object sizes. "
     "No container carries more than buffer-size bytes of uncompressed data, and before the log is closed only full containers are emitted. "
     "Without an explicit buffer size the documented 128 KiB applies.",
     ["histories", "inputs", "configurations"],
     "all object sizes (smaller than, equal to and much larger than the buffer), all buffer sizes >= 1, all write histories",
     "the only buffering test writes small equal-sized objects and looks only at the result after close; the amount held back during "
     "logging (memory growth, data lost in a crash) is never observed.",
     [W], [("flush when the buffer is full", W + ": write"), ("chunking", W + ": _flush_container")],
     [("write buffer", "bytes held back", W)],
     ["file contents after every write"])

prop("C09", "A rejected object leaves no trace in the log",
     "If an object cannot be encoded, or its encoding does not have exactly the size its header declares, write raises (ValueError for a size "
     "mismatch) and the log is unaffected: objects written before and after read back exactly and the file header counts only accepted objects.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences mixing accepted and rejected objects: too long, too short, out-of-range values, unencodable text, failing encoders",
     "no test writes an invalid object at all, alone or in the middle of a log.",
     [W, G], [("size check before buffering", W + ": write")],
     observe=["exceptions from BlfWriter.write", "objects and header of the closed log"])

prop("C10", "Every object type is recognised; unsupported ones pass through intact",
     "Each object read is an instance of the class for its stored type number. Objects of known but unsupported types and of unknown type "
     "numbers are yielded as not-implemented objects that carry their exact bytes, report their size and type (unknown numbers as UNKNOWN), "
     "and can be written to another log byte-for-byte unchanged.",
     ["inputs"],
     "all type numbers 0 to 2^32-1, all object sizes and contents",
     "test_roundtrip skips every unsupported type, and type numbers outside the enumeration are never presented.",
     [R, G, K], [("type-to-class map", R + ": OBJ_MAP"), ("fallback for unknown numbers", K + ": ObjType.from_int"),
                 ("verbatim object", G + ": NotImplementedObject")],
     observe=["BlfReader iteration", "BlfWriter.write of what was read"])

prop("C11", "Headers and sub-records are read and written only at their offset",
     "Every header and sub-record (object header base, object headers, variable object header, system time, LIN event records) decoded at any "
     "offset of a buffer gives the values stored at that offset, and encoded at any offset writes exactly its own bytes there and nothing else. "
     "Offset-based and whole-buffer decoding and encoding agree.",
     ["inputs"],
     "all offsets, all field values and all surrounding buffer contents",
     "tests only use these records at the fixed offset their containing object happens to put them.",
     [G, L], [("unpack_from/pack_into offsets", G + ", " + L)],
     observe=["unpack, unpack_from, pack, pack_into of each record class"])

prop("C12", "System times convert faithfully",
     "Converting a date-time to a system time keeps every calendar field, gives the Windows weekday (Sunday = 0) and milliseconds less than one "
     "millisecond off, never goes backwards for later date-times, and always produces a valid encodable record. Converting back gives the "
     "same fields, so a whole-millisecond date-time survives the round trip exactly.",
     ["inputs"],
     "all date-times from year 1 to 9999, all microseconds, aware and naive, and all valid system times",
     "no existing test calls the conversions at all; rounding at the end of a second, weekday and carry cases are unbounded in number.",
     [G], [("rounding and clamping", G + ": SystemTime.from_datetime, to_datetime")],
     observe=["SystemTime.from_datetime / to_datetime / pack / unpack"])

prop("C13", "Readers and writers open, refuse and close files predictably",
     "Leaving the context of a reader or writer, normally or by an exception, closes the file (a writer first completing the log with all objects "
     "written) and never suppresses the exception; closing again changes nothing. Inputs that are not BLF files are refused with ValueError, "
     "unsupported arguments with TypeError, and a buffer size below 1 with ValueError before any file is touched, none leaving a file open; "
     "writing after close raises ValueError instead of silently dropping the object. A file object of the caller that was refused, or whose reader or writer is "
     "dropped without being closed, stays open and as it was.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of open, write, read, exception, close, reopen; all non-BLF inputs; all argument types",
     "tests only use the happy path of the with statement on valid files.",
     [R, W], [("context managers", R + ": __exit__; " + W + ": __exit__, close"), ("signature and length check", R + ": __init__")],
     observe=["open file descriptors", "file contents", "exceptions"])

prop("C14", "I/O failures are reported and never corrupt the log",
     "If the underlying file fails while the writer or reader uses it, the call that hit the failure raises it. A write failure, even one that stored "
     "only part of the data, loses no accepted object: once the file works again, continuing and closing yields a log with every "
     "object passed to the writer exactly once, in order, and a truthful header.",
     ["fault_sequences", "histories"],
     "all positions and sequences of failing write operations (nothing stored or partly stored), during logging and during close, followed by recovery",
     "no test injects any fault.",
     [W, R], [("buffer handling around the container write", W + ": _flush_container, close"), ("reads without error handling", R)],
     [("write buffer", "must be dropped only after a successful write", W)],
     ["exceptions at the API", "contents of the closed log"])

prop("C15", "All ways of reading and all file sources deliver the same objects",
     "Iterating, calling read_object, and any mixture of the two with iteration stopped and resumed deliver each object of the log exactly once in order, "
     "and after the end read_object keeps returning None. The result does not depend on whether the file is given as text path, bytes path, path "
     "object or file object, nor on the file's name or the path leading to it, and reading never modifies the file; the writer likewise accepts each kind and produces the same log.",
     ["histories", "configurations"],
     "all interleavings of access styles, all source kinds",
     "tests use a Path and one access style per test.",
     [R, W], [("single shared generator", R + ": read_object, __iter__"), ("source detection", R + ": __init__; " + W + ": __init__")],
     observe=["BlfReader.read_object / __iter__", "BlfWriter on each target kind"])

prop("C16", "Readers and writers do not influence each other",
     "Any number of readers and writers on different files can be used at the same time, interleaved or from different threads: each produces or "
     "delivers exactly what it would alone.",
     ["schedules", "histories"],
     "all interleavings of operations on several readers and writers, in one thread or several",
     "tests use one writer or reader at a time, so state shared between instances never shows.",
     [R, W, G], [("all parsing and buffering state held per instance", R + ", " + W)],
     [("carry-over bytes", "per reader", R), ("write buffer and statistics", "per writer", W)],
     ["objects delivered per reader, bytes produced per writer"])

prop("C17", "Damage does not affect what precedes it, and reading always ends",
     "If bytes of a log after the file header are overwritten, inserted or removed, every object whose container lies completely before the damage is still "
     "delivered unchanged and in order (in a stored container, also objects before damage to its payload that keeps its length). "
     "Reading then ends after finitely many steps, by reaching the end or by an exception, whatever the damage.",
     ["inputs", "fault_sequences"],
     "all damage positions, kinds and contents in all logs",
     "no test reads a damaged file; the input space is unbounded.",
     [R, G], [("incremental parsing, container by container", R + ": _generate_objects"), ("guaranteed progress of the signature search", R)],
     observe=["objects delivered before the end or an exception", "steps executed"])

prop("C18", "Objects and headers made by the factories are complete and valid",
     "Objects, object headers, log containers and file headers created by their factories carry the given values, the correct signature, type, header size and object size, "
     "zero reserved fields, and parts of their own (changing one part changes no other). Factory-made CAN objects are accepted by the writer and read back with the same values, "
     "payloads shorter than the frame's data field being zero-filled.",
     ["inputs"],
     "all argument values in range, all payload lengths from empty to the full data field",
     "no existing test calls an object factory.",
     [G, C], [("new() class methods", C + ": CanMessage.new, CanMessage2.new, CanFdMessage.new; " + G + ": ObjectHeader.new, LogContainer.new, FileStatistics.new")],
     observe=["fields and encoding of factory-made objects"])

prop("C19", "The log records each object as it was when written",
     "A successful write captures the object's values at that moment: changing, reusing or discarding the object afterwards does not alter the log, and "
     "writing the same object again adds another record. Writing leaves the object unchanged, and objects already read are not altered by reading on.",
     ["histories"],
     "all sequences of writes and in-place changes of the same object, across buffer flushes; all reads of further objects",
     "tests never modify an object between write and close, nor keep and recheck objects while reading on.",
     [W, R], [("objects encoded immediately on write", W + ": write"), ("each decoded object owns its data", "unpack() of every class")],
     observe=["objects read back from the log", "snapshots of objects before and after"])

prop("C20", "The file header record is decoded and encoded exactly",
     "For every 144-byte file header, each decoded field equals the little-endian value stored at its place in the layout (unknown application ids read as UNKNOWN, "
     "compression levels without a name keep their number), and re-encoding a header with a known application id reproduces it byte-for-byte. "
     "Changing a field changes only that field's bytes.",
     ["inputs"],
     "all header contents",
     "one sample header is tested, with several fields zero.",
     [G, K], [("header layout", G + ": FileStatistics"), ("time fields placed separately", G + ": FileStatistics.pack/unpack"),
              ("enumeration fallbacks", K + ": AppId.from_int, Compression.from_int")],
     observe=["FileStatistics.unpack / pack", "BlfReader.file_statistics"])

prop("C21", "Logs are read incrementally",
     "Opening a log reads only its beginning, and objects of a container are delivered before the following containers are consumed, up to a bounded look-ahead that does not "
     "grow with the length of the log; objects already delivered are not kept by the reader. So a log far larger than memory can be processed.",
     ["inputs", "histories"],
     "all log lengths, container sizes and access patterns",
     "tests read small files to the end; how much of the file has been consumed when an object is delivered, and what is retained, is never observed.",
     [R], [("generator-based parsing", R + ": _generate_objects")],
     observe=["read operations on the source at each delivered object", "liveness of delivered objects"])

prop("C22", "Logs are written incrementally, in bounded memory, and only grow",
     "While logging, the memory the writer takes is bounded by the buffer size and the largest object, however many objects are written, and objects passed to write are not kept. "
     "The file only grows: bytes of containers already complete are never changed, moved or cut off again by later writes or by closing, which at most rewrite the "
     "144-byte file header. So logging can go on indefinitely and a log can be followed while it is being written.",
     ["histories", "configurations"],
     "all write histories (rejected writes included) of any length, object sizes, levels, buffer sizes",
     "tests write a handful of objects and look at the closed file only; memory growth, kept objects and rewritten file contents show over long histories and between calls.",
     [W], [("buffer emptied container by container", W + ": _flush_container"), ("only the header is rewritten", W + ": _update_file_statistics")],
     observe=["every operation on the writer's file", "liveness of written objects", "traced memory"])

prop("C23", "Objects behave as plain values",
     "Two objects, headers, nested records, system times or file headers are equal exactly if they are of the same class and all their fields are equal, however they were "
     "made (built, decoded or read from a log). Copies, deep copies and pickles equal the original and encode to the same bytes, and deep copies and unpickled objects are independent of it.",
     ["inputs"],
     "all values of all object types (no NaN), all fields, all ways of copying",
     "tests compare one sample of each type with its own decoding; that no field is left out of a comparison or lost in a copy must hold for every field and value.",
     [G, C, L, E, F, T], [("dataclass equality and state", "all object, header and record classes")],
     observe=["==, !=, copy, deepcopy, pickle, dataclasses.replace"])

prop("C24", "Work grows in proportion to the log",
     "The work of writing or reading a log (steps executed, bytes moved to or from the file, processor time) grows at most in proportion to the number and size of its objects, containers "
     "and filler, as long as objects fit into a container. No object, container or stretch of filler is processed again for every later one.",
     ["inputs", "histories", "configurations"],
     "all log lengths, container sizes, filler lengths, object sizes up to a container, levels and buffer sizes",
     "tests handle a few kilobytes, where repeated work per object or container costs nothing noticeable; a growth rate shows only by comparing sizes.",
     [R, W, G], [("single pass over stream and containers", R + ": _generate_objects"), ("buffer consumed from its front", W + ": _flush_container")],
     observe=["executed lines", "operations and bytes at the file", "processor time"])

prop("C25", "The library touches nothing but the file it is given",
     "Importing the package, reading, writing, encoding and decoding - successfully or not - open no file but the given one (readers only for reading, an existing target is overwritten in place), "
     "create, rename and remove no other, start no process or thread, use no network, print nothing, and leave process-wide settings (environment, working directory, locale, time zone, signals, "
     "warnings, logging, garbage collector, limits, random state) as they were.",
     ["inputs", "histories", "fault_sequences"],
     "all calls of the public API with all arguments, on well-formed, damaged and missing files, in all directories",
     "tests look at return values; what else a call did to the process and the file system shows only when everything it does is watched.",
     [R, W, G], [("opening of files", R + ": BlfReader.__init__, " + W + ": BlfWriter.__init__"), ("no state outside the instance", "all modules")],
     observe=["audit events of the interpreter", "standard streams", "directories", "process-wide settings"])

prop("C26", "Results do not depend on the environment",
     "Encodings, decoded values, written logs (apart from their times), delivered objects and raised exceptions are the same whatever the hash seed, locale, time zone, text encoding, "
     "optimisation level (-O), warning filters, memory allocator, thread, event loop, garbage collector settings, recursion depth, working directory, open descriptors or place of "
     "installation; times in file headers are always UTC.",
     ["configurations", "inputs"],
     "all interpreter options and environments, all inputs",
     "the test suite runs in one interpreter in one environment.",
     [R, W, G], [("cp1252/UTF-8 named explicitly", G + ", " + T), ("UTC", W + ": _update_file_statistics"), ("errors raised, not asserted", "all modules")],
     observe=["objects, encodings, files and exceptions in fresh interpreters"])

prop("C27", "Names stand for the numbers the BLF format assigns",
     "Every named object type, application id, compression level and method, flag, state and kind stands for the number the BLF format assigns to it: a value given by name "
     "(or a combination of flag names) is stored as that number in every field that carries it, and a stored number reads as a value that equals, and for flags contains, exactly "
     "the names the format gives it. Object type and application numbers without a name read as UNKNOWN, compression levels and flags without a name keep their number.",
     ["inputs"],
     "all names and flag combinations in all fields that carry them, and all numbers",
     "tests use a handful of names with one sample file each.",
     [K, C, G, R], [("enumerations", K + ": all classes"), ("conversion on decoding", "unpack() of every class"), ("types of factory-made objects", C + ": new")],
     observe=["bytes stored for named values", "names shown by decoded values", "containers' methods and headers' levels in written logs"])

prop("C28", "Copied, filtered and merged logs carry the same objects byte for byte",
     "Writing objects delivered by readers of any valid BLF files to new logs - all or some of them, in any order, repeated, from one or several readers in turns, over any number of "
     "generations, immediately or later - stores exactly the bytes those objects have in their sources, in the order written, whatever the packaging, level and buffer size of "
     "source and target; the new header counts them. So tools that filter, merge, split, convert or repair logs lose and alter nothing.",
     ["inputs", "histories"],
     "all source files, selections and orders of well-formed objects",
     "tests read single objects and write single objects; none feeds a reader's objects to a writer at scale.",
     [R, W, G], [("decode, then encode losslessly", "unpack()/pack() of every class"), ("objects kept independent of the reader", R + ": _generate_objects"),
                 ("objects copied into the buffer", W + ": write")],
     observe=["object bytes stored in result files, found by an independent parser"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
