prop("P01", "Storage write failures reach the caller",
     "When writing, flushing, truncating, finalizing, chunking or closing a file fails at any point, the failure is reported to the code that asked for it: by the "
     "operation itself, or, for background and asynchronous writes, by a later flush or close or by waiting for the file to be closed. "
     "Success is never reported for a file of which some data, index or metadata could not be written.",
     ["fault_sequences", "inputs"], "every failing operation, at every point of every sequence of writes, on every write path",
     "Unit tests run on a healthy disk: no test makes a write, flush, close or asynchronous completion fail at a chosen point.",
     ["vrs/RecordFileWriter.cpp", "vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/IndexRecord.cpp", "vrs/FileDetailsCache.cpp"],
     [("status returned by each operation, checked by each caller", "vrs/helpers/FileMacros.h"), ("sticky error of the background thread", "vrs/RecordFileWriter.cpp"),
      ("sticky asynchronous error", "vrs/AsyncDiskFileChunk.cpp")],
     "interprocedural path-sensitive must-use dataflow on status codes",
     "Sound for the modelled idioms on every path of every function parsed; exceptions are a frozen table of confirmed call sites; assumes callees outside the repository report failures as documented.",
     [("sticky file error", "first failure of the background writer")])
prop("P02", "Read, seek and parse failures reach the caller",
     "When opening, reading, seeking, parsing or decoding a file fails, the operation that needed the data reports the failure instead of returning success with stale, partial or made up data. "
     "Only operations documented as best effort (rebuilding an index, falling back from a cache or preview) may carry on.",
     ["fault_sequences", "inputs"], "every failing read, seek or decode step of every file, including truncated and corrupt files",
     "Tests read healthy files and a few hand-made truncated ones; each error return inside the readers is its own case.",
     ["vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp", "vrs/FileHandler.cpp", "vrs/IndexRecord.cpp", "vrs/DescriptionRecord.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/MultiRecordFileReader.cpp"],
     [("status returned by each operation, checked by each caller", "vrs/helpers/FileMacros.h")],
     "interprocedural path-sensitive must-use dataflow on status codes",
     "Sound for the modelled idioms on every path of every function parsed; exceptions are a frozen table of confirmed call sites.")
prop("P03", "Utilities and tools report failed operations",
     "Copying, merging, extracting, validating, image and audio export, and the command line tools report a failure (error status, false, or non-zero exit status) when an operation they depend on fails. "
     "Skipping damaged source records, and image jobs run in the background, are best effort and excluded.",
     ["fault_sequences", "inputs", "configurations"], "every command and utility, every operation of it that can fail",
     "Tool tests check a handful of successful command lines; output failures are never provoked.",
     ["vrs/utils/FilterCopy.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/Validation.cpp", "vrs/utils/DataExtractor.cpp", "vrs/utils/PixelFramePng.cpp", "tools/vrs/VrsCommand.cpp"],
     [("status propagation", "vrs/utils"), ("exit status", "tools/vrs/VrsCommand.cpp")],
     "interprocedural path-sensitive must-use dataflow on status codes",
     "Sound for the modelled idioms on every path of every function parsed; exceptions are a frozen table of confirmed call sites.")
prop("P11", "Corrupt sizes don't drive memory allocation",
     "Whatever a file contains, the counts and sizes read from it (index, description, details cache, compressed frames, datalayout index, string and map data) are limited by the bytes available "
     "or by a fixed limit before memory is reserved or allocated for them, so a corrupt or malicious file makes an operation fail instead of exhausting memory. "
     "The size of a record, which a record header may give as up to 4 GB, is the only size trusted.",
     ["inputs"], "every size or count field of every file structure, with every value",
     "A corrupt value can be in any field; tests use valid files and a few truncated ones.",
     ["vrs/IndexRecord.cpp", "vrs/DescriptionRecord.cpp", "vrs/FileDetailsCache.cpp", "vrs/DataLayout.cpp", "vrs/DiskFile.cpp", "vrs/Decompressor.cpp"],
     [("limits checked before allocation", "vrs/IndexRecord.cpp"), ("content size limited by the bytes available", "vrs/Decompressor.cpp")],
     "interprocedural taint analysis with forward must-facts (linear inequalities) at every allocation site",
     "Sound for the allocation calls and file number sources listed; flow-insensitive taint, path-sensitive limits, parameters lifted to all callers in the repository.")
prop("P12", "Size and offset arithmetic doesn't wrap",
     "Computations of sizes, counts, positions and offsets never wrap around, are never truncated before being widened, and never divide by zero, whatever the content of a file, of a datalayout, or the arguments of an API: "
     "when data is inconsistent, it is detected, instead of a huge size being used to read, seek or allocate.",
     ["inputs"], "every subtraction, 32 bit product and division of sizes, for every file content and argument",
     "Wrap around requires specific inconsistent values of two or more fields; tests use consistent data.",
     ["vrs/DescriptionRecord.cpp", "vrs/IndexRecord.cpp", "vrs/DataLayout.cpp", "vrs/RecordReaders.cpp", "vrs/RecordFormat.cpp", "vrs/utils/PixelFrame.cpp"],
     [("bytes left checked before each read", "vrs/DescriptionRecord.cpp"), ("remaining sizes of a record", "vrs/RecordReaders.cpp")],
     "forward must-facts dataflow (linear inequalities with callee summaries) proving an obligation per arithmetic site",
     "Every unsigned subtraction, division and widened 32 bit computation of the library, utilities and tools is proven or in a frozen per-function table with its reason.")
prop("P31", "No access outside of buffers",
     "Whatever the content of a file, path, uri, record or argument, elements of strings, vectors, arrays and deques are accessed only within their bounds, front() and back() only when there is one, "
     "and data is copied, read or written only within the memory of the container it belongs to.",
     ["inputs"], "every element access and memory transfer, for every file content and argument",
     "An out of bounds access needs a particular empty, short or inconsistent input, and often goes unnoticed without a sanitizer.",
     ["vrs/FileSpec.cpp", "vrs/DataLayout.cpp", "vrs/DescriptionRecord.cpp", "vrs/DiskFile.cpp", "vrs/RecordFileReader.cpp", "vrs/utils/PixelFrame.cpp", "vrs/helpers/Strings.cpp"],
     [("bounds checked before access", "vrs/DataLayout.cpp")],
     "forward must-facts dataflow (linear inequalities, emptiness, callee summaries) proving an obligation per access site",
     "Every container access of the library, utilities and tools is proven or in a frozen per-function table with its reason; raw pointers of unknown extent are not decided.")
prop("P14", "Reading a recording never modifies it, nor any other file",
     "Opening, indexing, reading, describing, checking and comparing recordings opens files for reading only, and creates, changes, truncates, renames or deletes none, except in the application's file cache. "
     "The only exception is repairing the index in place: only when the caller of openFile() asked for it, only when the index was found incomplete, and the file is then opened again read-only; the vrs tool only asks in its fix-index command. "
     "A file handler which opened a file for reading refuses to write, overwrite or truncate it, whatever it was used for before.",
     ["programs", "histories", "configurations"], "every path in the call graph from the reading functions (readers, index, file handlers, record readers, description, validation, filters)",
     "Recordings are archived data: a wrong open mode, or a repair nobody asked for, changes them without any test noticing, since what is read is the same.",
     ["vrs/RecordFileReader.cpp", "vrs/MultiRecordFileReader.cpp", "vrs/IndexRecord.cpp", "vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/utils/RecordFileInfo.cpp", "vrs/utils/Validation.cpp", "tools/vrs/VrsCommand.cpp"],
     [("open modes", "vrs/DiskFileChunk.hpp"), ("read-only flag", "vrs/DiskFile.cpp"), ("autoWriteFixedIndex", "vrs/RecordFileReader.cpp"), ("index repair", "vrs/IndexRecord.cpp")],
     "interprocedural effect analysis: each effect on files is propagated through the call graph with the conditions on flags and parameters under which it occurs",
     "Stream players (which are the application's) aren't followed from readRecord(); logging isn't an effect.")

prop("P16", "Existing files stay readable: the file format is frozen",
     "The layout of the structures written to files, the values of the enums, magic numbers, versions, labels and names stored in them, and the datalayout types that can be recreated from a file, "
     "are never changed, removed or given another meaning; new ones may only be added.",
     ["configurations", "histories"], "every structure, persisted value and name, for every file written by any version",
     "Round trip tests write and read with the same code, so they pass when both sides change together.",
     ["vrs/FileFormat.h", "vrs/IndexRecord.h", "vrs/RecordFormat.cpp", "vrs/DataLayout.cpp", "vrs/DataPieces.h", "vrs/StreamId.h", "vrs/Record.cpp", "vrs/FileDetailsCache.cpp"],
     [("packed structures", "vrs/FileFormat.h"), ("name tables", "vrs/RecordFormat.cpp")],
     "comparison of the type-checked program's layouts, enum values, constants and tables with a frozen specification",
     "Exact for every structure, enum, constant and table enumerated in vx/format_spec.json.")
prop("P20", "What is written in a description can be read back",
     "Every key and field of the descriptions saved in files (json of datalayouts, file specs and tag sets, text of image, audio and content block formats) is both written and read back, "
     "into the same data member, by every class which has it.",
     ["inputs", "histories"], "every key of every description, for every type of datalayout piece",
     "Tests compare a few descriptions; a key forgotten on one side for one type, or exchanged on both sides, goes unnoticed.",
     ["vrs/DataLayout.cpp", "vrs/FileSpec.cpp", "vrs/TagConventions.cpp", "vrs/DescriptionRecord.cpp", "vrs/RecordFormat.cpp"],
     [("json serialization", "vrs/DataLayout.cpp"), ("content block description", "vrs/RecordFormat.cpp")],
     "writer and reader key extraction over the call graph, compared with each other and with a frozen set",
     "Keys and the data members they go with are compared; values and conditions under which a key is written are not.")
prop("P24", "Copies, comparisons and resets cover the whole object",
     "Copying, moving, comparing with == and !=, swapping, and clearing or resetting an object takes care of every one of its data members, each with the same member of the other object; "
     "only members documented as caches, configuration or results of an operation are left alone.",
     ["inputs", "histories"], "every data member of every class with its own copy, comparison, swap or reset",
     "A forgotten member only shows when an object with a particular value of it is copied, compared or reused.",
     ["vrs/RecordFormat.h", "vrs/RecordFormat.cpp", "vrs/FileSpec.cpp", "vrs/RecordFileReader.cpp", "vrs/utils/FilterCopyHelpers.cpp", "vrs/utils/PixelFrame.h"],
     [("member-wise operations", "vrs/RecordFormat.h")],
     "data member coverage of special methods over the call graph",
     "Every user-written copy, move, ==, !=, swap, clear() and reset() of the sources parsed; that each member is handled with the right value is only decided for constants and member pairs.")
prop("P04", "A file never refers to what wasn't written",
     "While a file is written, and wherever writing stops, what was committed is consistent: after the header which starts a new file, the file header is only updated last, after the index or split head it refers to was written successfully, and with the offset "
     "where it was written; a record is added to the index only after it was written successfully, and every record written is added; "
     "file sizes and pending index entries are updated only after the matching write succeeded; success of closing a file requires that its index and header were completed.",
     ["crash_points", "fault_sequences"], "every order of the writes of every path, for every failure and interruption point",
     "Tests read complete files: the order of writes, and the state left by an interruption or a failure in the middle, isn't observed.",
     ["vrs/RecordFileWriter.cpp", "vrs/IndexRecord.cpp", "vrs/DiskFileChunk.hpp", "vrs/DescriptionRecord.cpp"],
     [("index finalized before the header refers to it", "vrs/IndexRecord.cpp"), ("record written before it is indexed", "vrs/RecordFileWriter.cpp")],
     "path-sensitive typestate on the commit operations (file header, index, record writes) over inlined control flow",
     "Order of operations and their status on every path of every function performing one; durability of the storage itself (fsync) isn't part of the property.")
prop("P05", "Chunk notifications announce complete chunks",
     "When the new chunk handler of a writer is called, the chunk it announces is complete: it was closed, or the next chunk was successfully added after it. "
     "Each completed chunk is announced once, with its own path and index, and only the last chunk of a file is flagged as the last.",
     ["histories", "fault_sequences"], "every sequence of chunks, split heads and failures of a file written with a chunk handler",
     "Tests don't look at the state of a chunk while it is announced, nor make closing or adding chunks fail.",
     ["vrs/RecordFileWriter.cpp", "vrs/NewChunkHandler.h", "vrs/IndexRecord.cpp", "vrs/DiskFile.cpp"],
     [("NewChunkNotifier records the identity of the current chunk", "vrs/NewChunkHandler.h"), ("notification after addChunk or close", "vrs/RecordFileWriter.cpp")],
     "typestate analysis of notifiers and files on every path",
     "Sound for notifiers held in local variables, on every path of the functions using them; a custom file handler's own chunking isn't analysed.")
prop("P06", "Files replaced atomically are whole or absent",
     "A details cache or compressed file written through AtomicDiskFile shows up under its name only once it was entirely written and closed without error. "
     "When writing it fails, what was written is deleted, and the file which had that name is left alone.",
     ["crash_points", "fault_sequences"], "every failure, at every point of writing such a file",
     "Tests write these files on a healthy disk, without interruption.",
     ["vrs/DiskFile.cpp", "vrs/DiskFile.h", "vrs/FileDetailsCache.cpp"],
     [("unique temporary name, rename on close, abort", "vrs/DiskFile.cpp"), ("abort on failure", "vrs/FileDetailsCache.cpp")],
     "typestate analysis of atomic files on every path",
     "Sound for AtomicDiskFile objects held in local variables; crashes of the operating system (which may reorder a rename and data) are out of scope.")
prop("P07", "Threads sharing data don't race",
     "What several threads use (records being created, collected, written and purged, recordables, streams, job queues, event channels, write buffers, registries, static caches, "
     "and what the threads saving a file, purging records, compressing records, saving file details and saving images work on) is atomic, or is always accessed while holding the lock that guards it; "
     "references to it aren't used once the lock is released; and what a background thread reads isn't changed while it runs. This includes the calls a user may make, from other threads, while a file is being recorded.",
     ["schedules"], "every interleaving of the library's threads with the calls made while they run",
     "Races need a particular interleaving, and often have no visible effect when they happen: tests don't run under a race detector and use few threads.",
     ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/RecordFileReader.cpp", "vrs/os/Event.cpp", "vrs/helpers/JobQueue.h", "vrs/AsyncDiskFileChunk.cpp", "vrs/FileHandlerFactory.cpp"],
     [("data of the writer thread guarded by a mutex or atomic", "vrs/RecordFileWriter.cpp"), ("records guarded by the record manager's mutex", "vrs/RecordManager.cpp"), ("background saving of file details joined first", "vrs/RecordFileReader.cpp")],
     "lockset analysis: flow-sensitive sets of locks held, guards inferred from the majority of accesses, escape and worker-thread lifetime analysis",
     "Every access of the fields of classes with a lock or used by a background thread. Which lock guards a field is inferred from how it is used; objects documented for use by one thread at a time, and the vrsplayer GUI, are out of scope.")
prop("P08", "Threads never deadlock on locks",
     "Locks are always taken in the same order, a lock that isn't recursive is never taken twice by a thread, no thread waits for another thread (to end, or to notify it) while holding a lock that the other thread needs to get there, "
     "and a lock taken is released on every path, however a function returns.",
     ["schedules"], "every interleaving, over every pair of locks and every wait of the library",
     "A deadlock needs threads to be at precise places at the same time; tests rarely get there, and a path that doesn't release a lock may be an error path they don't take.",
     ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/DataLayout.cpp", "vrs/os/Event.cpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/utils/ImageExtractor.cpp", "vrs/FileHandlerFactory.cpp"],
     [("lock acquisition", "vrs/RecordManager.cpp"), ("waiting for the writer thread to end", "vrs/RecordFileWriter.cpp"), ("global datalayout lock", "vrs/DataLayout.cpp")],
     "lock-order graph and lock typestate, interprocedural over the call graph",
     "Sound for the locks of the library, identified by class and field; callbacks of the user (which could call back with a lock held) aren't analysed.")
prop("P09", "Background threads end, and waits are woken up",
     "Whoever waits for a background thread to end first asked it to end, then woke it up, and joins it before the thread object or the data it uses is destroyed; "
     "a thread that waits for something checks for it again after each wake-up, also stops waiting when its object is being ended, and whatever makes what it waits for true is done under the same lock and followed, on every path, by a notification of all the threads concerned; "
     "a background thread is told of the records and requests made to it.",
     ["schedules", "histories"], "every interleaving of the threads waiting with those that end, fill and notify",
     "A lost wake-up or a thread left behind shows up only in rare interleavings, and in tests looks like a slow or hung run at worst.",
     ["vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/RecordFileWriter.cpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/RecordFileReader.cpp", "vrs/utils/ImageExtractor.cpp"],
     [("job queue", "vrs/helpers/JobQueue.h"), ("event channel", "vrs/os/Event.cpp"), ("end of the writer and purge threads", "vrs/RecordFileWriter.cpp"), ("asynchronous write buffers", "vrs/AsyncDiskFileChunk.cpp")],
     "typestate analysis of thread lifetimes and condition-variable protocol analysis (predicates, notifications on all paths, locks)",
     "Every thread, condition variable and event channel of the library, on every path of the functions involved; whether a thread's own work terminates isn't decided.")
prop("P25", "Records are kept, merged and searched in one order",
     "Records are indexed, merged, sorted for writing and searched in one order: by timestamp, then stream id, then place in the file (or order of creation). "
     "Every function which compares elements to sort them, to search among them or to order a container is a strict weak order, in which different ids differ, and operator== agrees with operator<. "
     "An index which is read or rebuilt ends up sorted when one of its records isn't in order; a record added to the sorted records to write goes where it keeps them sorted; "
     "and a lookup by time finds the first record at or after that time, whatever its stream, including a record at exactly that time.",
     ["inputs", "histories"], "every comparison function, every sort, search and ordered container of records, every place where an index or a sorted list of records grows",
     "Orders are wrong only for records with the same timestamp, records written out of order, or times which are exactly those of a record, which samples rarely have.",
     ["vrs/IndexRecord.h", "vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/MultiRecordFileReader.cpp", "vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/StreamId.h", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/FilterCopy.cpp"],
     [("RecordInfo::operator<", "vrs/IndexRecord.h"), ("sortErrorCount_", "vrs/IndexRecord.cpp"), ("lookups by time", "vrs/RecordFileReader.cpp"), ("merge", "vrs/MultiRecordFileReader.cpp"), ("sorted batches", "vrs/RecordFileWriter.cpp")],
     "abstract evaluation of the comparison functions over the relative order of what they compare, and path analysis of the code which adds to sorted sequences",
     "Timestamps are taken as numbers (not NaN); comparison functions which loop (those of file names) aren't decided; what's in the cache of a file's details is trusted.")

prop("P27", "Malformed input is rejected, not fatal",
     "Whatever is in the text that a file, a path, a URI, a command line, a tag or a JSON description holds, it's handled or reported through the interface's own error values: "
     "no exception thrown for bad input (by number parsers, positions out of range, missing keys, file system errors, or VRS's own throw expressions) comes out of a VRS function, a thread, a destructor or a tool; "
     "and a JSON value is only used as the type it was checked to be, whatever the JSON document looks like.",
     ["inputs", "configurations"], "every call that can throw for bad input, every path up the call graph from it; every access to a JSON value",
     "Malformed input is unbounded, and most of it is never near a test: a number that overflows, a link that leads nowhere, a folder that can't be read, a description which is an array.",
     ["vrs/helpers/Strings.cpp", "vrs/helpers/Rapidjson.hpp", "vrs/FileSpec.cpp", "vrs/DataLayout.cpp", "vrs/DescriptionRecord.cpp", "vrs/os/Utils.cpp", "vrs/os/FileList.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/RecordFileInfo.cpp", "vrs/utils/cli/CliParsing.cpp", "vrs/utils/PixelFrame.cpp"],
     [("handlers around number parsers", "vrs/utils/cli/CliParsing.cpp"), ("file system calls with an error_code", "vrs/os/Utils.cpp"), ("typed access to JSON values", "vrs/helpers/Rapidjson.hpp")],
     "exception effect analysis up the call graph with the handlers' types, sources discharged by must-facts on their arguments; typestate of JSON values",
     "Memory exhaustion, failures to start a thread or lock a mutex, and third party libraries other than the C++ library and rapidjson are left out; so is the depth of JSON documents. Functions where the reason a call can't throw is out of reach are excused one by one, with a count.")

prop("P29", "What may be missing is checked before it's used",
     "Whatever calls are made and in whatever order (before a file was opened, after it was closed or failed to open, without the optional thread, handler, decoder, player or callback), and whatever a lookup finds, "
     "a pointer that may be null, an optional or function object that may be empty, and an iterator that may be at the end, are never dereferenced or called without having been checked.",
     ["inputs", "histories"], "every use of a pointer, optional, function object or iterator that may be null, empty or at the end, on every path to it",
     "Tests call things in the usual order, with the optional parts there, and look up what exists.",
     ["vrs/DiskFile.cpp", "vrs/RecordFileReader.cpp", "vrs/MultiRecordFileReader.cpp", "vrs/RecordFileWriter.cpp", "vrs/DataLayout.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/ContentBlockReader.cpp"],
     [("operations on a file which isn't open", "vrs/DiskFile.cpp"), ("optional writer, purge and compression threads", "vrs/RecordFileWriter.cpp"), ("lookups of records and streams", "vrs/RecordFileReader.cpp")],
     "nullness analysis: reaching definitions that may be null, discharged by forward must-facts, requirements of private functions propagated to callers",
     "Pointer parameters are taken to be valid unless the function itself checks them. Functions where the reason a pointer is set is out of the analysis' reach are excused one by one, with a count.")
prop("P30", "Nothing is used after its lifetime",
     "Objects aren't used after they were deleted, freed, recycled or moved from; iterators, references, pointers and views into a container, string or owned object aren't used after it was changed in a way that invalidates them, or was destroyed; "
     "functions don't return, keep or hand over to threads and callbacks pointers, views or references to their local variables and temporaries.",
     ["inputs", "histories"], "every path on which an element is removed, a container grown, an object moved, deleted or goes out of scope, and everything used after it",
     "Memory that was freed or moved from usually still reads as it did: tests pass unless run under a sanitizer, on the precise path.",
     ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp", "vrs/utils/Validation.cpp", "vrs/helpers/Strings.cpp"],
     [("records recycled and deleted", "vrs/RecordManager.cpp"), ("records written then recycled", "vrs/RecordFileWriter.cpp"), ("chunks vector and current chunk", "vrs/DiskFile.cpp"), ("write buffers handed to completion callbacks", "vrs/AsyncDiskFileChunk.cpp")],
     "lifetime dataflow: what each local points into, invalidated by mutations (with callee summaries), moves, deletes and scope ends; escape of references to locals",
     "Within a function, with summaries of what the functions it calls change; pointers kept in fields across calls aren't followed.")
prop("P22", "What is acquired is released, once it's no longer used, on every path",
     "Whatever vrs opens, creates or allocates by hand (files, file descriptors, png, jpeg, opus and zstd objects, memory), takes out of a list which owned it, or releases from its owner, "
     "is closed, destroyed, recycled, returned or given to a new owner on every path out of the function, the failing ones included; "
     "what is kept in a member is released by the destructor of its class, and before the member is given another value or none.",
     ["inputs", "fault_sequences", "histories"], "every path from each acquisition to the end of its function, and every class keeping something it acquired",
     "A leak makes no test fail, and most are on the failing paths of codecs and files that no test takes; a service writing recordings for days eventually has no descriptor or memory left.",
     ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp", "vrs/Compressor.cpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/DiskFileChunk.hpp", "vrs/FileHandlerFactory.cpp", "vrs/utils/PixelFramePng.cpp", "vrs/utils/PixelFrameJpeg.cpp", "vrs/utils/AudioBlockOpus.cpp"],
     [("records are recycled or deleted", "vrs/RecordManager.cpp"), ("file handles", "vrs/DiskFileChunk.hpp"), ("compression contexts", "vrs/Compressor.cpp"), ("codecs", "vrs/utils/PixelFramePng.cpp")],
     "acquire/release typestate over each function's paths, with callee summaries of what they release, and destructor / replacement rules for members",
     "What smart pointers and containers own isn't followed. Errors by which libpng jumps back are followed as an edge from setjmp.")

prop("P32", "Nothing is read before it was given a value",
     "An object just constructed has a value in each of its numbers, flags, pointers and enums, whichever constructor made it, so that every method may be called on it; "
     "and a local variable was given a value on every path before it's read, also where the function asked to provide that value only does so when it succeeds.",
     ["inputs", "histories"], "every constructor of the library, and every path from the declaration of a local to each of its reads",
     "What was never set usually is zero in a test, and depends on what the memory was used for before in a real program.",
     ["vrs/RecordFileWriter.h", "vrs/RecordFileReader.h", "vrs/DiskFile.h", "vrs/RecordFormat.h", "vrs/DataPieceValue.h", "vrs/helpers/Rapidjson.hpp", "vrs/utils/PixelConversions.cpp"],
     [("members of the reader and writer", "vrs/RecordFileWriter.h"), ("content block specifications", "vrs/RecordFormat.h"), ("values read from JSON", "vrs/helpers/Rapidjson.hpp")],
     "definite-assignment dataflow on locals, with callee summaries of when output parameters are set, and a per-constructor member coverage rule",
     "Numbers, flags, pointers and enums, alone, in arrays and in objects without constructors; the content of buffers isn't followed, arrays count as set once one element is.")

# Properties that this family of technique can't decide here (see DESIGN.md, section 3)
prop("P10", "A record reads back as it was written",
     "Whatever the records, their sizes, streams, compression presets, chunk sizes, file handlers and threads used to write a file, each record handed to the writer is read back once, "
     "with the same bytes, type, format version, stream and timestamp.",
     ["inputs", "schedules"], "every set of records and every way of writing them",
     "Tests write a few shapes of records, with a few presets.",
     ["vrs/Record.cpp", "vrs/RecordFileWriter.cpp", "vrs/RecordFileReader.cpp", "vrs/Compressor.cpp", "vrs/Decompressor.cpp"],
     [("records written", "vrs/Record.cpp"), ("records read", "vrs/RecordFileReader.cpp")], "", "",
     na="Equality of values after writing and reading (through lz4 and zstd) is about the numbers computed at run time, not a structure of the source: no static argument in reach decides it. The parts of it that are structural are claimed separately: "
        "failures (P01, P02), order of writes (P04), frozen layouts (P16), descriptions (P20), sizes and offsets (P12, P31).")
prop("P13", "Reading a record stays within the record",
     "Whatever the content of a file and whatever a stream player asks for, a record's callbacks never get bytes which aren't part of that record, and reading a record after an ill-behaved player starts at that record's first byte.",
     ["inputs", "histories"], "every file and every sequence of reads by players",
     "Tests' players read exactly what was written.",
     ["vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/RecordFileReader.cpp"],
     [("bytes left in the record", "vrs/RecordReaders.cpp"), ("position of the next record", "vrs/RecordFileReader.cpp")], "", "",
     na="The bytes left in a record are counters decremented by amounts that the file, the decompressors and the players decide at run time: proving the invariant between them (over several objects and calls) needs a relational proof, not a static analysis. "
        "P12 (the counters don't wrap), P31 (buffers aren't overrun) and P02 (short reads are failures) are claimed.")
prop("P15", "Compression never makes a record larger, nor a file unreadable",
     "Whatever the data and the preset, what the compressors produce is what the decompressors expect, and data that doesn't compress well is stored as is.",
     ["inputs"], "every buffer and preset", "Tests compress a few buffers.",
     ["vrs/Compressor.cpp", "vrs/Decompressor.cpp", "vrs/Record.cpp"], [("compression", "vrs/Compressor.cpp")], "", "",
     na="About the output of lz4 and zstd on run time data: nothing in the source of vrs decides it.")
prop("P18", "Pixel conversions compute the right image",
     "For every pixel format and image size, converting, normalising, compressing and decompressing a frame yields the image which the formats' definitions say, whatever the strides.",
     ["inputs"], "every format, size, stride and content", "Tests compare a few images.",
     ["vrs/utils/PixelFrame.cpp", "vrs/utils/PixelConversions.cpp"], [("conversions", "vrs/utils/PixelConversions.cpp")], "", "",
     na="Numeric results over pixels: no rule about the source tells a right coefficient from a wrong one. Overruns (P31), wrapping sizes (P12) and values never set (P32) are claimed.")
prop("P26", "Copies and merges hold everything that the filters select, once",
     "Whatever the filters, the files copied, merged or compared, each record selected is in the output exactly once, in order, and nothing else is.",
     ["inputs"], "every file and combination of filters", "Tests use a few files and filters.",
     ["vrs/utils/FilterCopy.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/FilterCopyHelpers.cpp"], [("filters", "vrs/utils/FilteredFileReader.cpp"), ("copies", "vrs/utils/FilterCopy.cpp")], "", "",
     na="Which records a loop visits depends on run time indexes, times and filters; counting them needs a functional proof. The order and searches it relies on (P25), and the report of what failed (P03), are claimed.")
prop("P28", "Every operation ends",
     "Reading, copying, checking or decoding any file, however corrupt, ends: each loop advances on each turn, and no parser recurses without bound.",
     ["inputs"], "every file, and every loop of the library", "A test that doesn't hang tells nothing about other inputs.",
     ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.cpp", "vrs/utils/FilteredFileReader.cpp"], [("rebuilding an index", "vrs/IndexRecord.cpp")], "", "",
     na="Termination depends on run time quantities (offsets read from the file, sizes returned by reads) whose progress a syntactic or dataflow rule can't establish without raising alarms on loops that do end. Threads ending (P09) and deadlocks (P08) are claimed.")
prop("P19", "Latency, throughput and memory stay bounded",
     "Creating records never waits for the disk, the background thread keeps up as long as the device does, and buffers recycled keep the memory used bounded.",
     ["schedules"], "every load", "Tests are short and lightly loaded.",
     ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp"], [("recycled records", "vrs/RecordManager.cpp")], "", "",
     na="Quantities of time and memory at run time; nothing static bounds them.")
