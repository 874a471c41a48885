"""The harnesses (how each is built) and the checks (which harness decides which property, and how)."""

HARNESSES = {
    "sync": dict(src=["sync.cpp"], variant="tsan", sched=True),
    "layout": dict(src=["layout.cpp"], variant="asan"),
    "diskfile": dict(src=["diskfile.cpp"], variant="asan"),
    "query": dict(src=["query.cpp"], variant="asan", sched=True),
    "record": dict(src=["record.cpp"], variant="asan", sched=True),
    "concurrent": dict(src=["concurrent.cpp"], variant="tsan", sched=True),
    "chunks": dict(src=["chunks.cpp"], variant="asan", sched=True, fs=True),
    "payload": dict(src=["payload.cpp"], variant="asan"),
    "atomic": dict(src=["atomic.cpp"], variant="asan", sched=True, fs=True),
    "pixels": dict(src=["pixels.cpp", "pixels_simd.cpp"], variant="asan", utils=True, flags="-msse4.2"),
    "corrupt": dict(src=["corrupt.cpp"], variant="asan", utils=True),
    "video": dict(src=["video.cpp"], variant="asan", utils=True),
    "ids": dict(src=["ids.cpp"], variant="tsan", sched=True),
    "asyncfile": dict(src=["asyncfile.cpp"], variant="tsan", sched=True, wrap=["open", "open64", "close", "pread", "pread64", "pwrite", "pwrite64", "ftruncate", "ftruncate64", "lseek", "lseek64", "aio_write", "aio_write64", "aio_error", "aio_error64", "aio_return", "aio_return64"]),
    "filter": dict(src=["filter.cpp"], variant="asan", sched=True, utils=True),
    "compare": dict(src=["compare.cpp"], variant="asan", sched=True, utils=True),
    "formats": dict(src=["formats.cpp"], variant="asan"),
    "specs": dict(src=["specs.cpp"], variant="asan"),
    "crash": dict(src=["crash.cpp"], variant="asan", sched=True, fs=True),
}

TSAN = "ThreadSanitizer watches every explored schedule, so a data race on it is reported whatever its timing"
SCHED = "a context switch can only matter at a synchronisation operation (mutex, condition variable, semaphore, thread creation or join, std::atomic access, sleep); races in between are ThreadSanitizer's part"

OPS = "the C library functions interposed (fopen, fread/fwrite through a cookie, ftruncate, rename, remove) are all the ways a DiskFile reaches storage"

CHECKS = {
    "C16": dict(
        harness="sync", level="model_checking",
        technique="stateless model checking of the real JobQueue and EventChannel under a controlled scheduler, preemption-bounded, plus exhaustive operation sequences against a list",
        note="Every schedule within the preemption bound of the listed scenarios of senders, receivers, listeners and dispatchers, on the real code; every job-queue operation sequence to a fixed depth. Assumes: " + SCHED + ".",
        assumptions=[SCHED, TSAN, "virtual time: a timed wait may expire while others can run, at the cost of one deviation"]),
    "C01": dict(
        harness="record", level="model_checking",
        technique="exhaustive enumeration, within a deviation bound, of recording histories and options on the real writer and reader, against the list of records created",
        note="Every history of up to 3 (thorough 4) steps of record creation, asynchronous writes, late streams and second files, with every writing mode, within 3 (5) deviations from the plainest history; compared record by record after reading back. Thread schedules are C02's part. Assumes: contents beyond the sampled payload shapes behave as their shape does.",
        assumptions=["payload contents: patterns and noise of seven sizes around the compression threshold", "one schedule of the threads per history (C02 enumerates schedules)"]),
    "C09": dict(
        harness="record", level="model_checking", args=["--prop", "C09"],
        technique="exhaustive enumeration, within a deviation bound, of recording histories on the real writer; the stored index is compared with an independent walk of the file, with the library's own rebuilt index, and with a details cache written from it",
        note="The histories of C01 within 2 (thorough 5) deviations, and numbers of records around the index batch sizes. Assumes the scan written in the harness reads record headers as the format documents.",
        assumptions=["the harness' own walk of the file follows FileFormat.h"]),
    "C13": dict(
        harness="diskfile", level="model_checking",
        technique="exhaustive enumeration of file operation sequences on the real DiskFile, over every small chunking, compared step by step with a list of strings",
        note="Every sequence of 3 (thorough 4) reads, seeks, skips and refused writes over all chunkings of 0, 1 and 5 bytes in up to 4 chunks; sequences of 5 (6) over 5 chunks; 4 (5) updates; 5 (6) operations on a new file, for five buffer sizes. Reads and writes are separated by a seek, as the C library requires.",
        assumptions=["small files stand for large ones: offsets are only compared and added", "the C library's stdio and the file system behave as documented"]),
    "C10": dict(
        harness="query", level="model_checking",
        technique="exhaustive enumeration of small record indexes and of the queries on them, each compared with a plain scan of the list of records",
        note="Every multiset of up to 4 records over 3 streams, 3 types and times (up to 9 over fewer), every order of creation of up to 5 in unsorted files, and for each every query, at, between and beyond each value, in every pair of ranks one after the other. Ties of the nearest time may go either way.",
        assumptions=["queries only compare and count: a few streams, types and timestamps stand for many", "the harness' scan of the index, and its walk of the file for sizes, are right"]),
    "C11": dict(
        harness="query", level="model_checking", args=["--prop", "C11"],
        technique="exhaustive enumeration of sets of small files opened together, the merged view compared record by record with each file read by itself, and its queries with a scan",
        note="Every set of 1 to 3 (thorough 4) files over 6 to 8 layouts of equal, different, colliding and missing stream ids, with every choice of up to 2-3 records each; every combination of related tags; every file failing to open.",
        assumptions=["a few streams and timestamps stand for many", "each file by itself reads right (C01, C10)"]),
    "C04": dict(
        harness="crash", level="model_checking", args=["--prop", "C04"],
        technique="exhaustive enumeration of crash points of recordings on the real writer: every file operation, every point inside each write, each resulting set of files opened with the real reader",
        note="Every recording of 1 to 3 records over 6 writing modes within 2 (thorough 3) deviations; the process may die before and after each file operation, and inside each write at every byte (up to 40, then both ends). All operations issued so far are in the files, in order: the death of the process, not of the machine.",
        assumptions=[OPS, "operations reach the file system in the order they were issued (process death; the library never syncs, so nothing is promised for a power loss)"]),
    "C05": dict(
        harness="crash", level="fault_injection" if False else "model_checking", args=["--prop", "C05"],
        technique="exhaustive enumeration of interrupted recordings, and of the crash points and failing operations of repairing each, on the real code",
        note="Every interrupted file of recordings of up to 2 (thorough 3) records within 1 (2) deviations, repaired; then the same with the repair dying at every operation and inside each write, and with every operation failing, once or from then on; then repaired again. Assumes process death, not power loss.",
        assumptions=[OPS, "operations reach the file system in the order they were issued"]),
    "C06": dict(
        harness="crash", level="model_checking", args=["--prop", "C06"],
        technique="exhaustive enumeration of single and persisting failures of every file operation of recordings on the real writer; what a recording reports is compared with what reads back",
        note="Every file operation (open, write, flush, seek, truncate, close) of recordings of up to 2 (thorough 3) records in 6 writing modes within 2 (3) deviations, failing once or from then on, entirely or half way, and a second file by the same writer after that.",
        assumptions=[OPS]),
    "C07": dict(
        harness="crash", level="model_checking", args=["--prop", "C07"],
        technique="exhaustive enumeration of failing, short and early-ending reads, seeks and opens, at every operation of opening and reading complete and damaged files with the real reader",
        note="Every operation of opening and reading files of up to 3 records in 5 forms, complete, without index, or cut short, within 2 (thorough 3) deviations, and for two buffer sizes: failing or finding the end once or from then on, or coming up short once; then again with the same and a reopened reader.",
        assumptions=[OPS, "when a file's description is itself cut short, an earlier end of file cannot be told from the real one: its tags are not compared then"]),
    "C02": dict(
        harness="concurrent", level="model_checking",
        technique="stateless model checking of the real recording threads under a controlled scheduler, preemption-bounded, with ThreadSanitizer on every schedule; each file read back and compared with what the producers created",
        note="Every schedule with up to 2 (thorough 3) deviations (a preemption, or a wait that expires early) of up to two producers, the caller, the writer thread and up to two compression threads (1 deviation with two), in 20 scenarios: background, automatic and split writing, late streams, records created across two files, direct-write and large records, queue size tracking. Assumes: " + SCHED + ".",
        assumptions=[SCHED, TSAN, "few records, producers and threads stand for many", "virtual time: a timed wait may expire while others can run, at the cost of one deviation"]),
    "C03": dict(
        harness="concurrent", level="model_checking", args=["--prop", "C03"],
        technique="exhaustive operation sequences on the real RecordManager against a list, and stateless model checking of the purge thread against a caller that records a file",
        note="Every sequence of 4 (thorough 5) creations, collections, purges, and recyclings over three times and all record types, compared record by record; every schedule with up to 2 (3) deviations of the purge thread, the caller and the writer thread in 8 scenarios. Assumes: " + SCHED + ".",
        assumptions=[SCHED, TSAN, "a few timestamps and sizes stand for many: they are only compared"]),
    "C24": dict(
        harness="ids", level="model_checking",
        technique="exhaustive sequences of creations and scoped resets against a model, and stateless model checking of threads that create recordables in and out of scopes, preemption-bounded, with ThreadSanitizer on every schedule",
        note="Every sequence of 6 (thorough 8) creations of three types, scopes (nested), resets and destructions; every schedule of two threads with 4 (6) preemptions over all pairs of 9 programs, and three with 2 (4).",
        assumptions=[SCHED, TSAN, "fewer than 65536 recordables of a type, which is what the format can number"]),
    "C25": dict(
        harness="chunks", level="model_checking",
        technique="exhaustive enumeration, within a deviation bound, of chunked recordings and of each failing file operation, on the real writer; announcements compared with the chunks at that time and in the end",
        note="Every recording of up to 5 (thorough 6) records of 7 sizes around the chunk size, 4 chunk sizes, batches, compression threads, both disk file kinds, chunks taken away when announced, and a second file, within 4 (5) deviations; and every failing operation of recordings within 2 (4) deviations. The unit of the chunk size is 1 KB, by the hook.",
        assumptions=["one schedule of the threads per recording (C02 enumerates schedules)", "the chunk size only matters by comparison with the sizes of records"]),
    "C15": dict(
        harness="payload", level="model_checking",
        technique="exhaustive enumeration of the ways of asking for the payload of a record (sizes, number of requests, one or two buffers, three calls), on the real readers, against the bytes written",
        note="Every sequence of up to 3 (thorough 4) requests of 0, 1, half, all but one, all, or more than what is left, with every split in two buffers, for uncompressed, lz4 and zstd records of 0 bytes to 5 MB, around the sizes of the decoder's blocks and buffers; then the next record, of each kind, and the same one again.",
        assumptions=["request sizes other than those at the boundaries behave as their neighbours", "AddressSanitizer sees any access out of the buffers given"]),
    "C20": dict(
        harness="payload", level="model_checking", args=["--prop", "C20"],
        technique="exhaustive enumeration, within a deviation bound, of what players do with each record and of how they are attached, on the real reader; the callbacks are compared one by one with those the records define",
        note="Files of 7 records of all types and compressions in 3 streams, alone or opened together, read whole, one by one, backwards, or with a given player; up to 2 to 3 (thorough 4) of: a player shared, replaced or absent, a record refused, read in part, beyond its end, from its header, in two buffers, a player that fails, reads another record or detaches itself.",
        assumptions=["few streams and records stand for many"]),
    "C21": dict(
        harness="atomic", level="model_checking",
        technique="exhaustive enumeration of the crash points, failing operations and interleavings of saves, on the real code; what a reader finds is compared with the versions saved",
        note="Every prefix of the storage operations of a save (each write also cut at many places), a failure of each operation once or from then on, with short writes; every order of two writers of the same file; a remote file opened three times, sorted or not, in every interleaving (2, thorough 3, preemptions) of the opening and saving threads; every truncation of the cache files, and caches of other files, cut or blanked.",
        assumptions=["a file system that keeps the order of operations (no torn renames)", "a few sets of details stand for many"]),
    "C08": dict(
        harness="corrupt", level="model_checking",
        technique="exhaustive enumeration of the truncations and alterations of small files of each kind, opened, repaired, read raw and decoded with the real reader, with AddressSanitizer and a limit on the size of any allocation",
        note="11 kinds of files (layouts, images and audio, compressed or not, split, index in front, plain, or missing, old descriptions, tags records): every truncation, every byte to 5 or more values, every 4 and 8 byte word to up to 16 boundary values, insertions and removals, filled ranges, parts of other files; what reads without error is what was recorded. No allocation over 12 MB for files of a few KB.",
        assumptions=["single alterations of each field, and a few joint ones, stand for all", "AddressSanitizer sees accesses out of bounds", "a header of the file that was altered is judged for harm only"]),
    "C14": dict(
        harness="asyncfile", level="model_checking",
        technique="stateless model checking of the real asynchronous disk file over a simulated device: every completion order and every failure, differentially against the plain disk file, with ThreadSanitizer on every schedule",
        note="Every sequence of 3 (thorough 4) creations, writes, seeks, chunks, truncations, and of updates of a file of two chunks, for 8 combinations of engine, direct access and buffers; 11 longer histories under every completion order of the device's threads and 1 to 2 (3) preemptions, with one (2) failing or short operation; recordings through it. The device refuses misaligned direct access, more writes than asked for, and changes to a buffer being written.",
        assumptions=[SCHED, TSAN, "the interposed calls (open, close, pread, pwrite, ftruncate, lseek, aio_*) are all the ways an asynchronous file reaches storage", "buffers of 512 and 1024 bytes stand for larger ones"]),
    "C22": dict(
        harness="pixels", level="model_checking",
        technique="exhaustive enumeration of pixel values, geometries, strides and alignments, on the real conversion functions (portable and vectorized), against a scalar reference of each format",
        note="Every width to 36 (thorough 72), height to 3, 5 paddings of each side and 8 alignments of each buffer, in buffers of exactly the size needed; every value of each 10 bit pixel with every value of its neighbour; every y, u, v; every 16 bit value; every combination of too small, exact and overflowing sizes and strides. Floating point normalization: small images over a palette with not-a-number and infinities, to within one level.",
        assumptions=["larger images repeat what happens in small ones", "AddressSanitizer sees accesses past the end of the buffers"]),
    "C23": dict(
        harness="video", level="model_checking",
        technique="exhaustive enumeration, within a deviation bound, of the orders in which the records of a video are visited and of decoders' failures, on the real players; the calls to the decoders are compared with what the recording requires",
        note="Files of groups of pictures in one and two streams, with records in between, missing key frames, unknown codecs; every sequence of visits within the bound, with a decoding failure at each frame. A failed frame may be followed by its successor only after its key frame.",
        assumptions=["decoders that check the frames they are given stand for real codecs", "few groups and frames stand for many"]),
    "C12": dict(
        harness="filter", level="model_checking",
        technique="exhaustive enumeration of small files with all filter settings, and, within a deviation bound, of copies, merges and edited copies with their options, on the real code, against a model of the selection written from the documentation",
        note="All files of 2 to 4 records (types, streams, times) with all streams, types and time ranges, absolute, relative and around, with and without a decimator; all lists of up to 3 stream names and types; decimation by intervals and buckets of all files of up to 4 (thorough 6) records; copies, merges of 2 and 3 files, and edits, within 3 (4-5) deviations, read back with the library and compared record by record, tag by tag.",
        assumptions=["one schedule of the threads per copy (C02 enumerates schedules)", "times matter by their order and by comparison with the limits of the range"]),
    "C17": dict(
        harness="layout", level="model_checking",
        technique="exhaustive enumeration of data layouts up to four fields over all kinds of fields, of their contents, of pairs of writer and reader layouts, of descriptions and their alterations, of every truncation and of alterations of the stored data, and of copies and edits, run on the real code under the address sanitizer against values kept aside bit for bit",
        note="Round trips: all 153 field kinds (every type in values, arrays, vectors and maps) alone, twice, and with the same name, all pairs of 14 and all 4-tuples of 8 kinds, with products of contents that include limits, NaN, infinities, null characters and empty values. Evolution: all layouts of up to 2 fields out of 2 names and 8 kinds, read with all layouts of the same, with defaults and required flags. Descriptions: all kinds, defaults, tags, properties; every character replaced by 13 others, every value by 20 others, every truncation. Records: cut at every length, each index entry and each word of the variable size data replaced by 12 values. Edits: staging, patching, clones with more fields, copies from mapped layouts, for all triples. Structs: all programs of 6 (thorough 8) steps. Printing: label and string lengths up to 200 at 6 terminal widths.",
        assumptions=["which of several fields of the same name and type a layout that differs is given isn't judged", "contents read through an invalid index are only judged for harm"]),
    "C18": dict(
        harness="formats", level="model_checking",
        technique="exhaustive enumeration of content blocks and record formats over their enumerations and small parameters, of texts up to 5 words, and of records of up to three blocks with all contents tried, whole, cut and extended, read by the real code, against a model of the formats written from the documentation",
        note="Text: all image, audio and other blocks of a parameter catalogue (1.3 million), all formats of up to 3 blocks out of 36, both ways. Sizes: all pixel formats with 29 widths and heights up to 2^32-1 and strides, in exact arithmetic. Reading: all formats of up to 3 blocks out of 22, layouts with the conventions included, in records of every content tried, whole, cut by 1, 2 and all bytes and extended by 1, with and without a configuration (1.3 million records); all sequences of up to 4 (thorough 5) records out of 9 configurations of 3 format versions and data that depend on them.",
        assumptions=["a block whose size is not described is not judged when two descriptions of its size contradict each other, nor is what follows it", "reading backward in time is not judged"]),
    "C19": dict(
        harness="specs", level="model_checking",
        technique="exhaustive enumeration of all texts up to 6 or 7 characters over the characters the parsers tell apart, all stream ids and all small file specs, on the real parsers and writers, in buffers of exactly the text's size under the address sanitizer, against an independent reading of the formats",
        note="Some 24 million texts, ids and specs: every text over each parser's alphabet up to its bound, every stream id and its names, every combination of file names, chunks, schemes, sizes and extra parameters of a small catalogue through the json, uri and path forms and back.",
        assumptions=["characters outside an alphabet behave like the ordinary letters in it"]),
    "C26": dict(
        harness="compare", level="model_checking",
        technique="exhaustive enumeration, within a deviation bound, of small files with the complete set of their single edits, writing modes, filters and cuts, on the real comparison and checksum functions",
        note="All files of up to 3 (thorough 4) records within 2 (4) deviations: every pair of 6 writing modes of the same file, every single edit out of some 40 per record plus those of tags and streams, parts of files by 10 or more filters, cuts of the last chunk at each byte of its ends and every 61st in between; decoding of all lists of 2 (3) records of 7 formats and 3 sizes; byte-level comparisons of all sizes up to 34 with every difference and cut, and around the 4 MB blocks.",
        assumptions=["no two different contents tried have the same 64 bit hash", "one schedule of the threads per file written"]),
}
