"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))

p("C01", "What is recorded is what is read back",
  """Every record created by an active recordable, of any type, payload size, timestamp and content source, and not
  purged before being collected, appears exactly once when the finished file is read, with its stream, type, timestamp, format
  version and payload bytes unchanged, and file and stream tags are unchanged too. The order of records in the file
  index is by timestamp, and records of one stream with equal timestamps keep their creation order. This holds for every way of writing a file: in one call or in
  the background in several batches, with or without compression and compression threads, with or without a preallocated index, a split
  head, chunks, or sorting.""",
  ["inputs", "configurations", "histories"],
  """every combination of writing mode, index/chunk/sort/compression settings, and every sequence of records up to a bound
  over a small set of types, sizes, timestamps and streams chosen at the boundaries of the implementation""",
  """File tests write a handful of fixed files in a few modes; the interactions between modes, batch boundaries, chunk splits, sizes near
  the compression threshold and equal timestamps are not enumerated.""",
  ["vrs/RecordFileWriter.cpp", "vrs/RecordFileReader.cpp", "vrs/Record.cpp", "vrs/IndexRecord.cpp", "vrs/RecordManager.cpp", "vrs/Compressor.cpp", "vrs/Decompressor.cpp"],
  [("RecordFileWriter::writeToFile / writeRecordsAsync / closeFileAsync", "vrs/RecordFileWriter.cpp"), ("Record::writeRecord", "vrs/Record.cpp"), ("IndexRecord::Writer", "vrs/IndexRecord.cpp")],
  observe=["RecordFileReader::getIndex", "RecordFileReader::readRecord", "RecordFileReader::getTags"])

p("C02", "Recording from several threads loses, repeats and tears nothing",
  """While any number of threads create records and another one asks for them to be written, in the background or automatically, every record
  created before the file is closed is in the file exactly once and whole. Closing returns only when the file is complete, no thread is left
  waiting forever, and no data is accessed by two threads without synchronisation, for every interleaving of producers, the
  caller, the writer thread and the compression threads.""",
  ["schedules"],
  """all schedules of the real threads up to a preemption bound, over small numbers of producers, records and compression threads""",
  """Tests run a few threads under whatever schedule the machine gives; a lost wake-up or a race needs a specific interleaving.""",
  ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/IndexRecord.cpp"],
  [("writer thread and compression threads", "vrs/RecordFileWriter.cpp: RecordFileWriter::backgroundWriterThreadActivity, CompressionThreadsData"), ("record queue lock", "vrs/RecordManager.cpp")],
  observe=["RecordFileReader", "return values of waitForFileClosed/closeFileAsync"])

p("C03", "The in-memory record queue keeps the right records",
  """A recordable's queue returns records in timestamp order, each once, and only those old enough for the request, whatever the history of creating, collecting, purging and
  recycling. A purge drops only data records older than asked, and always leaves what a file needs to be readable: the latest configuration and
  state of each recordable. While a file is being written nothing is purged, and no record created is lost.""",
  ["histories", "schedules"],
  """all sequences of queue operations up to a bound against a plain list, and all schedules of the purge thread against a caller that starts a file""",
  """Unit tests follow a few fixed histories of the queue, without a concurrent purge.""",
  ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp", "vrs/Record.cpp"],
  [("RecordManager::createRecord/collectOldRecords/purgeOldRecords/recycle", "vrs/RecordManager.cpp"), ("RecordFileWriter::backgroundPurgeThread", "vrs/RecordFileWriter.cpp")],
  observe=["RecordManager API", "RecordFileWriter API", "file read back"])

p("C04", "A recording cut short keeps every record already stored",
  """If the process dies at any moment while writing a file, the file left on disk either cannot be opened as not being a VRS file yet, or opens and gives back a
  prefix of the records in the order they were written: every record whose bytes had all reached the file is found with its exact content and its tags, and nothing else is invented.
  Reading it neither crashes nor hangs, for classic, preallocated-index, and split-head/chunked files, and a cut in the
  middle of any write.""",
  ["crash_points"],
  """every prefix of the sequence of writes issued to the files by several recordings, cut at every byte class within a write, in each index mode""",
  """No test stops a recording in the middle; one sample truncated file is read.""",
  ["vrs/RecordFileWriter.cpp", "vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp"],
  [("index rebuilding", "vrs/IndexRecord.cpp: IndexRecord::Reader::rebuildIndex"), ("split index reading", "vrs/IndexRecord.cpp: readSplitIndexRecord"), ("ordering of writes", "vrs/RecordFileWriter.cpp")],
  observe=["RecordFileReader::openFile", "RecordFileReader::readRecord"])

p("C05", "Repairing an index never damages a file",
  """Opening a file that lacks a proper index with index repair enabled leaves a file that gives back the same records, with the same content and tags, as reading it without
  repair, and after a repair it opens with its index. If the process dies at any moment of the repair, or any write of the
  repair fails, no complete record that was readable before is lost, and repairing again reaches the same result.""",
  ["crash_points", "fault_sequences"],
  """every crash state of a recording that needs a repair, times every prefix of the writes made by the repair, times a failure of each of these writes""",
  """Tests repair one or two fixed files once, without interruption.""",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp"],
  [("writing a rebuilt index", "vrs/IndexRecord.cpp: IndexRecord::Reader::rebuildIndex")],
  observe=["RecordFileReader::openFile(autoWriteFixedIndex)", "file bytes"])

p("C06", "A write that fails is never passed over in silence",
  """If any operation on the output fails while a file is created, written, split in chunks, or closed (a write that is refused or only partly done, a seek, a flush, a
  close, the creation of the next chunk), the status of the whole recording, given by the synchronous call or when waiting for the file to be closed, is an error, or the file is complete and correct nonetheless.
  No failure makes the writer crash, hang, or lose the ability to close and start another file.""",
  ["fault_sequences"],
  """a failure of each single output operation (and pairs of failures) of several recordings in each writing mode""",
  """Tests only use storage that works.""",
  ["vrs/RecordFileWriter.cpp", "vrs/DiskFile.cpp", "vrs/IndexRecord.cpp", "vrs/Compressor.cpp", "vrs/Record.cpp"],
  [("status propagation", "vrs/RecordFileWriter.cpp"), ("DiskFile error handling", "vrs/DiskFile.cpp")],
  observe=["return values of writeToFile, createFileAsync, waitForFileClosed"])

p("C07", "A read that fails is reported, and never yields wrong data",
  """When any read or seek on the storage fails or comes up short while a file is opened or its records read, the operation reports an error, or delivers data identical to what it
  delivers without the failure. A reader that failed can be closed, used for other records, and reopened, and then works as a new one.""",
  ["fault_sequences"],
  """a failure of each storage operation made while opening and reading files of every kind, followed by a retry""",
  """Tests only use storage that works.""",
  ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/DescriptionRecord.cpp", "vrs/DiskFile.cpp"],
  [("status propagation when reading", "vrs/RecordFileReader.cpp, vrs/RecordReaders.cpp, vrs/Decompressor.cpp")],
  observe=["return values of openFile, readRecord", "payload delivered to stream players"])

p("C08", "Damaged or foreign files are handled without harm",
  """Opening and reading any file, truncated anywhere or with any bytes altered, ends in bounded time with either an error or records, without reading or writing outside
  of its buffers, without crashing, and without allocating memory out of proportion with the file. Records whose bytes, index entry and description were not altered still read back exactly.""",
  ["inputs"],
  """every truncation and every alteration of each header and index field to boundary values, and of each byte to several values, of small files of each kind""",
  """Tests read a few damaged samples; the space of damaged files is not enumerated.""",
  ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.cpp", "vrs/DescriptionRecord.cpp", "vrs/Decompressor.cpp", "vrs/FileFormat.cpp", "vrs/DataLayout.cpp", "vrs/RecordFormatStreamPlayer.cpp"],
  [("sanity checks on headers and sizes", "vrs/FileFormat.cpp, vrs/IndexRecord.cpp, vrs/DescriptionRecord.cpp, vrs/Decompressor.cpp")],
  observe=["RecordFileReader", "memory safety checkers"])

p("C09", "The index tells the truth about the file",
  """For every file the writer produces, the list of records given by the stored index equals the list found by scanning the file, and the list given by a details cache written from it:
  same records, offsets, streams, types and timestamps in the same order, whatever the number of records,
  batches, chunks, and index kind.""",
  ["inputs", "configurations"],
  """all small files over a set of record shapes, and all index kinds, plus sizes around the internal batch limits""",
  """Tests compare a few files; equal timestamps, out-of-order records and batch boundaries are not enumerated.""",
  ["vrs/IndexRecord.cpp", "vrs/FileDetailsCache.cpp", "vrs/RecordFileReader.cpp"],
  [("IndexRecord::Writer", "vrs/IndexRecord.cpp"), ("IndexRecord::Reader", "vrs/IndexRecord.cpp"), ("FileDetailsCache::write/read", "vrs/FileDetailsCache.cpp")],
  observe=["RecordFileReader::getIndex"])

p("C10", "Record queries give what a scan of the index would give",
  """For any index and any sequence of queries, finding records by stream, type, time, nearest time, rank, or file position, counting them, listing streams, and finding streams by tag or flavor
  give the result defined by scanning the index, whatever was queried before. Stream and timestamp boundaries, absent streams and types, and equal timestamps included.""",
  ["inputs", "histories"],
  """all small indexes over two streams, three record types and a few timestamps, times all queries and all pairs of consecutive queries""",
  """Tests query a few files at a few points.""",
  ["vrs/RecordFileReader.cpp", "vrs/RecordFileReader.h"],
  [("RecordFileReader::getRecord*, getNearestRecordByTime", "vrs/RecordFileReader.cpp")],
  [("lastRequest_", "memo of the last rank query", "vrs/RecordFileReader.h")],
  observe=["RecordFileReader query API"])

p("C11", "Reading several files together is a faithful merge",
  """Opening related files together presents each stream of each file under exactly one unique stream id, with its tags, and all their records exactly once, in
  timestamp order, each record reading back as it does from its own file. Every query answers for the merged view what a scan of it would, and a record or stream id of the merged view leads
  back to the right file.""",
  ["inputs", "configurations"],
  """all small sets of files with equal, different and colliding stream ids and timestamps, times all queries""",
  """Tests merge a few fixed files.""",
  ["vrs/MultiRecordFileReader.cpp", "vrs/MultiRecordFileReader.h"],
  [("UniqueStreamId assignment, record comparison and lookups", "vrs/MultiRecordFileReader.cpp")],
  observe=["MultiRecordFileReader API"])

p("C12", "Filtering and copying select exactly what was asked",
  """Filtering a file by streams, record types, time range, or decimation selects exactly the records the filter describes, in file order, plus the configuration and state records needed before the range; and
  copying or merging the selection yields a file with exactly these records, unchanged in content, timestamps, versions and stream tags, whatever the copy's compression, chunking and index options.""",
  ["inputs", "configurations"],
  """all small source files times all filter settings times copy options""",
  """Tests copy a few sample files with a few options.""",
  ["vrs/utils/FilteredFileReader.cpp", "vrs/utils/FilterCopy.cpp", "vrs/utils/FilterCopyHelpers.cpp", "vrs/utils/ThrottleHelpers.cpp"],
  [("FilteredFileReader::iterateAdvanced/buildFilter", "vrs/utils/FilteredFileReader.cpp"), ("filterCopy, filterMerge", "vrs/utils/FilterCopy.cpp")],
  observe=["copied file read back", "FilteredFileReader::buildFilter"])

p("C13", "A chunked file behaves as one array of bytes",
  """Reading, seeking, skipping, querying and overwriting a file made of any chunks gives the results of the same operations on one contiguous array of bytes; writing appends to the current chunk, adding a chunk splits the
  file without changing its content, and truncation keeps exactly the bytes before it. Positions, sizes, end-of-file and byte counts reported agree with
  that array at every step, and errors are reported for reads past the end.""",
  ["histories"],
  """all sequences of file operations up to a bound over small files with every small chunking""",
  """Tests walk through a few fixed sequences.""",
  ["vrs/DiskFile.cpp", "vrs/DiskFile.h", "vrs/DiskFileChunk.hpp"],
  [("DiskFileT", "vrs/DiskFile.cpp")],
  observe=["DiskFile API", "bytes on disk"])

p("C14", "The asynchronous file writes the same bytes, or says it failed",
  """A file written through the asynchronous disk file ends up with the same bytes, sizes and statuses as through the plain disk file, for each of its write engines, buffer settings, and every order in which the operating system completes
  its writes. When a write fails, at submission or at completion, an error is reported no later than at close, and nothing hangs, and no buffer is reused before its write is complete.""",
  ["histories", "schedules", "fault_sequences"],
  """all short sequences of operations times engines and buffer settings, all completion orders of pending writes, and a failure of each write""",
  """Tests run the engines on a working disk, which completes writes in one order.""",
  ["vrs/AsyncDiskFileChunk.cpp", "vrs/AsyncDiskFileChunk.h", "vrs/DiskFile.cpp"],
  [("buffer free list and write pump", "vrs/AsyncDiskFileChunk.cpp")],
  observe=["AsyncDiskFile API", "bytes on disk"])

p("C15", "Record payloads read the same however they are asked for",
  """Whatever the compression of a record, the way its payload is requested, in one or several reads, into one or two buffers, with parts skipped or left unread, delivers the same bytes
  in order as reading it whole; requests beyond its end fail without delivering more, sizes reported are exact, and the next record is unaffected.""",
  ["inputs", "histories"],
  """all ways of partitioning small payloads into read requests and buffers, for every compression, and payload sizes around internal buffer limits""",
  """Tests read whole records, or in a few fixed parts.""",
  ["vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/DataReference.cpp", "vrs/Compressor.cpp", "vrs/DataSource.cpp"],
  [("RecordReader::read", "vrs/RecordReaders.cpp"), ("Decompressor", "vrs/Decompressor.cpp"), ("DataReference", "vrs/DataReference.cpp")],
  observe=["RecordReader", "RecordFileReader::readRecord"])

p("C16", "Job queues and event channels lose nothing and wake everyone",
  """Every job sent to a queue that is not cleared is received exactly once, jobs of one sender in order, by some receiver that is waiting, without the wait having to
  expire; ending a queue releases every receiver at once, and cancelling removes exactly the selected jobs and hands them to the clean-up function. An event dispatched while listeners wait wakes one of them, or all of them for a broadcast channel, and
  a listener looking back in time gets the event it missed.""",
  ["schedules", "histories"],
  """all schedules up to a preemption bound of small numbers of senders and receivers, and all operation sequences up to a bound against a list""",
  """Tests run fixed schedules with sleeps.""",
  ["vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/os/Event.h"],
  [("JobQueue", "vrs/helpers/JobQueue.h"), ("EventChannel", "vrs/os/Event.cpp")],
  observe=["JobQueue API", "EventChannel API"])

p("C17", "Structured metadata survives storage and layout evolution",
  """Every value set in a data layout, fixed-size or variable-size, is read back equal after being stored in a record and read with the same layout, and no access goes outside of the data actually
  present. Reading with a different layout gives each field present under the same name and type in both its stored value, and each other field its default; describing a layout and rebuilding it
  from the description gives an equivalent layout.""",
  ["inputs", "programs", "configurations"],
  """all small layouts over the field kinds, all small contents, all pairs of writer/reader layouts, all truncations of the stored data""",
  """Tests use a few fixed layouts and contents.""",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieceValue.h", "vrs/DataPieceArray.h", "vrs/DataPieceVector.h", "vrs/DataPieceString.h", "vrs/DataPieceStringMap.h", "vrs/DataSource.cpp"],
  [("DataLayout mapping, staging and collection", "vrs/DataLayout.cpp, vrs/DataPiece*.h")],
  observe=["DataPiece get/set/stage", "DataLayout::mapLayout", "DataLayout::asJson / makeFromJson"])

p("C18", "Record formats describe content exactly",
  """Converting any record or content block format to text and back gives an equal format, and the sizes computed for the blocks of a record, from the formats, the record size and the metadata read before, add up to the record and match what was written.
  Each block read is delivered in order, once, with its exact bytes; a format that does not fit the record is reported, not guessed.""",
  ["inputs", "configurations"],
  """all content block formats over the enumerations and parameters, all record formats up to three blocks, all block sizes up to a bound""",
  """Tests convert and read a few formats.""",
  ["vrs/RecordFormat.cpp", "vrs/RecordFormat.h", "vrs/ContentBlockReader.cpp", "vrs/RecordFormatStreamPlayer.cpp"],
  [("ContentBlock/RecordFormat text conversion and size computation", "vrs/RecordFormat.cpp"), ("ContentBlockReader", "vrs/ContentBlockReader.cpp")],
  observe=["RecordFormat::asString", "RecordFormatStreamPlayer callbacks"])

p("C19", "File specs and stream names round-trip through text",
  """Converting any file specification to JSON and back gives an equal specification, and one read from a path, JSON or URI is given back in a form that designates the same file; a URI is split into scheme, decoded path
  and well formed decoded query values as written, or rejected, and any stream id converts to its numeric name and back; text that is not a valid name, number or URI is rejected without reading past its end.""",
  ["inputs"],
  """all short strings over the characters the parsers distinguish, and all specifications with small fields""",
  """Tests convert a list of examples.""",
  ["vrs/FileSpec.cpp", "vrs/StreamId.cpp", "vrs/helpers/Strings.cpp", "vrs/helpers/Rapidjson.hpp"],
  [("FileSpec::fromPathJsonUri, toJson, parseUri", "vrs/FileSpec.cpp"), ("StreamId::fromNumericName", "vrs/StreamId.cpp")],
  observe=["FileSpec", "StreamId"])

p("C20", "Players see each record once, in order, on the right stream",
  """Reading records calls the player attached to the record's stream, and only it, once for each record, with the record's true header, before and after hooks in order, and its data only if the player
  asked for it; a player that refuses a record, leaves data unread, or reports an error does not disturb the records that follow. Reading all records visits the whole index in order, up to the first error a player reports, which it returns.""",
  ["histories", "configurations"],
  """all small files times all assignments of players and of their answers for each record""",
  """Tests use players that accept everything.""",
  ["vrs/RecordFileReader.cpp", "vrs/StreamPlayer.h", "vrs/RecordFormatStreamPlayer.cpp"],
  [("RecordFileReader::readRecord, readAllRecords", "vrs/RecordFileReader.cpp")],
  observe=["StreamPlayer callbacks"])

p("C21", "Replacing a file is all or nothing",
  """A file written through the atomic file helper, and a details cache saved with it, is seen by a reader, at every moment and after a crash or a failed write at any point, as the previous version or
  the complete new one (or is missing, only when the system refuses the rename that replaces it), never as a partial one; two writers of the same name do not mix their data; and a file's
  details cache that is truncated, extended, of another kind or for another size of file is refused: opening the file gives what it gives without a cache.""",
  ["crash_points", "fault_sequences", "inputs"],
  """every prefix of the storage operations of a save, a failure of each of them, and every damage of a small cache file""",
  """Tests save and load once on working storage.""",
  ["vrs/DiskFile.cpp", "vrs/FileDetailsCache.cpp", "vrs/FileCache.cpp"],
  [("AtomicDiskFile", "vrs/DiskFile.cpp"), ("FileDetailsCache::write/read", "vrs/FileDetailsCache.cpp")],
  observe=["directory content", "FileDetailsCache::read"])

p("C22", "Pixels are converted exactly, whatever the values, size and alignment",
  """Converting 10-bit packed pixels (RAW10, GREY10PACKED) to 8, 10 or 16 bits and back, and RGBA, BGR, grey and YUY2 pixels to RGB, gives, for every pixel value, width, height, stride and buffer alignment, the values defined
  by the format; it never touches memory outside of the pixels given, and the 10-bit conversions refuse lines and buffers too small for the image. Normalizing floating point images keeps the order of the pixels, within bounds,
  with not-a-number black.""",
  ["inputs"],
  """all values of each packed group, and all geometries and alignments up to several vector widths, including sizes that overflow 32 bits""",
  """Tests convert a few buffers of a few sizes.""",
  ["vrs/utils/converters/Grey10PackedConverters.cpp", "vrs/utils/converters/Raw10ToGrey10Converter.cpp", "vrs/utils/PixelConversions.cpp"],
  [("converters", "vrs/utils/converters"), ("pixel_conversions", "vrs/utils/PixelConversions.cpp")],
  observe=["output buffers", "return values"])

p("C23", "Video frames are decoded only in a decodable order",
  """A video stream's frame handler decodes a frame only if it is the key frame of a group or the direct successor of the last frame decoded in the same group; when a frame of a group is skipped it asks for the key frame
  and index it needs, and never decodes a frame on a wrong basis, for every order in which records are visited.""",
  ["histories"],
  """all sequences of visited frames up to a bound, over several groups of pictures, with failures of the decoder at each point""",
  """Tests play one video forward.""",
  ["vrs/utils/VideoFrameHandler.cpp", "vrs/utils/VideoFrameHandler.h", "vrs/utils/VideoRecordFormatStreamPlayer.cpp"],
  [("VideoFrameHandler::tryToDecodeFrame", "vrs/utils/VideoFrameHandler.cpp")],
  observe=["decoder calls", "return values"])

p("C24", "Stream ids are unique, and scoped resets stay scoped",
  """Recordables created by any threads in any order get distinct stream ids, numbered upwards for each type; while a scoped reset of the numbering is alive other threads' recordables wait, and when it ends
  the numbering goes on as if it had not happened.""",
  ["schedules", "histories"],
  """all schedules up to a preemption bound of threads creating recordables with and without scoped resets, and all short sequences""",
  """Tests create recordables from one thread.""",
  ["vrs/Recordable.cpp", "vrs/Recordable.h"],
  [("getNewInstanceId, TemporaryRecordableInstanceIdsResetter", "vrs/Recordable.cpp")],
  observe=["Recordable::getStreamId"])

p("C25", "Each chunk is announced once, when it is final",
  """When a file is recorded in chunks with a chunk handler, every chunk of the file is announced exactly once, with its path and index, only after its content is final; exactly one announcement, the last, is marked as the last, also when the head of the
  file is a separate chunk, and for every number and size of records and chunk size limit.""",
  ["configurations", "histories"],
  """all small recordings times chunk size limits, split head or not, and numbers of batches""",
  """One test counts the chunks of a few fixed recordings.""",
  ["vrs/RecordFileWriter.cpp", "vrs/NewChunkHandler.h", "vrs/DiskFile.cpp"],
  [("NewChunkNotifier", "vrs/NewChunkHandler.h"), ("chunk creation", "vrs/RecordFileWriter.cpp")],
  observe=["NewChunkHandler::newChunk", "chunk bytes at notification and at the end"])

p("C26", "Checksums and comparisons detect every difference",
  """Two files with the same streams, tags and records compare equal and have the same checksums, however they were written; files that differ by one record's
  content, timestamp, type, presence or stream, or one tag, compare different and have different checksums.""",
  ["inputs", "configurations"],
  """all small pairs of files that differ by one edit out of a complete set of edits, and all pairs of writing modes of the same content""",
  """Tests compare a few copies, mostly equal.""",
  ["vrs/utils/Validation.cpp", "vrs/utils/xxhash/xxhash.cpp"],
  [("checkRecords, compareRecords, recordsChecksum", "vrs/utils/Validation.cpp")],
  observe=["return values and checksums"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
