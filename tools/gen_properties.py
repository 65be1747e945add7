#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the long texts stay readable and diffable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INT = "orc/encoding/int.go"
p("C01", "Integer run-length encoding is lossless",
  "Any sequence of 64-bit integers written through the integer run-length encoder (signed or unsigned) and then flushed decodes to exactly the same sequence, with nothing left over. This holds for every length, every magnitude up to the full 64-bit range, every pattern of repeats, ramps and outliers, and for every placement of flushes between values. Encoding never panics or refuses a value.",
  ["inputs", "histories"], "all finite sequences of int64/uint64 values interleaved with flushes",
  "Unit tests encode a couple of dozen hand-picked vectors; the encoder picks among four sub-encodings by data shape, run length (512-value window) and bit width, so the interesting combinations are unbounded.",
  [INT, "orc/encoding/package.go"],
  [("sub-encoding choice", INT + ": write, tryDeltaEncoding, tryPatch, writeDirect, writeShortRepeat"), ("decoder", INT + ": decode, readPatched, readBits")])
p("C02", "Integer runs on disk follow the ORC specification",
  "Everything the integer run-length encoder emits is a sequence of runs that a decoder written independently from the ORC v1 specification decodes to the original values, with legal headers, legal widths, run lengths of at most 512 and legal patch lists.",
  ["inputs", "histories"], "all sequences of int64/uint64 values and flush placements",
  "Tests round-trip through the project's own decoder, so an encoder and decoder that agree on a wrong format pass; only a few spec examples are compared byte for byte.",
  [INT], [("run headers and bit packing", INT + ": writeShortRepeat, writeDirect, writePatch, writeDelta, writeBits"), ("width table", "orc/encoding/package.go: widthEncoding")])
p("C03", "Every legal integer run is decoded correctly",
  "For every byte sequence that is legal under the ORC specification's integer run-length encoding version 2 (all four sub-encodings, every encodable bit width, any legal run length, base, delta sign, patch width, gap and patch list, signed or unsigned), the integer decoder returns exactly the values the specification assigns to it.",
  ["inputs"], "all specification-legal integer run streams, including those this project's encoder never produces",
  "Files from other writers use widths, patch lists, non-minimal headers and unsigned patched runs that the project's own encoder and the handful of sample files never show.",
  [INT], [("decoder", INT + ": decode, readPatched, readBits"), ("width table", "orc/encoding/package.go: widthDecoding")])
p("C04", "Byte and boolean run-length encoding is lossless and to specification",
  "Any sequence of bytes or booleans, with flushes anywhere between values, is encoded as byte runs that both the project's decoder and an independent specification decoder turn back into the same sequence (booleans most significant bit first, padded only up to the next byte boundary at each flush). Conversely the project's decoders return the right values for every legal byte-run stream.",
  ["inputs", "histories"], "all byte and boolean sequences, flush placements and legal byte-run streams",
  "Tests use a few short vectors; run/literal boundaries at 3, 127..130 values and encoder reuse after a flush depend on the data.",
  ["orc/encoding/byte.go", "orc/encoding/bool.go"],
  [("byte runs", "orc/encoding/byte.go: encodeBytes, DecodeByteRL, findRepeats"), ("bit packing", "orc/encoding/bool.go: Encode, Flush, DecodeBools")])
p("C05", "Scalar encodings are exact",
  "Every float and double bit pattern (including NaNs, infinities, negative zero and denormals), every 64-bit varint, every byte string and every nanosecond count 0..999999999 survives encoding and decoding unchanged. The bytes are those the ORC specification prescribes: little-endian IEEE 754 for both float widths, zig-zag base-128 varints, and trailing-zero-compressed nanoseconds.",
  ["inputs"], "all 32/64-bit patterns, byte strings and nanosecond values",
  "Tests check one or two values of each kind and only against the project's own decoder.",
  ["orc/encoding/float.go", "orc/encoding/string.go", "orc/encoding/package.go", INT],
  [("float/double", "orc/encoding/float.go"), ("varint", INT + ": varint64Encoder, DecodeVarInt64"), ("nanoseconds", "orc/encoding/package.go and orc/api/type.go: EncodingNano, DecodingNano"), ("zig-zag", "orc/encoding/package.go: Zigzag, UnZigzag")])
p("C06", "Date, timestamp and decimal values convert faithfully",
  "Converting a calendar date to its epoch day number and back gives the same date for every representable day, following the proleptic Gregorian calendar; building a timestamp from a time instant in any location and asking for the instant back gives the same instant to the nanosecond; the UTC millisecond accessor returns the wall clock of the timestamp, read as UTC, in milliseconds since the Unix epoch, and the plain one the milliseconds of the instant; and a decimal's floating-point value is its unscaled integer divided by ten to the power of its scale.",
  ["inputs", "configurations"], "all days within years 1..9999, all instants from 1800 to 2200 in every time-zone location, all 64-bit unscaled decimals and scales 0..18",
  "Tests convert a single timestamp; negative (pre-epoch, pre-2015) values, daylight-saving zones and large dates are where truncation and base errors show.",
  ["orc/api/type.go", "orc/api/vector.go", "orc/encoding/time.go"],
  [("dates", "orc/api/type.go: ToDays, FromDays"), ("timestamps", "orc/api/type.go: GetTimestamp, Timestamp.Time, GetMilliSeconds"), ("decimals", "orc/api/type.go: Decimal64")])
p("C07", "Compression chunk framing is lossless and standard",
  "For any data and any chunk size, compressing into chunks and decompressing gives the data back; every chunk has a valid three-byte header, carries at most one chunk size of original data, never takes more bytes than its data plus the three-byte header (it falls back to storing the data uncompressed), and can be inflated on its own by an independent implementation. Decompression accepts any legal mixture of compressed and original chunks produced by other writers, and with compression kind NONE data is written as it is, without chunk headers.",
  ["inputs", "configurations"], "all byte strings, chunk sizes and chunk mixtures",
  "One test checks a header constant and one compresses a single chunk; multi-chunk data, incompressible data and foreign chunk mixtures are never exercised.",
  ["orc/common/misc.go"], [("chunking", "orc/common/misc.go: CompressingAllInChunks, CompressingChunk, CompressingLeft, DecompressChunks, DecChunkHeader")])
p("C08", "Streams return what was written, chunk by chunk",
  "For every stream kind (bytes, booleans, integers, floats, strings, dates, varints), any values, any chunk size and either compression kind, the bytes a stream writer writes out have exactly the length its stream information declares, and a stream reader positioned there yields the same values in order and reports that it is finished exactly after the last one. Resetting a writer for the next stripe leaves no trace of the previous one, and a position taken between two writes lets a reader seek to exactly the next value written.",
  ["inputs", "histories", "configurations"], "all value sequences, chunk sizes, compression kinds, write/position/flush/reset histories",
  "Stream tests use one or two fixed chunk sizes with one stripe; values straddling chunk boundaries, positions, seeks and reuse are data dependent.",
  ["orc/stream/writer.go", "orc/stream/reader.go", "orc/stream/int.go", "orc/stream/bool.go", "orc/stream/byte.go", "orc/stream/float.go", "orc/stream/string.go", "orc/stream/time.go"],
  [("chunk buffering and positions", "orc/stream/writer.go: Write, Flush, WriteOut, GetPosition, Reset"), ("chunk reading and seeking", "orc/stream/reader.go: ReadByte, Read, seek, Finished")])
p("C09", "Files give back the rows that were written",
  "Reading a file the writer has closed successfully returns every row that was written, in order, each value equal to what was written (timestamps in their stored seconds and nanoseconds) and null exactly where null was written. This holds for every supported column type and struct nesting, any null pattern, any number of rows, any stripe size, chunk size, compression and index setting, any local time zone of the process, and whether or not a file of that name existed before (it is replaced).",
  ["inputs", "configurations", "histories"], "all schemas over the writable types, row sets with null patterns, writer options",
  "File tests write one schema and one option set with regular values; stripe, chunk, run and batch boundaries interact with data and null patterns.",
  ["orc/writer.go", "orc/reader.go", "orc/stripe.go", "orc/column/*.go"],
  [("writing", "orc/stripe.go: write, flushOut, forward; orc/column/*.go: Write, Flush, Reset"), ("reading", "orc/reader.go: Next; orc/stripe.go: next; orc/column/*.go: NextBatch")])
p("C10", "Batch size does not change what is read",
  "The concatenation of the batches returned by repeated reads is the same for every batch size from one row up, no batch is larger than asked for, every batch before the end holds at least one row, the end is reported no later than the read after the last row and never before it, and the total number of rows equals the reader's row count. Reading again after the end returns no rows.",
  ["inputs", "configurations", "histories"], "all batch sizes against all files, including stripe-boundary coincidences",
  "Tests read with a single batch size that rarely lines up with stripes.",
  ["orc/reader.go", "orc/stripe.go"], [("end detection", "orc/reader.go: batchReader.Next"), ("batch sizing", "orc/stripe.go: prepareVector, setVectorSize, next")],
  [("cursor", "rows delivered so far", "orc/reader.go, orc/stripe.go")])
p("C11", "How rows are split into writes does not matter",
  "Writing the same rows in one batch, row by row, or in any other split produces byte-for-byte the same file, and the caller may reuse or overwrite a batch's row slots as soon as the write returns. The batch passed to the writer is never modified.",
  ["inputs", "histories"], "all partitions of a row set into write calls",
  "Tests write each file in a single call.",
  ["orc/writer.go", "orc/stripe.go", "orc/column/*.go"], [("row-wise write loop", "orc/stripe.go: write, writeValue")])
p("C12", "Written files are valid ORC for an independent reader",
  "Every file the writer produces is decoded by an independent implementation of the ORC v1 specification to the same schema, the same rows and the same nulls. In particular every stream listed in a stripe footer can be decoded on its own, has the declared encoding and kind, and holds exactly the values the column needs.",
  ["inputs", "configurations"], "all schemas over the writable types, row sets, writer options",
  "All tests read back with the same project, so a symmetrical deviation from the format cannot be seen.",
  ["orc/writer.go", "orc/stripe.go", "orc/column/*.go", "orc/stream/*.go", "orc/encoding/*.go"],
  [("file tail", "orc/writer.go: writeFileTail"), ("stripe footer", "orc/stripe.go: writeFooter"), ("stream contents", "orc/column/*.go")])
p("C13", "File and stripe accounting is exact and options are honoured",
  "In every written file the stripes tile the space between the header and the footer exactly, stream lengths add up to the declared index and data lengths of their stripe, row counts add up to the declared total, the content length is right, and no stripe is empty. Every stripe but the last was cut because the data buffered for it had reached the configured stripe size (judged on the uncompressed data, with room for what encoders and headers add), and no stripe goes on after it had, no chunk exceeds the configured chunk size, and the compression kind and, for compressed files, the chunk size recorded are those that were configured.",
  ["inputs", "configurations"], "all schemas, row sets and writer options",
  "Tests never look at offsets and lengths; readers ignore most of them, so errors surface only in other tools or other access paths.",
  ["orc/writer.go", "orc/stripe.go"], [("tail and stripe information", "orc/writer.go: writeFileTail, Close; orc/stripe.go: flushOut, forward, writeFooter")],
  [("stripe.info", "row count and lengths of the stripe being written", "orc/stripe.go")])
p("C14", "Files from conforming writers are read correctly",
  "Any file that follows the ORC v1 specification and uses only the column types and encodings this reader supports is read to the values the file contains: direct and dictionary strings, lists and maps nested with structs, any legal run encoding, present streams left out of stripes without nulls, original and compressed chunks mixed, row indexes present or absent, several stripes, and any legal stream order.",
  ["inputs", "configurations"], "all conforming files over supported types, built by an independent writer",
  "Three or four sample files cannot cover the freedom other writers have.",
  ["orc/reader.go", "orc/stripe.go", "orc/column/*.go"], [("stripe set-up", "orc/stripe.go: init, setVectorSize"), ("column readers", "orc/column/*.go: InitStream, NextBatch")])
p("C15", "Projection returns exactly the chosen columns",
  "Reading with a set of included columns yields for each included column exactly the values a full read yields, whatever the other columns contain, and contains no vector for columns that were left out. An inclusion set that is not closed upwards to the root is refused with an error or read correctly, never with a panic or wrong data.",
  ["inputs", "configurations"], "all subsets of columns of all schemas",
  "One test reads one projection of one file.",
  ["orc/stripe.go", "orc/api/vector.go", "orc/reader.go"], [("include handling", "orc/stripe.go: init; orc/api/vector.go: BatchOption.IsInclude; orc/api/type.go: CreateVector")])
p("C16", "Seeking to a row continues exactly from that row",
  "After seeking to row n of a file, reading returns rows n, n+1, ... up to the last row, exactly as reading from the start and discarding n rows would; this holds for any sequence of seeks and reads, forwards or backwards, within and across stripes, with or without row indexes and nulls. Seeking beyond the last row is an error.",
  ["inputs", "histories", "configurations"], "all interleavings of seeks and reads on all files, with any row-index stride",
  "One test seeks to one row in one file; index entries, positions inside runs and cross-stripe state depend on history.",
  ["orc/reader.go", "orc/stripe.go", "orc/column/*.go", "orc/stream/reader.go"],
  [("row location", "orc/reader.go: Seek; orc/stripe.go: Seek"), ("stride positions", "orc/column/reader.go: getStridePositions; orc/column/*.go: SeekStride, Skip")],
  [("cursor", "next row to deliver", "orc/reader.go, orc/stripe.go")])
p("C17", "Column statistics describe the data",
  "For every column the statistics in the file footer and those the reader returns are true of the rows written: the number of non-null values, the minimum, maximum and sum (or total length, or true count) of each type, a has-null flag that is set whenever a null was written, and, in the footer, the bytes the column's data takes on disk. What a statistic cannot hold (an overflowing sum, timestamps too large for milliseconds) is left out, not wrong. A consumer that skips data by these statistics never skips a matching row.",
  ["inputs", "configurations"], "all row sets over all column types, with nulls and several stripes",
  "No test checks statistics values; wrong extremes appear only for particular signs, orders or lengths of data.",
  ["orc/column/*.go"], [("statistics update", "orc/column/*.go: Write, Flush")], [("stats", "file-level statistics per column", "orc/column/writer.go")])
p("C18", "Row indexes describe their row groups",
  "When index writing is on, every column of every stripe has a row index that can be located from the stripe footer, with one entry per started group of stride rows; the recorded positions lead a specification-conforming reader to the first row of the group, and each entry's statistics are true of exactly the rows of its group.",
  ["inputs", "configurations"], "all row sets, strides, stripe sizes, null patterns and compression settings",
  "Column tests check seeking to the first strides of a regular sequence with in-memory state; the index in the file is never read.",
  ["orc/column/*.go", "orc/stripe.go"], [("index entries", "orc/column/*.go: Write, Flush, GetIndex"), ("index output", "orc/stripe.go: flushOut, writeFooter")], [("index", "entries of the current stripe", "orc/column/writer.go")])
p("C19", "Malformed input gives an error, never a crash or a hang",
  "Opening, reading, seeking or projecting any sequence of bytes as an ORC file ends in bounded time and memory with either data or an error; it never panics, overflows the stack, loops forever or allocates without relation to the file. The same holds for the individual decoders and for decompression given arbitrary bytes; a chunk which decompresses to more than the file's chunk size is an error.",
  ["inputs"], "all byte strings, in particular mutated and structurally corrupted valid files",
  "No test reads damaged input.",
  ["orc/reader.go", "orc/stripe.go", "orc/column/*.go", "orc/stream/reader.go", "orc/common/misc.go", "orc/encoding/*.go"],
  [("tail parsing", "orc/reader.go: extractFileTail, unmarshallSchema"), ("chunk parsing", "orc/common/misc.go: DecompressChunks; orc/stream/reader.go"), ("decoders", "orc/encoding/*.go")])
p("C20", "A file cut short is never taken for a complete one",
  "If writing stops at any point before close has completed (crash, kill, full disk), what is on disk is refused by the reader when it is opened; no proper prefix of a file opens successfully and yields rows that differ from the complete file's. A complete file which was at that path before does not show through.",
  ["crash_points", "inputs"], "all proper prefixes of all written files",
  "No test truncates a file.",
  ["orc/writer.go", "orc/reader.go"], [("tail last", "orc/writer.go: Close, writeFileTail"), ("tail checks", "orc/reader.go: extractFileTail")])
p("C21", "Write failures are always reported",
  "If the storage refuses any write at any byte offset, some call to write or close returns an error; if every call including close succeeded, the file is complete and reads back in full, and rows written after close are refused. Creating, writing or closing never panics because of an I/O failure.",
  ["fault_sequences", "inputs"], "all failing byte offsets for all files and options",
  "No test injects an I/O error.",
  ["orc/writer.go", "orc/stripe.go", "orc/stream/writer.go", "orc/column/*.go", "orc/io/file.go"], [("error propagation", "orc/writer.go: Close, writeFileTail; orc/stripe.go: flushOut; orc/stream/writer.go: WriteOut")])
p("C22", "Readers and writers do not disturb each other",
  "Any number of readers and writers working at the same time, on the same or different files, interleaved or in parallel goroutines each owning its own reader or writer, behave as if each ran alone. Several batch readers of one open file are independent of each other, and values already returned to the caller do not change when reading goes on. If the path of an open file comes to name another file (renamed over it), what the reader gives is the rows of the file it opened or an error, never the other file's.",
  ["schedules", "histories"], "all interleavings of operations on independent readers and writers, with the race detector watching parallel ones",
  "All tests use one reader or writer at a time.",
  ["orc/reader.go", "orc/writer.go", "orc/api/*.go", "orc/stream/reader.go", "orc/io/file.go"], [("per-stream file handles", "orc/io/file.go: Clone; orc/column/*.go: InitStream"), ("no shared state", "orc/api/type.go: NormalizeSchema, CreateVector")])
p("C23", "Schema and options survive the file",
  "The schema a reader reports has the same tree of kinds, the same field names in the same order and column numbers in pre-order, the reader's compression kind, chunk size (of compressed files) and index stride are those the file was written with, and its row count is the number of rows written. Vectors created from a schema mirror its tree, restricted to the included columns, with room for the requested batch size.",
  ["inputs", "configurations"], "all schema trees, names and option combinations",
  "One test marshals one schema; names, nesting and numbering combine freely.",
  ["orc/api/type.go", "orc/reader.go", "orc/writer.go", "orc/api/vector.go"], [("schema conversion", "orc/api/type.go: NormalizeSchema, Flat, SchemasToTypes; orc/reader.go: unmarshallSchema"), ("vectors", "orc/api/type.go: CreateReaderVector, CreateWriterVector")])
p("C24", "Closing releases every file handle",
  "After a reader and its batch readers, or a writer, are closed, no file descriptor opened for them stays open, including when creation, reading, seeking or writing failed part-way. A failed open leaves no descriptor behind, and closing a writer reports a close failure.",
  ["histories", "fault_sequences", "inputs"], "all histories of open, read, seek, write, fail and close over all schemas and damaged files",
  "No test looks at open descriptors; leaks depend on the column types, null patterns and error paths taken.",
  ["orc/column/*.go", "orc/stripe.go", "orc/reader.go", "orc/writer.go", "orc/io/file.go", "orc/stream/reader.go"], [("close chain", "orc/reader.go: Close; orc/stripe.go: Close; orc/column/*.go: Close; orc/stream/reader.go: Close")])
p("C25", "Missing data is an error, never made up",
  "If a stream of a file holds less than its column needs (it ends early before or after compression, inside or between chunks, is empty or not there at all, a row index is cut, a stripe is left out of the footer or claims more rows than it has), reading gives the true rows up to some point and then an error: never rows which are not in the file, and never an end of data before all rows without an error. After the error, seeking to rows whose data is there gives the true rows or an error. Only a PRESENT stream may be left out, which means no nulls.",
  ["inputs", "histories"], "all files with any stream shortened at any byte, read in any batches and after any seeks",
  "Tests read whole files only; a reader which goes on into the neighbouring stream, or keeps half of a dictionary after an error, gives plausible rows.",
  ["orc/stream/*.go", "orc/column/*.go", "orc/stripe.go", "orc/reader.go", "orc/encoding/*.go"], [("end of a stream", "orc/stream/reader.go: readAChunk, Read, ReadByte"), ("dictionary loading", "orc/column/string.go: StringDictionaryV2Reader.NextBatch"), ("errors stay", "orc/stripe.go: stripeReader.next, Seek")])
p("C26", "Invalid calls are refused and change nothing",
  "A batch the schema cannot hold (a value of another type, a null in a column without nulls, columns of different lengths, missing, surplus, nil, swapped or misnumbered children, a date or a timestamp outside what its column can store) is refused by Write with an error, never a panic, and nothing of it is written: later writes work, and the file is the same as without the refused call. A seek past the end and a batch of another shape are refused by the reader, and reading goes on exactly where it was. Options, encodings and types which cannot be written are refused when the writer is created.",
  ["inputs", "histories"], "all tables, all invalid batches and calls at any point between valid ones",
  "Tests make valid calls only; a partly written batch or a moved position shows only in the rows which come after.",
  ["orc/writer.go", "orc/reader.go", "orc/stripe.go", "orc/column/package.go", "orc/api/vector.go"], [("check of batches", "orc/writer.go: CheckBatch, checkVector, isValueOf"), ("check of options and schemas", "orc/writer.go: checkOptions, checkSchemas; orc/column/package.go: NewWriter"), ("reader", "orc/reader.go: Next, Seek, checkIncludes; orc/column/reader.go: PrepareVector")])
p("C27", "Columns can be written to and read from any file",
  "The streams a column writer puts out after a flush, read back by a column reader from any File - one that returns fewer bytes than asked for, or the last bytes together with the end of the file, and whose clones start anywhere - give the values and nulls written, from the start and after seeking to a row group and skipping, for every stripe of one writer, with rows of null parents left out, and whatever another reader of the same File does. If a read, a seek or a clone of the File fails, calls that need what did not come return an error, never other values; if the destination of the streams fails or takes fewer bytes, writing out returns an error. Closing a reader closes every clone it made, and nothing else.",
  ["inputs", "histories", "fault_sequences"], "all columns of all leaf types, row sets, options, files and faults",
  "Column tests use one file in memory which never fails and gives all bytes at once.",
  ["orc/column/*.go", "orc/stream/*.go", "orc/io/file.go"], [("opening streams", "orc/column/reader.go: open, InitIndex"), ("reading", "orc/stream/reader.go: readAChunk, seek"), ("writing out", "orc/stream/writer.go: WriteOut; orc/column/*.go: WriteOut")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
