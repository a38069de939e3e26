"""Text of the properties: source of properties.jsonl and MANIFEST.json, see
tools/gen.py."""

STREAM = ["hachoir/stream/input.py", "hachoir/stream/input_helper.py", "hachoir/stream/stream.py"]
FIELD = ["hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py",
         "hachoir/field/field.py", "hachoir/field/fake_array.py",
         "hachoir/field/seekable_field_set.py"]


def P(title, statement, over, text, why, files, mechanism, state=(), observe=(), note="",
      hook=False):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, state=state, observe=observe, note=note, hook=hook)


PROPS = {}

PROPS["S01"] = P(
    "Every kind of input stream returns the bytes it was given",
    "Whatever the medium (memory, seekable file, pipe of unknown size, part of another stream, "
    "list of fragments, several levels of these), a read of any bytes or bits returns exactly "
    "the data of the medium at this address, and data outside of the stream is reported as "
    "missing or as an error, never invented, shifted or taken from outside of the stream. "
    "Searches return the first occurrence, and no other, of the searched bytes in the given "
    "range, wherever the internal block boundaries are. This holds for any order of the reads "
    "and however the medium cuts its answers (short reads).",
    ["inputs", "histories", "fault_sequences"],
    "All contents, all nestings of media, all sequences of reads, bit reads, searches, size "
    "requests and views, for any cut of the answers of the medium.",
    "Tests read a few constants at a few addresses of a string or file; they never use a pipe "
    "which returns short reads, nor interleave operations on nested streams.",
    STREAM, ["InputStream", "InputIOStream", "InputPipe", "InputSubStream", "FragmentedStream",
             "ConcatStream", "StringInputStream"],
    [("InputPipe.buffers", "blocks of the pipe kept in memory, in LRU order"),
     ("InputStream._size", "size, unknown until the end of a pipe is reached")],
    ["read", "readBytes", "readBits", "readInteger", "searchBytes", "size"])

PROPS["S02"] = P(
    "A failed read leaves an input stream as usable as before",
    "When the medium fails (an I/O error, an interrupted call, a failed allocation, at any read "
    "and any number of times), the stream reports an error and never returns wrong data as if "
    "the read succeeded. Once the medium works again, every later read of the stream and of the "
    "streams built on it returns the right data, as if no fault had happened.",
    ["fault_sequences", "histories"],
    "All sequences of operations on all media, with faults at any of the system calls.",
    "No test makes a medium fail.",
    STREAM, ["InputPipe", "InputIOStream", "InputStream._feed"],
    [("InputPipe._partial, buffers", "what was read before the fault")],
    ["read", "searchBytes", "size"])

PROPS["S03"] = P(
    "File views of a stream behave as independent read-only files",
    "A file object made from a stream behaves as a read-only file with the content of this "
    "stream: reads, seeks and positions are those of such a file, whatever the whence, also "
    "when the size of the stream is not known yet. Two file objects of a stream, and the stream "
    "itself, do not share their position: any interleaving of their operations gives the same "
    "results as separate runs.",
    ["histories", "schedules", "inputs"],
    "All interleavings of operations on several views of the same stream and on the stream.",
    "Tests never interleave two views of the same stream.",
    STREAM, ["FileFromInputStream", "InputStream.file"],
    [("FileFromInputStream._offset", "position of the view")],
    ["file().read", "file().seek", "file().tell"])

PROPS["S04"] = P(
    "Contents stored in a document do not depend on how they are read",
    "The contents stored in a document (members of an archive, compressed data, files of a file "
    "system cut in fragments, streams of a container) are the ones which were stored, complete "
    "and in order. They do not depend on what was read before: any order of opening, reading at "
    "any offset, parsing and dropping of several contents, mixed with accesses to the fields of "
    "the document, gives the same bytes.",
    ["histories", "schedules", "inputs"],
    "All orders of accesses to the contents of generated archives and file systems (zip, tar, "
    "ar, gzip, bzip2, zlib, cab, FAT12, FAT16, FAT32) and of the documents of the corpus.",
    "Tests open at most one content of a document, after nothing else was read.",
    ["hachoir/field/sub_file.py", "hachoir/field/fragment.py", "hachoir/field/link.py",
     "hachoir/stream/input.py", "hachoir/parser/archive/", "hachoir/parser/file_system/fat.py"],
    ["CompressedField", "CustomFragment", "Fragment", "FragmentedStream", "SubFile"],
    [("FragmentGroup.items", "fragments known so far"),
     ("CompressedStream.offset", "position in the compressed data")],
    ["getSubIStream", "stream.read", "stream.file"])

PROPS["F01"] = P(
    "The field tree does not depend on the order in which it is accessed",
    "Fields are parsed lazily, when they are accessed; the tree which is found at the end (names, "
    "types, addresses, sizes, values, texts) is the same whatever was accessed before, in "
    "which order, by how many unfinished iterations at the same time, and whatever was asked "
    "and missing. Arrays of fields have the items and the length that the tree shows.",
    ["schedules", "histories", "inputs"],
    "All documents, undamaged or damaged, of the parsers, and all schedules of accesses (by name, "
    "index, address, iteration, array, size, description, ...).",
    "Tests parse each document in one order only, and read a few fields of it.",
    FIELD + ["hachoir/parser/"],
    ["lazy feeding of field sets by generators", "_feedUntil", "readFirstFields", "__iter__",
     "FakeArray", "RootSeekableFieldSet"],
    [("_field_generator", "the parser of a field set, suspended"),
     ("_fields", "fields which are already parsed")],
    ["fields, sizes, values and descriptions of the tree"])

PROPS["F02"] = P(
    "Fields of a tree are consistent with each other and with the bytes",
    "In a completely parsed document, damaged or not, the fields of a set have different names, "
    "a path which leads back to the field, integer sizes and addresses; they follow each other "
    "without hole nor overlap (in the formats which are read sequentially), lie inside of the "
    "set, and their sizes add up to the size of the set. The value of an "
    "integer or raw field is the one of the bytes at its address, and a lookup by address gives "
    "the field which covers it.",
    ["inputs", "fault_sequences"],
    "All documents of the corpus, generated documents and random grammars, with any damage of the "
    "medium.",
    "Tests check the values of a few fields of undamaged documents.",
    FIELD, ["_addField", "_fixLastField", "_stopFeeding", "replaceField", "writeFieldsIn"],
    [("_current_size", "sum of the sizes of the fields")],
    ["address", "size", "path", "value", "getFieldByAddress"])

PROPS["F03"] = P(
    "Parsing any data ends, in bounded time, with a tree or a documented error",
    "Whatever the bytes (truncated, corrupted or hostile documents, or any document given to the "
    "wrong parser), parsing them entirely and asking the value, display and description of every "
    "field ends after a bounded amount of work and memory. The only errors that reach the user "
    "are the documented ones (stream, parser and field errors); the field tree stays usable "
    "after them.",
    ["inputs", "fault_sequences"],
    "All documents with any sequence of damages of the medium, and all pairs of a document and a "
    "parser.",
    "Tests parse valid documents only, except two truncated ones.",
    FIELD + ["hachoir/parser/", "hachoir/core/"],
    ["autofix of field sets", "parser validation", "loops of the parsers"],
    [("autofix", "repair of a set whose parser failed")],
    ["exceptions", "number of loop iterations", "size of the tree"])

PROPS["F04"] = P(
    "Documents opened in the same process do not influence each other",
    "Any number of documents can be guessed, parsed, read and have their metadata extracted at "
    "the same time in one process, in any interleaving (also several times the same document, "
    "damaged ones, and documents which are dropped and collected): each of them gives the "
    "parser, the fields, the contents and the metadata that it gives alone in a fresh process.",
    ["schedules", "histories", "inputs"],
    "All interleavings of work on several documents, damaged or not, of all the parsers.",
    "A test opens one document at a time, and a document which passes alone in a suite says "
    "nothing of another one which follows it.",
    ["hachoir/parser/", "hachoir/field/", "hachoir/metadata/", "hachoir/stream/input.py"],
    ["state of classes and modules", "guessParser", "extractMetadata", "caches"],
    [("attributes of classes", "tables which are shared by all the documents")],
    ["fields", "contents", "metadata"])

PROPS["F05"] = P(
    "Results are a function of the document",
    "The parser which is chosen, the order in which parsers are tried, the field tree, the "
    "contents, the metadata and the embedded files found by hachoir-subfile (with what is "
    "printed) depend on the document and on the options only, not on the process: not on the "
    "order of sets and dictionaries, which depends on the hashes of strings and classes of this "
    "process.",
    ["configurations", "inputs"],
    "All documents, all queries of parsers, all hash functions.",
    "Tests run in one process with one hash order, and do not compare it with another.",
    ["hachoir/parser/guess.py", "hachoir/parser/parser_list.py", "hachoir/subfile/",
     "hachoir/metadata/", "hachoir/regex/"],
    ["QueryParser", "guessParser", "HachoirParserList", "SearchSubfile", "PatternMatching"],
    [("sets and dictionaries of classes", "iteration order")],
    ["parser", "fields", "metadata", "output of hachoir-subfile"])

PROPS["F07"] = P(
    "Transient read errors never give wrong fields, and leave no trace",
    "When reads of the medium fail or are cut while a document is parsed, the fields which are "
    "shown still are consistent with each other and with the bytes: a value which was read is "
    "the one of the bytes at the address of the field; what could not be read is missing (None) "
    "or an error. Once the medium works again, a new parser on the same stream gives exactly the "
    "field tree and the contents that a medium without faults gives.",
    ["fault_sequences", "inputs"],
    "All documents and all sequences of faults of the reads of the medium.",
    "No test makes a read fail.",
    FIELD + ["hachoir/stream/input.py", "hachoir/parser/", "hachoir/field/fragment.py"],
    ["InputIOStream", "Field.value", "FieldError", "autofix", "CompressedField"],
    [("buffers of the stream", "what was read before the fault"),
     ("caches of values", "value of a field")],
    ["fields", "values", "contents"])

PROPS["O01"] = P(
    "An output stream writes exactly the bits it is given",
    "The bytes received by the output are the concatenation, in order and in the bit order of "
    "each write, of what was written: bits, bytes, integers, copies of parts of input streams, "
    "at any bit alignment; bits which do not fill a byte are kept until they do. Values which "
    "do not fit are refused and write nothing. What a failing output received is a beginning of "
    "the right output, the error reaches the caller, and data read back is what was written.",
    ["inputs", "histories", "fault_sequences"],
    "All sequences of writes and copies, on outputs which fail or take a part of the data only "
    "and from inputs which fail.",
    "Tests write a few aligned bytes in memory.",
    ["hachoir/stream/output.py"], ["OutputStream", "StringOutputStream", "copyBitsFrom"],
    [("_bit_pos, _byte", "bits waiting for the end of the byte")],
    ["writeBit", "writeBits", "writeBytes", "writeInteger", "copyBitsFrom", "copyBytesFrom"])

PROPS["E01"] = P(
    "An edited document is the original one with exactly the edits",
    "After any sequence of edits (values, deletions, insertions at any place and level), the "
    "editor shows the fields of the original in their order with exactly these edits (names, "
    "sizes, addresses, lengths, arrays), and the document written is the original one, byte for "
    "byte and bit for bit, except for the edits. Values which do not fit in the field, names "
    "which are used and fields which are missing are refused and change nothing. A write which "
    "fails (full disk, read error of the original) reports it, has written a beginning of the "
    "right document, and changes nothing for the next one; the original is never modified.",
    ["inputs", "histories", "fault_sequences"],
    "All documents which are parsed sequentially, with any history of edits, observations and "
    "writes, and faults of the input and of the output.",
    "Tests do two edits of one gzip file, on media which never fail.",
    ["hachoir/editor/fieldset.py", "hachoir/editor/field.py", "hachoir/editor/typed_field.py",
     "hachoir/stream/output.py"],
    ["EditableFieldSet", "EditableField", "NewFieldSet", "writeInto"],
    [("_inserted, _deleted, _fields", "edits of a set")],
    ["names", "size", "address", "writeInto"])

PROPS["E02"] = P(
    "A stripped document is the original one without the removed fields",
    "hachoir-strip never modifies the original. When it succeeds, the new file is the original "
    "byte for byte, without the fields of the asked kinds (metadata, useless, index), with "
    "the sizes, offsets and check sums which depend on them fixed; a document which has none of "
    "them, or of an unknown format, gives no new file. A disk which fails never gives exit "
    "status 0 with an incomplete new file, and stripping the result again changes nothing.",
    ["inputs", "fault_sequences"],
    "All documents of the supported formats (PNG, JPEG, MPEG audio, AU, RIFF, TAR), all levels, "
    "several documents per command, all faults of the disk.",
    "No test runs hachoir-strip.",
    ["hachoir/strip.py", "hachoir/editor/", "hachoir/stream/output.py"],
    ["BasicStripper", "RiffStripper", "TarStripper", "stripEditor"],
    [("stripped_bytes", "size of what was removed")],
    ["files written", "exit status"])

PROPS["M01"] = P(
    "Metadata are always given, and depend on the document only",
    "Extracting metadata never raises an error, whatever the damages of the document and the "
    "read errors of its medium. The metadata of a document are the same from a fresh parser, "
    "after any accesses to its fields, a second time, and after transient read errors stopped. "
    "Exports agree with each other: values are unique, not empty, within the limits of length "
    "and of dates, and a lower priority gives a part of the lines of a higher one.",
    ["inputs", "histories", "fault_sequences"],
    "All documents of the formats which have metadata, damaged or not, any quality, history of "
    "accesses and faults of the reads.",
    "Tests extract once the metadata of valid documents and look at a few values.",
    ["hachoir/metadata/", "hachoir/field/"],
    ["extractMetadata", "fault_tolerant", "Data.add", "Metadata.exportPlaintext"],
    [("Metadata data", "values of each key"), ("MultipleMetadata groups", "parts of a document")],
    ["exportPlaintext", "exportDictionary", "getText", "values"])

PROPS["M02"] = P(
    "hachoir-metadata gives for many files what it gives for each of them",
    "Run on several files, hachoir-metadata prints for each of them, in order, exactly the lines "
    "of its metadata (type or MIME type), whatever the other files are: unknown, damaged, "
    "missing, unreadable or failing. Each file without result has an error message, and the "
    "exit status is 0 if and only if every file has a result; it never ends with an unexpected "
    "error.",
    ["inputs", "fault_sequences", "configurations"],
    "All lists of documents and file names, options, and faults of the disk.",
    "Tests never run the command on several files nor on failing ones.",
    ["hachoir/metadata/main.py", "hachoir/parser/guess.py", "hachoir/stream/input_helper.py"],
    ["processFiles", "processFile", "createParser"],
    [("config", "options, which are global")], ["standard output", "exit status"])

PROPS["M03"] = P(
    "The metadata of a document are the facts which it records",
    "The metadata of a valid document of a supported format hold, for each of the facts which "
    "the document records where its format says so (size, resolution, duration, rates, dates, "
    "author, title, members of an archive...), exactly the recorded values, and their text is "
    "this value in the documented unit. This holds whatever the quality asked for, the order in "
    "which the fields were read, short reads, and read errors which stopped. A file whose name "
    "ends with an extension of its format is recognised as a document of this format.",
    ["inputs", "histories", "fault_sequences"],
    "All valid documents of 29 formats with their optional parts, sizes and values, histories "
    "of accesses and faults of the reads.",
    "Tests look at a few values of a few documents of the corpus, read once without fault.",
    ["hachoir/metadata/", "hachoir/parser/", "hachoir/core/tools.py"],
    ["extractMetadata", "createParser", "Data.add", "parseDatetime", "humanDuration"],
    [("Metadata data", "values of each key"), ("MultipleMetadata groups", "parts of a document")],
    ["values of the metadata", "texts of the values", "identifier of the parser"])

PROPS["G01"] = P(
    "hachoir-grep finds all the strings of the documents, where they are",
    "hachoir-grep prints exactly the strings of the documents which contain the pattern (all of "
    "them if asked), in the order of the document, with the right file, address, path and value "
    "as selected by its options. When its output is closed early or the disk fails, what was "
    "printed is a beginning of this, and a closed output is not an error.",
    ["inputs", "fault_sequences", "configurations"],
    "All documents, damaged or not, patterns, options, and faults of the disk and of the output.",
    "Tests grep one pattern in one document.",
    ["hachoir/grep.py", "hachoir/field/generic_field_set.py"],
    ["Grep.grep", "ConsoleGrep.onMatch", "FieldSet.reset"],
    [("fields of the tree", "forgotten after they were searched")],
    ["standard output", "exit status"])

PROPS["T01"] = P(
    "A function run with a time limit is interrupted, and leaves no trace",
    "A function run with a time limit gives its own result or error when it ends in time, and is "
    "interrupted by a Timeout error when the limit (rounded up to a second) has passed, not "
    "before. At any point where the signal arrives, and whatever the function does, the signal "
    "handler of the application is restored afterwards and no alarm is left; an alarm which the "
    "application had set still comes, and nested limits all apply.",
    ["schedules", "histories"],
    "All trees of functions with limits, times of arrival of the signal and stalls of the "
    "process.",
    "No test uses time limits, and races of a signal can't be tested on real time.",
    ["hachoir/core/timeout.py"], ["limitedTime", "signalHandler", "fixTimeout"],
    [("handler of SIGALRM, timer", "state of the process")],
    ["result", "Timeout", "signal.getsignal", "timers"])

PROPS["T02"] = P(
    "A function run with a memory limit leaves the limits as they were",
    "A function run with a memory limit is called once, with at most the asked growth of memory "
    "and never more than the process was allowed before; its result or error (also MemoryError) "
    "is given unchanged. Afterwards the soft and hard limits of the process are what they were, "
    "whatever they were (none, lower than the asked limit, privileged or not), however calls are "
    "nested and whichever system call failed when the limit was set.",
    ["histories", "fault_sequences", "configurations"],
    "All limits, nestings, results and failures of the system calls which set the limit.",
    "No test uses memory limits.",
    ["hachoir/core/memory.py"], ["limitedMemory", "setMemoryLimit", "getMemoryLimit"],
    [("RLIMIT_AS", "limits of the process")], ["getrlimit", "result"])

PROPS["B01"] = P(
    "The benchmark gives correct statistics under any clock",
    "A benchmark calls the function between its minimum and maximum number of times, displays "
    "the minimum, average, maximum and sum of the durations that the clock showed, and gives "
    "errors of the function to the caller. Coarse clocks and clocks which jump never make it "
    "fail or run forever, and the state of the garbage collector is restored in all cases.",
    ["schedules", "inputs"],
    "All durations of the function and all clocks (resolution, jumps).",
    "Tests do not use the benchmark.",
    ["hachoir/core/benchmark.py"], ["Benchmark.run", "Benchmark._run", "BenchmarkStat"],
    [("BenchmarkStat", "durations")], ["number of calls", "displayed statistics"])

PROPS["L01"] = P(
    "The log keeps every message in order, and its faults do not reach its users",
    "Every message which is not filtered by the options is given once, in order, to each sink "
    "which is enabled (terminal, log file, callback), whatever characters it contains; a log "
    "file which exists is continued. A log file which can't be opened or written, and a broken "
    "terminal, never raise an error to the code which logs, nor lose messages of other sinks.",
    ["histories", "fault_sequences"],
    "All sequences of messages and changes of options, and all faults of the disk and terminal.",
    "Tests do not use the log, nor make it fail.",
    ["hachoir/core/log.py", "hachoir/core/error.py"],
    ["Log.newMessage", "Log.setFilename", "Logger"],
    [("use_print, on_new_message", "sinks which are enabled")],
    ["log file", "standard error", "callback"])

PROPS["C01"] = P(
    "A search of files reports all the files of a disk, and only them",
    "hachoir-subfile reports each file of the searched part of a disk image whose signature is "
    "known to a (selected) parser and which this parser accepts at this place, once, with its "
    "address, size and description, and it reports nothing else; only files inside of a file of "
    "a format which is skipped as a whole are left out. This does not depend on where the file "
    "is in the image, on what is before, after and around it (also other signatures which "
    "overlap its own), on how the disk cuts its reads, nor on the clock.",
    ["inputs", "schedules", "configurations"],
    "All images made of documents and other bytes, all addresses with regard to the blocks in "
    "which the tool reads, all selections of parsers and of the searched part.",
    "No test runs hachoir-subfile, and an image larger than one block is never searched.",
    ["hachoir/subfile/", "hachoir/regex/pattern.py", "hachoir/regex/regex.py",
     "hachoir/parser/ (signatures)"],
    ["SearchSubfile.findMagic", "SearchSubfile.searchSubfiles", "HachoirPatternMatching",
     "PatternMatching.search"],
    [("SearchSubfile.current_offset", "block which is searched"),
     ("SearchSubfile.next_offset", "end of the last skipped file")],
    ["standard output", "exit status"])

PROPS["C02"] = P(
    "Files which are found are saved byte for byte, or their loss is shown",
    "Each file that hachoir-subfile reports as saved is in the output directory, under its own "
    "name, with exactly the bytes that it has in the image; the image is not changed. When the "
    "disk fails or is full at any point (directory, open, read, write, close), or the user "
    "interrupts the search, nothing is lost silently: an error message is displayed or the exit "
    "status is not success.",
    ["inputs", "fault_sequences", "crash_points"],
    "All images, and faults of the disk at any of the system calls of a search which saves.",
    "No test saves files, and no test makes an output fail.",
    ["hachoir/subfile/output.py", "hachoir/subfile/search.py", "hachoir/stream/output.py"],
    ["Output.writeFile", "SearchSubfile.processParser", "OutputStream.copyBytesFrom"],
    [("Output.file_id", "number of the next file")],
    ["output directory", "standard output and error", "exit status"])

PROPS["C03"] = P(
    "The size of a document is found, whatever follows it",
    "An intact document of a format which stores its size, or the size of each of its parts (AIFF, "
    "ANI, ASF, AU, AVI, BMP, CAB, CDA, GIF, ICO, JPEG, Matroska, MIDI, MP3, Ogg, OLE2, PNG, SWF, TAR, "
    "WAV, ZIP; EMF, WMF and EXE if the size can be known), is accepted when zeros, text, random bytes, "
    "the same or another document follow it, and its content size is exactly its own size. This "
    "does not depend on what was read of it before, on short reads, nor on read errors of an "
    "earlier parse of it. hachoir-subfile finds it with this size in an image, and the file which it saves is "
    "the document, byte for byte.",
    ["inputs", "histories", "fault_sequences"],
    "All intact documents of these formats, whatever follows them, all histories of accesses and "
    "of read errors before.",
    "A few tests compare one content size of one sample file; no test appends anything to a "
    "sample.",
    ["hachoir/parser/parser.py", "hachoir/parser/*/*.py (createContentSize)",
     "hachoir/subfile/search.py"],
    ["Parser.content_size", "Parser.createContentSize", "SearchSubfile.processParser"],
    [("Parser._content_size", "content size, computed at its first use")],
    ["Parser.content_size", "output of hachoir-subfile", "saved files"])

PROPS["F08"] = P(
    "Every field of every document can be named, described and shown",
    "For every document, intact or damaged, and every order in which its fields, and those of the "
    "documents embedded in it, are used: the name, the path, the description, the type and the "
    "displays of a field are texts, the MIME type is a text, the file name suffix is nothing or "
    "begins with a dot, the content size is nothing or a number, and none of these ever fails. "
    "An intact document of a supported format is read without an error message, and no part of it is given up because its parser failed.",
    ["inputs", "histories"],
    "All documents, damages and orders of access.",
    "Tests read some values of some fields of sample files, in one order, and do not look at "
    "descriptions, displays or errors.",
    ["hachoir/field/field.py", "hachoir/parser/parser.py", "hachoir/parser/*/*.py"],
    ["Field.description", "Field.display", "Field.raw_display", "Field.hasValue",
     "HachoirParser.mime_type", "HachoirParser.filename_suffix", "HachoirParser.content_size"],
    [("Field._description", "description, computed at its first use")],
    ["attributes of fields and parsers", "messages of the log"])

PROPS["U01"] = P(
    "The text browser shows the fields of the document, whatever is typed",
    "In hachoir-urwid, for every document, size of the terminal and sequence of keys, resizes and "
    "messages: no key ends the program except those which close it; the rows of the tree are "
    "consecutive visible fields of the document, in their order, each with its address, name, "
    "value, description, type and size as the display options ask. A field which is saved is "
    "written byte for byte, existing files are kept, and a failure of the disk is reported and "
    "never ends the program.",
    ["inputs", "histories", "fault_sequences"],
    "All documents, sequences of keys, terminal sizes and faults of the disk.",
    "No test runs the browser.",
    ["hachoir/urwid.py"],
    ["exploreFieldSet", "Walker", "Node", "TreeBox", "Tabbed", "Input", "Walker.save_field"],
    [("Walker.focus", "selected field"), ("Node.childs", "fields which were read"),
     ("Walker.flags", "display options")],
    ["terminal", "keyboard", "saved files"])

NOT_APPLICABLE = {}
NOTES = ("One engine (simkit), one entry point (check). The code under test is imported from "
         "/repo (or HACHOIR_REPO) and compiled from its sources on every run.")
