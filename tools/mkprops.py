#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A parsed tree tiles its input: no gap, no overlap, nothing out of bounds",
     "For every input and every parser, once a field set has been read completely its children are in order, contiguous and add up exactly to the size of the set, and no field lies outside its parent or past the end of the input. "
     "A field set which is allowed to seek instead covers every bit of itself with fields, explicit 'unparsed' segments filling exactly the bits no field claims. "
     "When the size of the input is known, the root covers all of it, also when the data is truncated or corrupted.",
     ["inputs", "programs"],
     "All byte strings (valid, truncated, corrupted, random), all registered parsers, and all field-set programs: any sequence of field sizes, nesting, declared sizes, exceptions, duplicate names and bit alignments.",
     "The unit tests check hand-picked fields of one valid sample per format; none walks a whole tree, and none feeds damaged data or drives the auto-fix paths which keep the tiling when a field does not fit.",
     ["hachoir/field/generic_field_set.py", "hachoir/field/seekable_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/field/field.py", "hachoir/field/helper.py", "hachoir/parser"],
     [("address assignment and size check on insertion", "hachoir/field/generic_field_set.py _addField, _checkSize"),
      ("auto-fix: delete, truncate or pad the last field", "hachoir/field/generic_field_set.py _fixFieldSize, _fixLastField, _truncate"),
      ("gap filling of seekable sets", "hachoir/field/seekable_field_set.py getgaps, _fixLastField")],
     [("_current_size", "address of the next field, relative to the set", "GenericFieldSet"),
      ("_size", "size of the set, None while unknown", "Field")],
     ["iteration, len(), size, address, absolute_address of every field set"])

prop("C02", "Names, paths, indexes and addresses identify fields uniquely",
     "Within a field set all names are distinct, fields created as 'name[]' are numbered 0,1,2... in creation order, and a field's path looked up from the root (or its name, index, array position or address from its parent) returns that very field. "
     "Looking up something which does not exist raises the documented missing-field error and never returns another field, and links resolve to a field of the same tree. "
     "Containment tests, attribute indexes, relative paths ('..', '/', 'a/b') and arrays agree with the iteration order.",
     ["inputs", "programs"],
     "All trees any parser builds from any input, and generated field-set programs with colliding, array and plain names.",
     "Tests look up a few known paths on known files; uniqueness, round trip of every path and failing lookups on arbitrary trees are never exercised.",
     ["hachoir/field/field.py", "hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/field/fake_array.py", "hachoir/core/dict.py"],
     [("path lookup", "hachoir/field/field.py getField, path"), ("array numbering", "hachoir/field/basic_field_set.py setUniqueFieldName"),
      ("ordered unique dictionary", "hachoir/core/dict.py"), ("array view", "hachoir/field/fake_array.py"), ("search by address", "hachoir/field/generic_field_set.py getFieldByAddress")],
     observe=["getField/[]/in/index/array/getFieldByAddress results on every node"])

prop("C03", "Lazy parsing is unobservable: every access order yields the same tree",
     "The names, types, addresses, sizes, values, displays and descriptions of the fields of a tree do not depend on the order or manner in which they are first accessed (iteration, by index, by name, by path, by array, by address, asking a length, a size or a value first, reading in steps, interleaving several iterators). "
     "Parsing the same input twice, or resetting a tree and reading it again, gives the same tree.",
     ["histories", "inputs", "programs"],
     "All interleavings of the public access operations on a tree, on valid and damaged inputs and generated field-set programs.",
     "Each test reads a tree in one fixed order; the laziness state machine (partially fed sets, generators, caches) has unboundedly many histories.",
     ["hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/field/field.py", "hachoir/field/fake_array.py", "hachoir/field/vector.py", "hachoir/field/static_field_set.py"],
     [("on-demand feeding", "hachoir/field/generic_field_set.py _feedUntil, _feedAll, readMoreFields, __iter__"),
      ("value/display caches", "hachoir/field/field.py value, display, raw_display"), ("reset", "hachoir/field/generic_field_set.py reset")],
     [("_field_generator", "rest of the parsing program, None when done", "GenericFieldSet")],
     ["histories of public calls on Field/FieldSet objects"])

prop("C04", "Any input is parsed safely: no crash, no hang, no lost data",
     "For every byte string, guessing a parser returns a parser or nothing, and reading every field of the resulting tree (structure, value, display, raw display, description, MIME type, content size, suggested suffix) never raises and ends after an amount of work bounded by the input size. "
     "The same holds for a specific parser forced on arbitrary data, apart from rejecting the data when it is created.",
     ["inputs", "configurations"],
     "All byte strings: valid samples, truncations at any point, corruptions of any byte, hostile length/offset/count fields, cyclic references, random data; every registered parser.",
     "Tests only open undamaged samples; the auto-fix promise is about inputs nobody has listed.",
     ["hachoir/parser", "hachoir/field", "hachoir/stream/input.py", "hachoir/parser/guess.py"],
     [("autofix", "hachoir/field/generic_field_set.py _fixFeedError, _fixLastField"), ("value/display error capture", "hachoir/field/field.py"),
      ("validation and skip of failing parsers", "hachoir/parser/guess.py doparse"), ("recursion and size guards in the parsers", "hachoir/parser/*/*.py")],
     observe=["exceptions leaving public calls, logical step counter, traversal counts"])

prop("C05", "Field values are exactly the decoding of the bits they cover",
     "Every integer, bit, character, float, timestamp, string and raw field, at any bit address, size and byte order, has the value which an independent decoding of its bits gives (two's complement, IEEE 754, documented epoch and unit, charset, prefix/terminator, strip and truncate options), and strings have the documented length. Byte-oriented fields (strings, bytes, floats) which do not start on a byte have no value rather than a wrong one. "
     "Fields of the same bits agree whatever the kind of stream, the parent or the alignment, and enumerations only change how a value is displayed.",
     ["inputs", "programs"],
     "All field types, bit offsets, sizes, byte orders, charsets, options and bit patterns; all leaf fields of all parsed trees.",
     "Tests decode a few aligned constants; combinations of alignment, byte order, size and extreme values are not reached.",
     ["hachoir/field/bit_field.py", "hachoir/field/byte_field.py", "hachoir/field/integer.py", "hachoir/field/float.py", "hachoir/field/timestamp.py", "hachoir/field/string_field.py", "hachoir/field/character.py", "hachoir/field/enum.py", "hachoir/field/padding.py", "hachoir/field/vector.py", "hachoir/stream/input.py", "hachoir/core/bits.py", "hachoir/core/tools.py", "hachoir/core/text_handler.py"],
     [("bit extraction", "hachoir/stream/input.py readBits, readInteger, readBytes"), ("endian conversion", "hachoir/core/bits.py str2long"), ("typed values", "hachoir/field/*.py createValue")],
     observe=["value, display, raw_display, length of leaf fields"])

prop("C06", "Every input stream is the same faithful, bounded view of its bytes",
     "Reading bits, bytes or integers, searching bytes, and file-like access give the same result for a given content whether it comes from memory, a regular file, a file object, a non-seekable pipe, a sub-range, a field, fragments, a concatenation or a decompressor, in any order of requests. "
     "A read or a search never returns data from outside the stream or a wrong occurrence: it either returns exactly the requested bits or reports a stream error, and the size, once known, is the exact number of bits.",
     ["histories", "inputs", "configurations"],
     "All stream kinds and nestings, all sequences of read/search/seek/size requests, all contents, sizes around buffer boundaries.",
     "Tests cover a handful of reads on two stream kinds; buffering, end-of-stream and unknown-size paths depend on the history of requests.",
     ["hachoir/stream/input.py", "hachoir/stream/input_helper.py", "hachoir/field/sub_file.py", "hachoir/field/fragment.py", "hachoir/field/link.py"],
     [("bounded reads", "hachoir/stream/input.py read*"), ("pipe buffering", "hachoir/stream/input.py InputPipe"), ("search window", "hachoir/stream/input.py searchBytes"),
      ("sub-streams, fragments, concatenation", "hachoir/stream/input.py InputSubStream, FragmentedStream, ConcatStream"), ("late size propagation", "hachoir/stream/input.py askSize, _setSize")],
     observe=["return values and exceptions of the stream methods"])

prop("C07", "Bit-level output writes exactly the requested bits",
     "Any sequence of bit, bit-field, integer, byte and copy writes in either byte order, starting at any bit position, produces the byte string of a bit-list model, and reading it back with an input stream of the same byte order returns the written values. "
     "Whole bytes are written at byte-aligned positions and the byte order changes at byte boundaries only. Copying a bit or byte range from an input stream reproduces exactly that range whatever its length, and reading back bytes at an address returns only those bytes.",
     ["histories", "inputs"],
     "All sequences of write operations, sizes, values, alignments and byte orders.",
     "No unit test drives the output stream directly; only two editor outputs are compared.",
     ["hachoir/stream/output.py", "hachoir/core/bits.py"],
     [("bit accumulator", "hachoir/stream/output.py writeBit, writeBits"), ("copies", "hachoir/stream/output.py copyBitsFrom, copyBytesFrom"), ("integer encoding", "hachoir/core/bits.py long2raw")],
     [("_bit_pos, _byte", "pending bits of an unaligned write", "hachoir/stream/output.py")])

prop("C08", "The editor changes what was edited and nothing else",
     "Saving an edited tree without any change reproduces the input bit for bit, and after any sequence of value changes, deletions and insertions the output is the input with exactly those pieces replaced, removed or added, in order. "
     "Re-parsing the output yields the edited values, sizes and positions reported while editing agree with what is written, and a value the field cannot represent is refused instead of being written differently. "
     "Undoing the edits restores the original output; the input itself is never modified.",
     ["histories", "inputs", "programs"],
     "All editable trees, all sequences of edit operations, all field types, sizes, byte orders and alignments.",
     "Tests perform two fixed edit scripts on two sample files.",
     ["hachoir/editor/fieldset.py", "hachoir/editor/field.py", "hachoir/editor/typed_field.py", "hachoir/field/new_seekable_field_set.py", "hachoir/stream/output.py"],
     [("edit overlay", "hachoir/editor/fieldset.py"), ("typed encoders", "hachoir/editor/typed_field.py"), ("copy of unaltered fields", "hachoir/editor/field.py FakeField")],
     observe=["bytes written by writeInto, value/size/address of edited fields"])

prop("C09", "Stripping removes metadata, keeps the media data, and leaves a valid file",
     "Stripping a supported file removes the metadata it declares (and only the selected kinds), copies every other byte unchanged and in order, and fixes the enclosing size fields so that the result parses cleanly as the same format. "
     "Stripping again finds nothing to remove, a file without removable metadata is not rewritten, and the source file is never modified.",
     ["inputs", "configurations"],
     "All supported container formats with any arrangement, number and size of metadata blocks, and every combination of strip levels.",
     "One unit test strips one sample with the default options.",
     ["hachoir/strip.py", "hachoir/editor/fieldset.py", "hachoir/editor/typed_field.py"],
     [("per-format strippers", "hachoir/strip.py"), ("useless/metadata/index selection", "hachoir/strip.py Stripper")],
     observe=["output file bytes, exit status, re-parsed tree"])

prop("C10", "Regular-expression algebra keeps the language; pattern search finds every match",
     "Building, joining, repeating, grouping and optimising regular expressions, and printing them as text, never changes the set of strings they match, and the advertised minimum and maximum match lengths are correct bounds. "
     "Searching a text for a set of plain strings and regular expressions reports, at the right positions and in order, the matches which the leftmost search of those patterns finds, and names the pattern that matched.",
     ["inputs", "programs"],
     "All expressions of the supported syntax and all combinations by and/or/repeat, all candidate strings, all pattern sets and texts.",
     "The tests compare the printed form of a list of expressions; no test runs an optimised expression against text, so a rewrite which changes the language goes unnoticed.",
     ["hachoir/regex/regex.py", "hachoir/regex/parser.py", "hachoir/regex/pattern.py"],
     [("rewrites", "hachoir/regex/regex.py and_, or_, repeat, optimization"), ("parsing", "hachoir/regex/parser.py"), ("search", "hachoir/regex/pattern.py PatternMatching.search, match")])

prop("C11", "Sub-file search finds embedded files and extracts them intact",
     "Every embedded file of a searchable format is reported at its exact offset, whatever the surrounding bytes and wherever it falls relative to internal buffer boundaries, and the size reported and the bytes extracted are those of the embedded file when its format defines its size. "
     "Nothing is reported outside the requested range, reports come in increasing order without duplicates, and the searched file is not modified.",
     ["inputs", "configurations"],
     "All hosts, offsets, kinds, numbers and spacings of embedded files, range limits and parser selections.",
     "There is one test of the sub-file search, on one file, with no magic near a buffer boundary.",
     ["hachoir/subfile/search.py", "hachoir/subfile/pattern.py", "hachoir/subfile/output.py", "hachoir/subfile/main.py", "hachoir/regex/pattern.py"],
     [("slice scan", "hachoir/subfile/search.py searchMagic, findMagic"), ("magic table", "hachoir/subfile/pattern.py"), ("content size", "hachoir/parser/*/*.py createContentSize"), ("extraction", "hachoir/subfile/output.py")])

prop("C12", "Metadata extraction is total, and its values are typed, bounded and unique",
     "Extracting metadata from any parsed tree, valid or damaged, at any quality, terminates and returns metadata or nothing, never an exception; every recorded value has the documented type, passes the documented range filter, is not empty, repeated or a truncated copy of another one, and strings respect the length limit. "
     "Every recorded value appears in the text export with its documented header and priority, in a stable order, and nothing else does; the dictionary export holds every group and item with the last value of the item.",
     ["inputs", "configurations", "histories"],
     "All trees of all metadata-capable parsers, all quality levels, all sequences of metadata assignments.",
     "Tests compare chosen values of samples; the registration rules (filter, dedupe, type conversion, truncation) and extraction on damaged files are not covered.",
     ["hachoir/metadata/metadata.py", "hachoir/metadata/metadata_item.py", "hachoir/metadata/register.py", "hachoir/metadata/filter.py", "hachoir/metadata/setter.py", "hachoir/metadata/safe.py", "hachoir/metadata/formatter.py", "hachoir/metadata"],
     [("typed items with filters", "hachoir/metadata/metadata_item.py Data.add"), ("fault barrier", "hachoir/metadata/safe.py"), ("conversion", "hachoir/metadata/setter.py"), ("export", "hachoir/metadata/metadata.py exportPlaintext, exportDictionary")])

prop("C13", "Parser selection is deterministic, honest and does not depend on the process",
     "For a given content and hints, the parser chosen is always the same, in any process and however often it is asked; a parser chosen by content has accepted that content, content which no parser accepts yields none, and a well-formed file is recognised as what it is without any hint. Matching hints (extension, MIME type, category) only change the order in which parsers are tried; an explicit id or class is tried first and exempts that parser, and no other, from validating the content. "
     "Selecting a parser never changes the caller's arguments or the content, and the list of parsers is consistent: ids are unique and every declared magic number, extension, MIME type and minimum size is well-formed and effective.",
     ["inputs", "configurations", "histories"],
     "All inputs and hint combinations, processes with different memory layouts and hash seeds, repeated queries.",
     "A test run is a single process; dependence on memory layout, hash order or earlier queries cannot show.",
     ["hachoir/parser/guess.py", "hachoir/parser/parser_list.py", "hachoir/parser/parser.py", "hachoir/stream/input_helper.py"],
     [("candidate ordering", "hachoir/parser/guess.py QueryParser"), ("validation", "hachoir/parser/parser.py HachoirParser.__init__"), ("tag index", "hachoir/parser/parser_list.py")])

prop("C14", "Embedded, compressed and fragmented content is delivered exactly",
     "The sub-stream of a field holding a file (stored, compressed by a supported method, or spread over fragments or clusters) yields exactly the original bytes of that file, however it is read, and only those. "
     "Guessing a parser on such a sub-stream gives the same tree as on the original file, and damaged compressed data ends in an error or shorter data, never in endless output.",
     ["inputs", "histories"],
     "All contents, compression levels and block types, chunked read sequences, fragmentation layouts, nested containers.",
     "Tests decompress one or two fixed samples completely and compare a few bytes.",
     ["hachoir/field/sub_file.py", "hachoir/field/fragment.py", "hachoir/field/link.py", "hachoir/parser/archive", "hachoir/parser/common/deflate.py", "hachoir/parser/file_system/fat.py", "hachoir/parser/misc/ole2.py", "hachoir/parser/container/swf.py"],
     [("sub-stream construction", "hachoir/field/field.py getSubIStream, setSubIStream"), ("decompressors", "hachoir/field/sub_file.py CompressedStream; parser/archive/{gzip_parser,bzip2_parser,zip,zlib,lzx}.py"), ("fragment chains", "hachoir/stream/input.py FragmentedStream")])

prop("C15", "Replacing fields in a parsed tree preserves its layout and notifies listeners",
     "Replacing a field by others, or writing fields inside an existing one, keeps the tree contiguous with the same total size, unique names and untouched neighbours, or is refused leaving the tree unchanged. "
     "Every listener of the set and of the root receives exactly the documented events, in order, and the underlying ordered dictionary stays consistent with its sequence of operations.",
     ["histories", "inputs"],
     "All sequences of replace/insert/delete operations on field sets and ordered dictionaries, all listener registrations.",
     "Tests cover the dictionary with one short script and never replace fields.",
     ["hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/core/dict.py", "hachoir/core/event_handler.py"],
     [("replacement", "hachoir/field/generic_field_set.py replaceField, writeFieldsIn"), ("events", "hachoir/core/event_handler.py raiseEvent"), ("ordered dictionary", "hachoir/core/dict.py")])

prop("C16", "Number, time and text conversions are exact and printable",
     "The bit/byte/integer conversions invert each other for every size and byte order, alignment and padding helpers satisfy their arithmetic definition, and timestamp and duration conversions give the exact date or interval of the documented epoch or refuse the value. "
     "Human-readable sizes, rates, frequencies and durations denote the given number within their printed precision, and text made printable contains no ASCII control character, is encodable in the requested charset and loses no printable character.",
     ["inputs"],
     "All integers, sizes, timestamps, durations and strings.",
     "Doctests and unit tests sample a few values per helper; rounding, borders and large values are not reached.",
     ["hachoir/core/bits.py", "hachoir/core/tools.py", "hachoir/core/i18n.py", "hachoir/core/text_handler.py", "hachoir/core/endian.py"],
     [("bit conversions", "hachoir/core/bits.py"), ("time conversions", "hachoir/core/tools.py timestamp*, duration*"), ("humanisation and printability", "hachoir/core/tools.py human*, makePrintable")])

prop("C17", "Guards and resources are always released",
     "Time and memory limits stop the guarded call, report it with the documented error, and leave timers, signal handlers and process limits exactly as before, whether the call returned, failed or was interrupted. "
     "Files opened for a parser or an output are closed when the parser, stream or output is closed, left, or could not be created, so repeated use does not leak descriptors, and a parser can no longer read after it was closed. "
     "The guards nest and return the guarded call's own result or exception.",
     ["histories", "fault_sequences"],
     "All sequences of guarded calls, nested guards, failures and interruptions, all open/close/abandon sequences.",
     "Unit tests call each guard once; restoration of the previous state and descriptor balance are not asserted.",
     ["hachoir/core/timeout.py", "hachoir/core/memory.py", "hachoir/core/profiler.py", "hachoir/stream/input.py", "hachoir/stream/output.py", "hachoir/parser/guess.py", "hachoir/field/parser.py"],
     [("time guard", "hachoir/core/timeout.py"), ("memory guard", "hachoir/core/memory.py"), ("context managers", "hachoir/field/parser.py, hachoir/stream/*.py")])

prop("C18", "Grep reports exactly the matching string fields",
     "Searching a file for a pattern prints exactly the string fields whose displayed text contains the pattern (ignoring case only when asked), once each, in the order of the tree, with their right path, address, size and content according to the chosen options, and the other fields never appear. "
     "The percentage/address/path switches change only what is printed, never what is found.",
     ["inputs", "configurations"],
     "All trees, patterns and option combinations.",
     "Tests run two fixed command lines on two files.",
     ["hachoir/grep.py"],
     [("traversal", "hachoir/grep.py searchPattern"), ("output options", "hachoir/grep.py ConsoleGrep, runGrep")])

prop("C19", "Command-line tools are read-only, deterministic and honest in their exit status",
     "Every command-line tool leaves its input files byte-identical, gives the same output for the same arguments in any process and locale-independent order, treats each file independently of the others on the command line, and exits with a failure status exactly when a file could not be processed. "
     "What it prints is what the library computes: grep prints exactly the strings containing the pattern, list every top-level field in order, metadata what the extractors return. "
     "No input, however damaged, makes a tool end with a traceback.",
     ["inputs", "configurations"],
     "All tools, option combinations, sets of valid, damaged, missing and unreadable files.",
     "Tests run a few command lines on valid samples and compare their standard output.",
     ["hachoir/metadata/main.py", "hachoir/grep.py", "hachoir/strip.py", "hachoir/subfile/main.py", "hachoir/listtool.py", "hachoir/metadata/csv.py", "hachoir/core/cmd_line.py", "hachoir/core/log.py"],
     [("entry points", "hachoir/*/main.py"), ("logging", "hachoir/core/log.py")])

prop("C20", "Archives: members, names, sizes and contents match the archive",
     "For every well-formed ZIP, TAR, gzip, bzip2, zlib, AR, CAB, RPM, 7-Zip, MAR, RAR (before 5.0), ACE, ARJ, Mozilla archive, Starfighter PAK, bill of materials (BOM) or Git pack of the supported variants, the tree lists exactly the members in order, with the names, sizes, modes, timestamps, checksums, compression methods and comments that were stored. "
     "Member payload fields start at the right offset and have the right length, and the archive metadata reports the same facts per member.",
     ["inputs"],
     "All archives the format's standard writer can produce from any member set (names, sizes, contents, methods, attributes).",
     "Tests check a few fields in one sample archive per format.",
     ["hachoir/parser/archive", "hachoir/metadata/archive.py"],
     [("format grammars", "hachoir/parser/archive/*.py"), ("metadata", "hachoir/metadata/archive.py")])

prop("C21", "Images: geometry, colours, comments and blocks match the file",
     "For every well-formed image of the supported formats (PNG, GIF, BMP, ICO, PCX, TGA, JPEG with EXIF/IPTC/Photoshop blocks, TIFF, PSD, XCF, WMF), header fields, block structure and embedded properties in the tree equal those encoded, and the extracted metadata (width, height, bits per pixel, colour count, compression, resolution, dates, comments, camera and GPS data) states them correctly.",
     ["inputs"],
     "All well-formed headers and block sequences of these formats, all dimensions, depths and property values.",
     "Tests check a few facts in one or two samples per format.",
     ["hachoir/parser/image", "hachoir/metadata/image.py", "hachoir/metadata/jpeg.py", "hachoir/metadata/gps.py"],
     [("format grammars", "hachoir/parser/image/*.py"), ("metadata", "hachoir/metadata/{image,jpeg}.py")])

prop("C22", "Audio and video: streams, durations, rates and tags match the file",
     "For every well-formed file of the supported audio and video containers (WAV/AVI/CDA RIFF, AIFF, AU, FLAC, Ogg, MPEG audio with ID3, MIDI, MKV, MP4/MOV, ASF, FLV, SWF, RealMedia, MPEG-TS, XM/S3M/PTM/MOD modules), the stream parameters and tags in the tree equal those encoded, and the metadata reports the duration, sample rate, channels, bit depth, bit rate, dimensions, frame rate and text tags correctly.",
     ["inputs"],
     "All well-formed headers, chunk sequences and tag values of these formats.",
     "Tests check a few facts in one sample per format.",
     ["hachoir/parser/audio", "hachoir/parser/container", "hachoir/parser/video", "hachoir/metadata/audio.py", "hachoir/metadata/video.py", "hachoir/metadata/riff.py", "hachoir/metadata/misc.py"],
     [("format grammars", "hachoir/parser/{audio,container,video}/*.py"), ("metadata", "hachoir/metadata/{audio,video,riff}.py")])

prop("C23", "Programs, disks and documents: structures match the file",
     "For every well-formed file of these formats: ELF, Mach-O (thin and fat), Java class, Python bytecode, MBR, FAT12/16/32, Linux swap, ext2/ext3, ISO 9660, tcpdump/pcap, binary plist, torrent, OLE2 compound documents and their summaries, EXE (MS-DOS, NE, PE with resources), Windows shortcut (LNK), ASN.1/DER, TrueType/OpenType and PCF fonts, each header, table and record in the tree is at the offset and has the value that the format's definition gives, and derived descriptions and metadata state those values.",
     ["inputs"],
     "All well-formed files of these formats and all values of their header and table entries.",
     "Tests check a few fields in one sample per format.",
     ["hachoir/parser/program", "hachoir/parser/file_system", "hachoir/parser/network", "hachoir/parser/misc", "hachoir/parser/container/asn1.py", "hachoir/metadata/program.py", "hachoir/metadata/file_system.py", "hachoir/metadata/misc.py"],
     [("format grammars", "hachoir/parser/{program,file_system,network,misc}/*.py"), ("metadata", "hachoir/metadata/{program,file_system,misc}.py")])

prop("C24", "The interactive browser shows the tree and saves exactly the selected field",
     "In hachoir-urwid, for every file and every sequence of keys: each line shows one field of the tree of the guessed (or forced) parser: its name, its address (relative or absolute, decimal or hexadecimal as toggled), its value (or raw value), description, type and size according to the switches, and the lines are the fields in tree order below the unfolded sets; keys move the focus, fold, unfold and toggle only what the help says; saving a field writes exactly the bits of that field (as bytes), saving a stream exactly its sub-stream, into a new file (an existing file is never replaced); opening a field in a tab shows the tree of the parser guessed on its sub-stream, and closing it returns to the previous tab; the options --path, --preload, --parser, --offset, --size and --hide-* do what they say; no sequence of keys on any file, valid or damaged, ends in an exception, and the file itself is never changed.",
     ["inputs", "histories"],
     "All files and all sequences of keys.",
     "No test covers the browser at all; the state behind a screen is the whole history of keys on a lazily parsed tree.",
     ["hachoir/urwid.py"],
     [("key handling and tree walker", "hachoir/urwid.py:Walker"), ("options", "hachoir/urwid.py:parseOptions"), ("saving", "hachoir/urwid.py:Walker.save_field")])

prop("C25", "The parsed tree does not depend on where the bytes come from",
     "For every file of a supported format and the parser of that format: whether the bytes are read from memory, a regular file, a file object, a part of a larger stream at any byte offset, a field of another tree, the concatenation of two streams, a pipe which cannot be sought and whose size is unknown until its end, or the rest of a larger stream, the parser accepts or refuses the file alike, and the tree (paths, classes, addresses, sizes, values, displays, descriptions), the content size, the description, the MIME type and the metadata are the same, in whatever order they are first asked for. For an input of unknown size this holds once the end of the input has been seen; data after the last field of a parser and the bit rate which is computed from the file size may be missing. Damaged files give the same tree from every source of known size.",
     ["inputs", "histories"],
     "All files of the supported formats, all sources, all offsets and split points.",
     "Tests read each sample from one regular file; parsers which consult the size of the input or absolute addresses behave differently elsewhere.",
     ["hachoir/stream/input.py", "hachoir/field/generic_field_set.py", "hachoir/field/parser.py", "hachoir/parser"],
     [("streams", "hachoir/stream/input.py"), ("size becomes known", "hachoir/field/generic_field_set.py:_truncate"), ("validation and layout of parsers", "hachoir/parser/*/*.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P), "properties")
