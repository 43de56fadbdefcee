# The properties, in one table; mkmanifest.py writes properties.jsonl and MANIFEST.json from it.
R = "repos/plywood/src/runtime/ply-runtime/"
S = "repos/plywood/src/"
D = {}
def d(pid, title, statement, over, text, why, files, mech, **kw):
    D[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw)

d("C01", "Unicode encodings decode what they encode and survive any bytes",
  "In UTF-8 and both byte orders of UTF-16, encoding any code point and decoding the result gives that code point back as valid and consumes exactly the bytes written, and stepping backwards from the end of the encoding steps over exactly those bytes. "
  "Decoding arbitrary bytes never reads outside them and, when it reports a code point, consumes between one unit and the bytes that are there; well-formed input is reported valid, input that is a proper prefix of a well-formed sequence is reported truncated, and anything else is reported invalid, one unit at a time.",
  ["inputs"], "every code point up to U+10FFFF, and every byte string up to the bound, at every length",
  "Tests decode a handful of fixed files; the claim ranges over 2^21 code points and all malformed byte strings.",
  [R+"string/TextEncoding.h", R+"string/TextEncoding.cpp"],
  [("UTF-8 decode/encode/back-step", R+"string/TextEncoding.cpp"), ("UTF-16 decode/encode/back-step", R+"string/TextEncoding.h")])

d("C02", "Text conversion does not depend on chunking and normalises line ends",
  "Converting a text stream between encodings (8-bit, UTF-8, UTF-16 little and big endian) and line-ending conventions yields the same output however the input arrives in pieces and however small the pieces the reader asks for or the writer passes on, with no character lost, duplicated or delayed past a flush or the end; the line-end filters drop every carriage return and write either LF or CR LF for each line end. "
  "Reading a file in any of its formats gives UTF-8 with LF line ends, writing such text in a format and reading it back in the same format gives the same text (for the 8-bit format, text of code points below 256), and detecting the format of a file leaves its contents unread and finds the byte order mark it starts with.",
  ["inputs", "histories"], "every byte content up to the bound, every way of splitting it into reads and writes, every pair of encodings",
  "Tests convert a few fixed files with whole-file buffers; splits inside a multi-byte character or between CR and LF are not sampled.",
  [R+"io/text/TextConverter.cpp", R+"io/text/NewLineFilter.cpp", R+"io/text/TextFormat.cpp"],
  [("converter with small-buffer carry-over", R+"io/text/TextConverter.cpp"), ("newline filter with pending CR/LF state", R+"io/text/NewLineFilter.cpp"), ("importer/exporter stacks", R+"io/text/TextFormat.cpp")])

d("C03", "Input streams deliver exactly the bytes supplied, in order, and can rewind",
  "Reading from a stream gives exactly the bytes its source delivers, in order, whatever the sizes of the source's chunks and whatever mix of reads, look-aheads and skips the reader performs. "
  "Rewinding to a saved position delivers the same bytes again, asking for more contiguous bytes never loses or alters unread ones, and after the source ends or fails the stream reports end of file and delivers nothing more.",
  ["inputs", "histories", "fault_sequences"], "all contents, chunkings of the source and interleavings of read, look-ahead, save and rewind within the bounds",
  "Unit tests read whole strings from memory; the overlay and rewind paths run only when chunk boundaries fall inside a request.",
  [R+"io/InStream.cpp", R+"io/InStream.h", R+"container/BlockList.cpp"],
  [("block chain, save points and overlay blocks", R+"io/InStream.cpp")])

d("C04", "Output streams write exactly the bytes given, in order, once",
  "Whatever mix of single characters, strings and direct buffer writes a program makes to an output stream, its destination receives exactly those bytes in that order after a flush or close, and a memory stream hands them back unchanged, at every block boundary. "
  "If the destination fails, the stream reports the failure at end, writes nothing out of order and never crashes or loops.",
  ["inputs", "histories", "fault_sequences"], "all write sequences within the bounds, all short-write and failure points of the destination",
  "Unit tests never write across block boundaries with failing or short-writing destinations.",
  [R+"io/OutStream.cpp", R+"io/OutStream.h", R+"io/impl/Pipe_FD.cpp", R+"container/BlockList.cpp"],
  [("block buffering and flush", R+"io/OutStream.cpp"), ("descriptor pipe", R+"io/impl/Pipe_FD.cpp")])

d("C05", "Numbers print and parse back exactly, and out-of-range text is rejected",
  "Every signed and unsigned integer printed in any base from 2 to 36 parses back to the same value and its text is the mathematical representation, and every integer text is accepted with its exact value if it fits the requested type and otherwise reported as an error rather than silently wrapped. "
  "Hexadecimal printing agrees with the value, parsing never consumes bytes beyond the number, and text that holds no number is reported as an error.",
  ["inputs"], "all 64-bit values, radices 2 to 36, and all texts up to the bound",
  "Tests use a few constants; overflow boundaries, the most negative value and unusual radices are not sampled.",
  [R+"io/impl/TypeParser.cpp", R+"io/impl/FormatString.cpp", R+"container/Numeric.h"],
  [("digit accumulation with overflow checks", R+"io/impl/TypeParser.cpp"), ("digit production", R+"io/impl/FormatString.cpp")])

d("C06", "Sequential containers keep their items in sequence and own each item once",
  "After any series of appends, insertions, erasures, resizes, copies, moves and assignments, arrays, fixed arrays and block sequences hold the items that the same operations leave in an ideal sequence, in the same order, and array views see exactly the range they were asked for. "
  "Every item is constructed once and destructed once, no item is used after it was destroyed, iterating forwards or backwards visits each item once, and items larger than, equal to and smaller than a memory block are treated alike.",
  ["inputs", "histories"], "all operation sequences within the bounds, at every position and length",
  "Unit tests append small integers; item ownership, aliasing arguments, block boundaries and erasures of several items near an end are not sampled.",
  [R+"container/Array.h", R+"container/details/BaseArray.cpp", R+"container/Sequence.h", R+"container/FixedArray.h", R+"container/ArrayView.h"],
  [("growth, insert and erase", R+"container/Array.h"), ("block-list sequences", R+"container/Sequence.h")])

d("C07", "Hash maps find exactly the keys that were inserted and not erased",
  "After any series of insertions, lookups and erasures, with any hash values (colliding, far apart or wrapping around the end of the table), looking up a key finds its item exactly if the key was inserted and not erased since, with the value last stored, and iterating visits each present item once. "
  "Growing and rehashing keep every item, erasing destructs the item once, and no operation loops forever or touches memory outside the table.",
  ["inputs", "histories"], "all hash assignments and operation sequences within the bounds",
  "Unit tests use a few keys with a good hash; chains that cross cell groups, wrap around the table or overflow an 8-bit link are not sampled.",
  [R+"container/HashMap.h", R+"container/HashMap.cpp"],
  [("cell groups with 8-bit links", R+"container/HashMap.h")])

d("C08", "The ordered tree behaves as a sorted multiset",
  "After any series of insertions and removals, iterating the tree visits exactly the items present, in key order, forwards and backwards, and the two searches return the first item not below the key and the last item below it, or no item exactly if there is none. "
  "Removing an item hands back that item and leaves all others, and splitting and merging nodes neither loses, duplicates nor leaks an item.",
  ["inputs", "histories"], "all key values for the inserted and sought keys, all positions of removal and tree sizes within the bounds",
  "Unit tests insert a few random keys; node splits and merges at each position and equal keys spread over several nodes are not sampled.",
  [R+"container/BTree.h"],
  [("node split, merge and iteration", R+"container/BTree.h")])

d("C09", "Strings and string views behave as byte strings and own their memory once",
  "Searching, slicing, trimming, splitting, joining, repeating, comparing, case folding and reversing give the results these operations have on plain sequences of bytes: a comparison orders by the first differing byte taken as unsigned and then by length, splitting by a byte gives the maximal runs without it, and reversing by code point keeps each character's bytes together. "
  "After any series of copies, moves, concatenations, resizes and assignments - also of a string to itself or to a part of itself - each string holds the text these operations leave, and its memory is released once.",
  ["inputs", "histories"], "all contents up to the bound, all positions, lengths and operation sequences",
  "Tests use a few ASCII literals; embedded zeros, bytes above 127, aliasing arguments and empty strings at each position are not sampled.",
  [R+"string/StringView.h", R+"string/StringView.cpp", R+"string/StringMixin.h", R+"string/String.h", R+"string/String.cpp"],
  [("view operations", R+"string/StringView.cpp"), ("owning strings and hybrid strings", R+"string/String.h")])

d("C10", "Text formatting and scanning round-trip and stay within their input",
  "Text written as an escaped or quoted string, an XML-escaped text or a command line argument reads back as the same text under the rules of that notation, and truncating to a number of characters cuts only between characters. "
  "Reading quoted strings, identifiers, whitespace, lines and delimited text consumes exactly the text of that form, reports an error exactly if there is none or it is malformed, and gives the same result in whatever pieces the input arrives; a format string gives its literal text with each argument in place.",
  ["inputs"], "every byte content up to the bound, every way of splitting it",
  "Tests use a few literals; truncated escapes, malformed UTF-8 inside strings and delimiters that overlap themselves are not sampled.",
  [R+"io/impl/FormatString.cpp", R+"io/impl/TypeParser.cpp", R+"io/InStream.h"],
  [("escaping, quoting, format strings", R+"io/impl/FormatString.cpp"), ("quoted strings, identifiers, whitespace", R+"io/impl/TypeParser.cpp")])

d("C11", "Owning pointers, references and type-erased holders release each object once",
  "After any series of assignments, moves, swaps and resets of owning pointers, optional owners, counted references, weak references, callables, boxed values and switches, each object lives exactly as long as something owns it, is destroyed once, and every holder designates the object the series leaves in it. "
  "This includes assigning a holder to itself and from inside the object it lets go; a weak reference never yields a destroyed object, a copied callable behaves as the original, and a boxed value and a switch hold what was last stored.",
  ["histories"], "all operation sequences up to the bound over several holders and objects",
  "Tests create and drop a few objects; self-assignment, nested ownership and holders copied from one another are not sampled.",
  [R+"container/Owned.h", R+"container/Reference.h", R+"container/WeakRef.h", R+"container/Functor.h", R+"container/Any.h", R+"container/Boxed.h", R+"container/Boxed.cpp", R+"container/Switch.h", R+"container/Subst.h", R+"container/Tuple.h"],
  [("owning and counted pointers", R+"container/Reference.h"), ("stored callables", R+"container/Functor.h"), ("tagged unions", R+"container/Switch.h")])

d("C12", "Pools and label tables give stable, distinct identities",
  "A pool hands out an index that no live item has, keeps every live item at its index with its value until it is freed, and iterates exactly the live items; items of a big pool never move and lie in memory that is theirs. "
  "A label table gives equal texts equal labels, different texts different labels, and each label gives back its text; the 128-bit hash of a message depends only on its bytes, not on the pieces it is supplied in, its alignment or intermediate results.",
  ["inputs", "histories"], "all operation sequences and contents within the bounds; texts of every length class",
  "Tests do not exercise free lists, page boundaries, text lengths at which the encoding changes, or hashes supplied in pieces.",
  [R+"container/Pool.h", R+"container/Pool.cpp", R+"container/BigPool.h", R+"container/BigPool.cpp", R+"string/Label.h", R+"string/Label.cpp", R+"container/Hash128.cpp", R+"container/Hash.cpp"],
  [("free list and iteration", R+"container/Pool.h"), ("label storage and lookup", R+"string/Label.cpp"), ("buffered 128-bit hash", R+"container/Hash128.cpp")])

d("C13", "Sorting, searching, filtering and numeric conversion match their definitions",
  "Sorting by any weak order leaves the same items in non-descending order, finding gives the first or last position that matches, or none exactly if there is none, filtering keeps exactly the items that satisfy the predicate, mapping and folding apply the function to each item once in order, and the random generator is a function of its seed. "
  "Converting a stored number to another integer type reports a precise result exactly if the type can represent the value, and then gives that value.",
  ["inputs"], "all array contents up to the bound, all 64-bit numbers, all pairs of integer types",
  "Tests sort a few fixed arrays; equal items, already sorted and adversarial arrangements and integer limits are not sampled.",
  [R+"algorithm/Sort.h", R+"algorithm/Find.h", R+"algorithm/Filter.h", R+"algorithm/Map.h", R+"algorithm/Sum.h", R+"algorithm/Range.h", R+"algorithm/Random.cpp", R+"container/Numeric.h"],
  [("quicksort partitioning", R+"algorithm/Sort.h"), ("numeric cast", R+"container/Numeric.h")])

d("C14", "Paths keep their meaning when joined, normalized, split and made relative",
  "Joining and normalizing yields the normalized path that designates the same place as following the components in turn - empty names, '.' and repeated separators change nothing, '..' takes back a name, stays above a relative path's start, and stops at a root - with a trailing separator exactly if the last component has one or is empty, and normalizing again changes nothing. "
  "A relative path made from an ancestor leads from it to the descendant, splitting gives back the parts of the path, an extension holds one period and never a leading one, and conversions between path formats change separators only - for both the POSIX and the Windows format and any bytes in the names.",
  ["inputs"], "every byte content of up to three components of five bytes together, both formats",
  "There are no tests of paths at all; roots, drive letters, repeated '..' and names of only periods are the cases that matter.",
  [R+"filesystem/Path.cpp", R+"filesystem/Path.h"],
  [("normalized components", R+"filesystem/Path.cpp"), ("absolute, relative and drive predicates", R+"filesystem/Path.h")])

d("C17", "Text locations and embedded tags are found at every offset",
  "For any text and any offset in it, up to and including its end, the line, column, bytes into the line and bytes into the character are those obtained by counting from the start of the text, wherever the offset lies relative to the chunks of the location table and to multibyte characters. "
  "Extracting tags passes on exactly the text outside tags and calls the handler once for each '<%...%>' in order with its exact extent and contents, whatever mixture of these characters surrounds it.",
  ["inputs"], "every byte content up to the bound, and every arrangement of characters around a chunk boundary",
  "Nothing tests these; multibyte characters across a chunk boundary and partial tag delimiters are not ordinary input.",
  [R+"io/text/FileLocationMap.cpp", R+"io/text/LiquidTags.cpp"],
  [("chunk table", R+"io/text/FileLocationMap.cpp"), ("tag scanner", R+"io/text/LiquidTags.cpp")])

d("C18", "Pylon documents parse to the tree they denote, and trees survive being written",
  "Parsing any text returns and yields a node: a valid one exactly if the text is a Pylon value, with that structure, order, texts and file offsets, and otherwise an invalid one after reporting one error located within the text. "
  "Writing any tree of objects, arrays and texts and parsing the result gives the same tree; an object behaves as an insertion-ordered dictionary under set, get, remove and copy, and asking a node for something it does not hold gives an invalid node or empty view.",
  ["inputs", "histories"], "every byte content and every token sequence up to the bound, all trees and operation sequences within the bounds",
  "Nothing tests Pylon; malformed and truncated documents, escapes, triple quotes and removal from the middle of an object are not sampled.",
  [S+"pylon/pylon/pylon/Parse.cpp", S+"pylon/pylon/pylon/Write.cpp", S+"pylon/pylon/pylon/Node.cpp", S+"pylon/pylon/pylon/Node.h"],
  [("recursive descent parser", S+"pylon/pylon/pylon/Parse.cpp"), ("writer", S+"pylon/pylon/pylon/Write.cpp"), ("node tree", S+"pylon/pylon/pylon/Node.cpp")])

W = S + "web/common/web-common/"
d("C15", "Virtual file systems and web file handlers reach nothing outside their root",
  "Whatever relative path a virtual FileSystem is given, every operation touches the target path that the given path denotes below the root - '..' never leads above it - and gives the target's result. "
  "Whatever path a client requests, the handlers that serve files, source code and documentation open only files below the directory they serve: the one requested if it lies below it, never one outside; they answer exactly once - the contents unchanged (files) or fully escaped (source code) if the file exists and may be served, not found otherwise - and close every file.",
  ["inputs"], "every byte content of the path or request up to the bound, present and missing files",
  "No test serves a request or uses a virtual file system; requests with '..', empty components, queries and odd extensions are not ordinary use.",
  [R+"filesystem/impl/FileSystem_Virtual.cpp", W+"FetchFromFileSystem.cpp", W+"SourceCode.cpp", S+"web/serve-docs/ply-web-serve-docs/DocServer.cpp"],
  [("translation of paths", R+"filesystem/impl/FileSystem_Virtual.cpp"), ("request to file name", W+"FetchFromFileSystem.cpp"), ("request to page", S+"web/serve-docs/ply-web-serve-docs/DocServer.cpp")])

d("C16", "File system operations do what they say, and report what happened",
  "Listing a directory yields each entry in it once with its kind, size and times; walking yields every directory below the top once with its own files; making, moving, deleting and removing directories and files leave the tree as documented and nothing else changed - also when a system call fails, in which case the result says why. "
  "Reading and writing files gives back the bytes, saving only if different leaves an equal file alone and replaces the file completely or, when writing fails, leaves the original intact; the working directory is the one that was set; every descriptor is closed. All this holds for each path form and for directories that do not report entry types.",
  ["inputs", "histories", "faults"], "all operation sequences and single system call failures within the bounds over a small tree with links, every content of its files",
  "No test touches the file system; failing system calls, dangling links, paths through files and interrupted saves do not happen in tests.",
  [R+"filesystem/FileSystem.cpp", R+"filesystem/FileSystem.h", R+"filesystem/impl/FileSystem_POSIX.cpp"],
  [("POSIX calls and their results", R+"filesystem/impl/FileSystem_POSIX.cpp"), ("walking, making and saving", R+"filesystem/FileSystem.cpp")])

d("C20", "The web server answers each request once, in order, with what the handler wrote",
  "Whatever bytes a client sends, in whatever pieces, the server hands each well-formed request of the connection in order to the handler with exactly its method, URI, version and header fields; it answers a malformed one with 400 and a request the handler ignores with 500, and then goes on or closes the connection as the protocol version demands. "
  "What the client receives, decoded according to its header (chunked or up to the end), is exactly what the handler wrote, for bodies of any content and length. A client that goes away, at any time, costs the server only that connection, which is closed with its memory freed. Percent-encoding for URLs yields only unreserved characters and decodes to the original.",
  ["inputs", "histories", "faults"], "every byte content of the start or header line up to the bound, all sequences of lines, read sizes and write failures within the bounds",
  "No test starts the server; malformed and pipelined requests, failing connections and bodies around the buffer size are not sampled.",
  [W+"Server.cpp", W+"OutPipe_HTTPChunked.cpp", W+"URLEscape.cpp", R+"network/impl/Socket_POSIX.cpp"],
  [("request parser and connection loop", W+"Server.cpp"), ("chunked encoding", W+"OutPipe_HTTPChunked.cpp")])

RF = S + "reflect/ply-reflect/"
d("C19", "Saved objects load as they were, also into types that have changed since",
  "Writing any object of reflected types as an asset and reading it back gives an equal object: scalars, strings, arrays, structs, enums, switches, owned objects and pointers between them - which refer to the same targets as before, whatever the order in which they are saved. "
  "A reader whose types have members, enum identifiers or switch states added, removed, renumbered, reordered or of another numeric type gets every value that still has a place, converted, and default or null values elsewhere; a member of another kind is skipped. Exporting to Pylon and importing gives the same object; importing sets just what the text names. Each object made is destroyed exactly once.",
  ["inputs", "histories"], "every value of the members, all link patterns and combinations of written and read types within the bounds",
  "Nothing tests persistence: pointers saved before their targets, renumbered states, changed kinds and half-matching types only arise between versions of a program.",
  [RF+"PersistWriteObject.cpp", RF+"PersistReadObject.cpp", RF+"PersistWriteSchema.cpp", RF+"TypeConverter.cpp", RF+"TypeSynthesizer.cpp", RF+"builtin/TypeDescriptor_Switch.h", S+"pylon/reflect/pylon-reflect/Import.cpp", S+"pylon/reflect/pylon-reflect/Export.cpp"],
  [("writer, formats and links", RF+"PersistWriteObject.cpp"), ("reader and conversion between versions", RF+"PersistReadObject.cpp"), ("Pylon import", S+"pylon/reflect/pylon-reflect/Import.cpp")])

M = S + "web/markdown/web-markdown/"
d("C21", "Any Markdown text converts to well-formed HTML with the structure it denotes",
  "Whatever text it is given, the Markdown parser returns a document, whose conversion is well-formed HTML: tags nested and closed in order, everything else escaped, and the text of the document passed on completely and in order. "
  "Paragraphs, headings, indented code blocks, quotes and tight or loose, ordered or unordered lists, nested in one another, convert to the corresponding elements with the same contents; within a paragraph or heading so do code spans, emphasis and strong emphasis, and inline links with their targets (as CommonMark defines them).",
  ["inputs"], "every byte content and token sequence up to the bound; all trees of blocks within the bounds",
  "Nothing tests the Markdown parser; its assertions depend on combinations of markers, blank lines and indentation.",
  [M+"ParseMarkdown.cpp", M+"ConvertToHTML.cpp", M+"Markdown.h"],
  [("block and inline parser", M+"ParseMarkdown.cpp"), ("HTML writer", M+"ConvertToHTML.cpp")])

I = S + "image/image/image/"
A = S + "audio/primitives/audio-primitives/"
d("C22", "Operations on pictures and sound buffers touch their region and nothing else",
  "Cropping a picture, or taking part of a sound buffer, denotes exactly the pixels or samples of that region, however rows are spaced; copying, flipping, filling, converting (32-bit values, floats to halves, linear to sRGB) and mixing write every pixel or sample of the destination, nothing outside of it, and leave the source alone. "
  "Copies and flipped pictures have the pixels of the original; packed colors have their channels in the order named; a half has sign, exponent and leading digits of the float it comes from (values below the smallest normal half become zero); "
  "mixing adds the source times the level (fixed, sliding, or read at another pitch with linear interpolation) and limits the sum to the range of 16-bit samples. Pixels owned by a picture are freed once.",
  ["inputs"], "all pixel formats, positions and paddings of small pictures with every content; every sample value against chosen levels, and every level up to full volume against chosen samples",
  "Nothing tests images or audio: strides, regions, overflow and limits depend on where the region lies and what is in it.",
  [I+"Image.h", I+"Image.cpp", A+"Buffer.h", A+"Render.cpp", A+"OfflineClip.h", S+"math/math/ply-math/Half.h"],
  [("pictures", I+"Image.cpp"), ("mixing", A+"Render.cpp")])

MA = S + "math/math/ply-math/"
d("C23", "Vectors, matrices, rotations, axes and boxes obey the laws of geometry",
  "Operations on vectors (of floats and of integers) apply to each component; dot and cross products, lengths, comparisons, swizzles and roundings are what mathematics defines. A product of matrices, of mappings, of quaternions with or without a translation, or of axis rotations transforms a vector as its factors do in turn; an inverse undoes it; the matrix, quaternion and axis forms of a rotation rotate alike, counterclockwise about the axis, and convert into each other; projections take the corners of the view volume to those of the cube. "
  "A box has exactly the points from its minimum up to below its maximum: intersection, union, containment, emptiness, the full and the empty box agree with that; mappings between rectangles, colors as hex digits, bytes or sRGB, and cubic curves with their derivative convert as defined.",
  ["inputs"], "polynomial identities in all components (small integers, for which IEEE arithmetic is exact), all axis rotations, all boxes with small coordinates; rotations by angles and lengths at chosen values only",
  "Unit tests compute a few products; a wrong sign, row or corner shows only for other values or operations, several of which nothing calls.",
  [MA+"Vector.h", MA+"IntVector.h", MA+"Matrix.cpp", MA+"Quaternion.cpp", MA+"QuatPos.h", MA+"QuatPos.cpp", MA+"AxisVector.h", MA+"Box.h", MA+"Extra.h", MA+"Color.h", MA+"Interpolate.h"],
  [("matrices", MA+"Matrix.cpp"), ("rotations", MA+"Quaternion.cpp"), ("axes", MA+"AxisVector.h"), ("boxes", MA+"Box.h")])

d("C24", "Points in time and calendar dates convert into each other without loss",
  "For every number of microseconds since 1970 that 64 bits hold, before and after 1970, the date and time made from it is a valid one of the proleptic Gregorian calendar - month 1 to 12, day within the month with the leap year rules of 4, 100 and 400, hours, minutes, seconds and microseconds within their ranges, weekday 0 for Sunday to 6 - and converts back to exactly that number. "
  "January 1, 1970 at midnight is 0, a Thursday; each day is 86400 seconds after the one before it; within a day the number counts the time from midnight; and every valid date and time converts to a number and back to itself.",
  ["inputs"], "every date of the years 1970±2048, 0±256 and 28928 to 291072 and -116384 to -83616, each against its successor; every microsecond of chosen days; windows of days around the ends of leap years, centuries and eras",
  "No test touches dates; leap years, centuries, negative numbers and the last microsecond of a day are all rare inputs.",
  [R+"time/DateTime.h", R+"time/DateTime.cpp"],
  [("conversion", R+"time/DateTime.cpp")])

B = S + "build/"
d("C25", "A project is built from exactly what its modules ask for",
  "Every module that a root target needs is instantiated once. A target is compiled with its own include folders, definitions and flags and the public ones of whatever it depends on, followed through public dependencies, and with nothing that is private to another; it is linked with every library it needs, each once and before what that library needs in turn; what lies below a shared library is part of it, and others link the shared library instead. Externs that are not selected or not installed are each reported once. "
  "The CMakeLists.txt has exactly these targets with their kind, sources, folders, definitions and libraries. Source files of a folder are the .c, .cpp and .h files in it, sorted, without those of module definitions. Names of modules, externs and providers, with or without a repo, stand for exactly one of them or are refused with a message; names that are saved or shown stand for what they were made from. "
  "Settings of a build folder are loaded as they were saved, and its signature changes exactly if what it asks for does.",
  ["inputs"], "all dependency graphs of 3 and 4 modules with every kind, visibility and order; all names of up to 4 components over two repos; any characters in settings, names and file extensions",
  "Unit tests do not touch the build system; what a change in merging or ordering breaks shows only for particular graphs.",
  [B+"target/ply-build-target/Dependency.cpp", B+"target/ply-build-target/BuildTarget.cpp", B+"target/ply-build-target/CMakeLists.cpp", B+"repo/ply-build-repo/ProjectInstantiator.cpp", B+"repo/ply-build-repo/ModuleArgs.cpp", B+"repo/ply-build-repo/Repo.cpp", B+"repo/ply-build-repo/RepoRegistry.cpp", B+"repo/ply-build-repo/DependencySource.cpp", B+"repo/ply-build-repo/ExternProvider.cpp", B+"folder/ply-build-folder/BuildFolder.cpp"],
  [("propagation", B+"target/ply-build-target/Dependency.cpp"), ("instantiation", B+"repo/ply-build-repo/ProjectInstantiator.cpp"), ("CMakeLists.txt", B+"target/ply-build-target/CMakeLists.cpp"), ("names", B+"repo/ply-build-repo/RepoRegistry.cpp"), ("build folders", B+"folder/ply-build-folder/BuildFolder.cpp")])

C = S + "cpp/ply-cpp/"
d("C26", "C++ source text is split into its tokens, without loss and with locations",
  "Any text is read to its end. The tokens are consecutive parts of the text, with nothing but white space between them unless an error was reported: identifiers and punctuation marks are as long as they can be, comments and strings end at the first mark that ends them, raw strings at the first place where a parenthesis, the delimiter and a quote follow each other, numbers where no digit follows, directives are whole lines on which nothing but white space precedes the #. "
  "Each token has the location, as offset, line and place in the line, where it is; the end of the file has one behind the last token, and errors have one within the file. A string, comment or raw string that does not end is reported. Macros that are defined are replaced by their text, with their arguments split at commas outside parentheses, and what follows them keeps its location.",
  ["inputs"], "all texts of 3 ASCII characters (4 in thorough); 25 beginnings of tokens followed by any 2 (3) characters; raw strings of 4 (6) characters; sequences of 4 (5) lines or macros",
  "The tests parse a few well-formed declarations; what follows a comment, an empty directive, a raw string or a macro matters only in texts that nobody wrote yet.",
  [C+"Preprocessor.h", C+"Preprocessor.cpp", C+"Token.h", C+"Token.cpp", C+"PPVisitedFiles.h", C+"ErrorFormatting.cpp"],
  [("tokens", C+"Preprocessor.cpp"), ("locations", C+"ErrorFormatting.cpp")])
