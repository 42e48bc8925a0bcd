CW = "netcdf/cdf/cdfwriter.go"; CR = "netcdf/cdf/cdf.go"; HW = "netcdf/hdf5/hdf5writer.go"; HR = "netcdf/hdf5/hdf5.go"
INP = ["inputs"]

# ---------------------------------------------------------------- the programming interface

prop("A01", "Failures inside the library come back as errors, not panics",
 "When the library itself detects a problem (a file it cannot parse, a value it cannot store, a failed read or write), "
 "the entry point that has an error result returns a non-nil error. The internal panics used to unwind never escape "
 "through such an entry point, and no such entry point returns a nil error after one was raised.",
 ["inputs", "fault_sequences"], "every exported function or method with an error result, every path through it on which an internal error is raised",
 "A test passes a handful of damaged files; the internal error can be raised at several hundred places reached through any call chain, under any deferred recovery.",
 [CR, HR, CW, HW, "netcdf/netcdf4.go"], [("deferred recovery in each entry point", "thrower.RecoverError in cdf, hdf5, netcdf"), ("assertions", "netcdf/hdf5/assert.go")],
 "path-sensitive abstract interpretation (typestate of the raised error) over SSA",
 "Every entry point is interpreted on all paths with every callee of the module that can raise inlined or summarised; a raised error must leave as a non-nil error result.")

prop("A02", "No input makes the library terminate the process",
 "Nothing reachable from the exported interface ends the process: no exit call, no fatal log, no panic that the entry "
 "point would not turn into an error, and no panic inside a goroutine of the library.",
 INP, "every function reachable through the call graph from the exported interface",
 "One test per process exit would be needed, with the file that reaches it; the tests only use files that parse.",
 [HR, CR, "internal/logging.go"], [("fatal logging kept out of reach", "internal/logging.go Fatal, Fatalf")],
 "call-graph reachability and explicit-panic reachability over SSA",
 "Process-ending calls and panics in goroutines are enumerated over the call graph; every explicit panic reachable from an entry point must be recovered there. Run-time panics of the language (index, nil, allocation) are not decided here.")

prop("A03", "A failed read or write is never dropped",
 "If reading, seeking, writing or closing the underlying file fails while an entry point with an error result is at work, "
 "that entry point does not return success. The library's own readers and writers likewise pass on a failure of what they wrap.",
 ["fault_sequences"], "every call of an input or output function in the module, every path from its failure to the end of the entry point",
 "Tests use healthy files on a healthy disk; a failed operation in the middle needs fault injection at every call.",
 [CR, HR, CW, HW, "internal/slicer.go", "netcdf/hdf5/filters.go"], [("errors thrown where they happen", "thrower.ThrowIfError, util.MustReadLE, util.MustWriteBE")],
 "typestate of I/O errors (pending, handled) over SSA, all paths",
 "At each call of the I/O vocabulary (package io, encoding/binary, os.File, bufio.Writer, zlib) the path is split into success and failure; a failing path must end in a non-nil error or a panic that is turned into one.")

prop("A04", "Files are closed when opening or writing fails and when closed",
 "When an open or create call returns an error, the operating-system file it opened is closed, exactly as it is by the close call of "
 "a writer, whether or not writing the contents succeeds. A successful open leaves it open, and a writer that buffers has written out what it buffered when its close call succeeds.",
 ["inputs", "fault_sequences"], "every exported function that opens a file, and the closing methods of the writers; all paths",
 "A leaked descriptor has no visible effect in a test; it needs a parse error at each place of each format.",
 [CR, HR, CW, HW, "netcdf/netcdf4.go"], [("close on failure", "Open, New, OpenWriter, Close in cdf and hdf5")],
 "typestate of the opened file over SSA, all paths",
 "Each os.Open/os.Create result and each file handed over on success is tracked to the exits; failing exits need a Close on the path.")

prop("A05", "Names that are not valid NetCDF names are rejected",
 "Every way to give a name to a variable, group or attribute when writing, in either format and at the root or in a group, returns an "
 "error for a name that is empty, starts with a character that is not a letter or digit, contains a slash or a control character, ends "
 "in white space, or is too long for the format, and this includes the second and later names of an attribute list. Ordinary names "
 "(letters, digits, underscores inside, dots, dashes, blanks inside, other alphabets) are accepted.",
 INP, "every naming entry point of every writer, names from a table of valid and invalid ones at each position",
 "Tests try one bad name on a few of the entry points.",
 [CW, HW, "internal/validname.go"], [("name check", "internal.IsValidNetCDFName"), ("attribute names", "hasValidNames in cdf and hdf5")],
 "abstract interpretation with a pinned validator, and constant folding of the validator over a name table",
 "All paths of each entry point with the validator's answer pinned to no at each position of the attribute list; the validator itself is folded on a fixed table of names.")

prop("A06", "Writers take the Go types their format has and reject the others",
 "Adding values or variable attributes of a Go type the file format has no type for (bool, int, uint, complex, channel, map, "
 "function, struct, pointer, nil; as scalar, slice of any depth or array) returns an error when it is added. The integer types of 8 to 64 bits, "
 "float32, float64 and string, and named types based on them, are accepted as values, as scalars and nested slices.",
 INP, "every adding entry point of every writer, for every dynamic type in the table",
 "Dynamic types are unbounded; the tests try a few of the supported ones.",
 [CW, HW], [("type checks", "isSupportedType in hdf5writer.go"), ("type checks", "scalarKind, hasV5Attributes in cdfwriter.go")],
 "abstract interpretation with reflection models over a table of dynamic types",
 "Each entry point is interpreted for each dynamic type with the values unknown: every path of an unstorable type must return an error and some path of a storable one must not. CDF global attributes are checked when the file is closed and are not part of the claim.")

prop("A07", "A rejected call leaves no trace in the file being written",
 "When adding a variable, attributes or a group returns an error, the writer is as it was before the call: nothing of the rejected "
 "item, its dimensions, or the file version it would have needed appears in the file.",
 ["inputs", "histories"], "every adding entry point of every writer, every path that ends in an error",
 "Needs a sequence: a rejected call, then more calls, then closing and reading back; rejections come from several places each.",
 [CW, HW], [("all checks before the first store", "AddVar in cdfwriter.go; AddVar, AddAttributes, CreateGroup in hdf5writer.go")],
 "effect analysis over SSA: no store to the writer on a path that ends in an error",
 "All paths, all callees inlined; any store reaching the writer's state followed by an error exit is a violation.")

prop("A08", "Listings and written files do not depend on map iteration order",
 "For the same file or the same sequence of calls, every listing (variables, dimensions, attributes, groups, types) comes in the same order, and "
 "writing gives the same bytes. No result depends on the order in which a hash map is traversed, on time, or on random numbers.",
 ["inputs", "histories", "schedules"], "every traversal of a map in the module, and every use of time or randomness",
 "Go randomises map order per run, so one run of a test sees one order; with few keys a wrong order shows rarely.",
 [HR, HW, CR, CW, "netcdf/util/orderedmap.go"], [("keys sorted or kept in order", "ListVariables, ListSubgroups, sorted keys in hdf5writer.go")],
 "taint of map-iteration order over SSA with sorting as sanitiser",
 "Each range over a map must either have an order-independent body or feed only slices that are sorted before any other use.")

prop("A09", "Slices outside of a variable are rejected, for every bound",
 "Asking for a part of a variable returns an error unless 0 <= begin <= end <= length in every dimension and the number of bounds "
 "equals the number of dimensions; a request that satisfies this is not rejected for its bounds.",
 INP, "every ordering of begin, end, zero and the length, in both formats and for one- and many-dimensional requests",
 "The bounds are arbitrary integers relative to a length in the file; tests try a few.",
 ["internal/slicer.go", CR, HR], [("bounds checks", "GetSlice, GetSliceMD in internal/slicer.go")],
 "abstract interpretation over all weak orderings of the bounds",
 "The bound checks are interpreted for each weak ordering of 0, begin, end and length; comparisons are answered by the ordering, everything else is unknown.")

prop("A10", "Reading does not change what later reads return",
 "Reading values, slices, attributes, types or listings has no effect on later reads: the only state a read may change in an open file is "
 "lookup caches, the position of the file, and reference counts. In particular a failed or partial read does not alter the variable's shape, type, or index.",
 ["histories"], "every store reachable from every reading entry point",
 "Needs two reads in the right order, the first often failing; tests mostly read once.",
 [CR, HR, "internal/slicer.go"], [("stores only into private copies and the known caches", "slicer.go, hdf5.go, cdf.go")],
 "effect analysis over SSA with a table of confirmed caches",
 "Every store on every path of every reading entry point must be to an object made during the call or to a cache field in the confirmed table; what is suppressed during a read must be restored at every exit; CDF readers must set the position before they read.")

prop("A11", "The caller's data is not modified",
 "Writing never changes the values, slices, dimension names or attributes that the caller passed in: not by storing into them, sorting them, or appending to them in place.",
 INP, "every store, copy, append or sort on every path from an entry point that takes caller data",
 "A test would have to compare every argument after every call, and an append in place shows only when the caller's slice has spare capacity.",
 [CW, HW], [("clones before changes", "AddVar in cdfwriter.go")],
 "effect analysis over SSA: provenance of every stored-to object",
 "All paths of the adding and closing entry points; a store, copy, delete, in-place append or sort whose target comes from the caller is a violation. An ordered map built by the caller takes ownership of what it was built from.")

prop("A12", "The file format is recognised by its first bytes",
 "Opening a file whose first byte is 'C' goes to the CDF reader, one that starts with byte 0x89 goes to the HDF5 reader, and any other "
 "content is reported as an unknown format; creating a file honours the requested kind and returns an error for an unknown kind.",
 INP, "all first bytes and all kinds, on the generic entry points",
 "Tests open well-formed files only.",
 ["netcdf/netcdf4.go"], [("dispatch", "Open, New, OpenWriter in netcdf4.go")],
 "abstract interpretation with the first byte and the kind pinned to each value",
 "The byte read by the dispatching function is pinned to each of the 256 values and the constructors that are called are observed.")

prop("A13", "Internal bookkeeping attributes of NetCDF-4 files stay hidden",
 "Attribute lists of an HDF5 file never show the attributes the format uses for its own bookkeeping "
 "(_Netcdf4Dimid, _Netcdf4Coordinates, DIMENSION_LIST, NAME, REFERENCE_LIST, CLASS, _NCProperties), and looking one of them up finds nothing "
 "(except _NCProperties, which is only left out of the lists and can still be looked up). Every other attribute name is shown.",
 INP, "every hidden name and ordinary names, at each place where attributes are handed to the user",
 "Each name at each place is a separate case; tests sample a few.",
 [HR], [("hidden attribute table", "getAttributes and hiding in hdf5.go")],
 "abstract interpretation with attribute names pinned",
 "The function that builds the user-visible attribute map is interpreted with the attribute's name pinned to each name of the table.")

# ---------------------------------------------------------------- classic NetCDF (CDF)

prop("C01", "CDF type codes mean the same in writing, reading and listings",
 "For each of the eleven external types of the CDF formats the code in the file, the size of an element, and the Go type of values, attributes and type "
 "descriptions are those of the specification: 1 byte int8, 2 char string, 3 short int16, 4 int int32, 5 float float32, 6 double float64, 7 ubyte uint8, 8 ushort uint16, "
 "9 uint uint32, 10 int64, 11 uint64. The writer uses the code whose type the reader maps back to the same Go type.",
 INP, "the eleven codes at every place that dispatches on a type code or a Go type",
 "Each code at each of a dozen switches is a case; tests cover the common ones in round trips, where a consistent mistake cancels out.",
 [CR, CW], [("type tables", "getAttr, readNumber, goType, cdlType, convert in cdf.go; scalarKind, writeAttributes in cdfwriter.go")],
 "abstract interpretation with the type code pinned, against the specification's table",
 "Each function that dispatches on a type code is interpreted for each code and the widths, Go types and constants it uses are compared with the table.")

prop("C02", "Default fill values are those of the specification",
 "Where the data of a fixed-size CDF variable is missing because the file ends before it, and the variable has no fill-value attribute, it reads as the default fill value of its type: byte -127, char 0, short -32767, int -2147483647, "
 "float and double 9.9692099683868690e+36, ubyte 255, ushort 65535, uint 4294967295, int64 -9223372036854775806, uint64 18446744073709551614, in the file's byte order; "
 "the value of a _FillValue attribute of the variable's type takes precedence. Data that is there is read first, and a read may begin and end anywhere in a value.",
 INP, "the eleven types, with and without a fill-value attribute",
 "Missing data must occur in a variable of each type; the tests have a few.",
 [CR, "internal/fillvalue.go"], [("fill value reader", "makeFillValueReader in cdf.go"), ("constants", "internal/fillvalue.go")],
 "abstract interpretation per type code; bytes of the fill value followed symbolically through the reader",
 "The reader that data is decoded from is taken apart: the file first, then a reader of the module, whose Read is interpreted for pieces that begin and end anywhere in a value; each byte must be that byte of the table's constant or of the unknown attribute value.")

prop("C03", "CDF header fields are written in the order and width of the format",
 "The header the CDF writer produces follows the grammar of its version: magic, record count, dimension list, attribute list, variable list, each with its tag and count (both zero when absent), "
 "every name as length, bytes and zero padding to four bytes, attribute values with their count and zero padding, counts and sizes of four bytes in version 2 and eight in version 5, offsets of eight bytes, all big-endian.",
 INP, "files of up to three variables and two attributes per list, every type, names and lists of every length",
 "Round trips go through the library's own reader; any length that needs padding, each version and each list combination is a case.",
 [CW], [("header writer", "writeAll, writeVar, writeAttributes, writeName, writeNumber in cdfwriter.go")],
 "abstract interpretation of the writer with lengths as polynomials; what is written is parsed with the format's grammar",
 "Opening, adding and closing are interpreted with types and list counts pinned and all names, values and lengths unknown; the writes that come out are read with a parser for the specification's grammar.")

prop("C04", "A CDF file uses version 5 exactly when it needs to",
 "A file with a variable or an attribute (of the file or of a variable) of a type only version 5 has (unsigned or 64-bit integers; unsigned bytes) is written as version 5; otherwise as version 2. "
 "The version is settled before the first byte of the file is written.",
 ["inputs", "histories"], "each element type, in variables, variable attributes and global attributes, alone and at each position among others",
 "Which item needs version 5 and when it was added is a combination the tests do not enumerate.",
 [CW], [("version choice", "AddVar, hasV5Attributes, writeAll in cdfwriter.go")],
 "abstract interpretation of the writer with pinned types",
 "Opening, adding and closing are interpreted for each type at each place; the version byte in what is written is compared with what the types need.")

prop("C05", "Sizes, offsets and data of a CDF file agree",
 "In a file from the CDF writer the data of each variable begins at the offset that its header entry has, the size there is that of its data rounded up to four bytes (of one record, if it has an unlimited dimension), "
 "each variable refers to dimensions of its own lengths and given names (dimensions that contradict those of earlier variables are an error), and its data is all its values, in row-major order, big-endian, padded with zeros to a multiple of four bytes; strings are padded with zeros to the longest. "
 "Variables without records come after those of fixed size.",
 INP, "files of up to three variables of every type, names, attributes and dimensions of every length",
 "An offset depends on everything before it; the tests have few lengths that need padding before a second variable, and the library's own reader shares the computation.",
 [CW], [("sizes", "computeVsize, computeVarSize, computeAttributeSize in cdfwriter.go"), ("data", "store functions in cdfwriter.go")],
 "abstract interpretation of the writer with lengths as polynomials",
 "Offsets and sizes are computed by the interpreter as polynomials in the unknown lengths (per rest modulo 4) and must be equal, as polynomials, to the positions and lengths of what is written.")

prop("C06", "Malformed CDF headers are rejected",
 "Opening a CDF file returns an error for a wrong magic number, a version other than 1, 2 and 5, a record count of all ones (streaming), a list tag that is not the expected one or absent, "
 "an absent list with a count, an attribute type code outside 1 to 11 or above 6 before version 5, a variable that names an undefined dimension, two variables of the same name, more than 1024 dimensions in the file "
 "or of a variable, and a name length or number of attribute values larger than the file. Any value that the format allows at these places is accepted. The values of a variable whose type code is unknown, "
 "or whose second dimension is the unlimited one, are an error.",
 INP, "every such malformation at every place of the header",
 "Each malformation at each place is a file of its own; tests have a few.",
 [CR], [("header checks", "readHeader, getAttr, getNElems, getDim, getVar in cdf.go")],
 "abstract interpretation of opening on headers with one number left open as a set of values",
 "Headers of all three versions are given to the opening functions number by number; one number at a time is the set of all its values, which every comparison divides. What is left on paths without an error must be exactly what the format allows there.")

prop("C07", "CDF values and slices are the elements at the positions the format gives",
 "GetVariable, and GetVarGetter's Values, GetSlice and GetSliceMD, of a CDF variable give exactly the elements that the format puts there: row by row from the variable's begin; for a variable with an unlimited dimension "
 "record i begins i record sizes after its begin, where a record size is the sum of the padded sizes of all record variables, or the unpadded size if there is only one. Numbers are read big-endian as their type, values come in nested slices "
 "of the Go type and lengths of the variable's type and shape, and characters as strings of their bytes. A slice has the elements of the whole value at its positions.",
 INP, "every type, dimensions up to four, with and without an unlimited dimension",
 "Positions depend on shape, type and the other variables of the file; the tests have some shapes, mostly with one record variable, and slices of few of them.",
 [CR, "internal/slicer.go"], [("reading of values", "newRecordReader, getVarCommon, convert in cdf.go"), ("slices", "GetSlice, GetSliceMD")],
 "abstract interpretation of opening and reading with symbolic file positions",
 "A header with symbolic begins is opened and variables and slices read by interpretation; each byte that is read is labelled with its position, a polynomial, and the values returned are compared, element by element, with the positions the format gives. Lengths of fixed dimensions are small numbers; missing data (fill values) is C02.")

# ---------------------------------------------------------------- HDF5 reading

prop("H01", "HDF5 metadata checksums are verified",
 "Metadata that carries a checksum (superblock versions 2 and 3, version 2 object headers and their continuation blocks, B-tree version 2 headers, internal and leaf nodes, "
 "fractal heap headers and indirect blocks) is only used after the checksum over it was compared and agreed; a mismatch is an error.",
 INP, "every place that recognises one of these structures",
 "Every byte of every structure is a corruption; a skipped comparison is invisible on good files.",
 [HR], [("checksum check", "checkChecksum in hdf5.go")],
 "must-call analysis: every success path after a signature passes its checksum comparison",
 "For each signature, every path of the reading function that ends normally contains the comparison; the comparison is interpreted and must fail on a mismatch. Fractal heap direct blocks are not covered: their checksum is optional.")

prop("H02", "HDF5 structure signatures are checked before use",
 "Every HDF5 structure with a signature (superblock, object headers and continuation blocks of version 2, B-trees of both versions, local and global heaps, symbol nodes, fractal heap headers and indirect blocks) "
 "is only interpreted after its signature was found equal to the expected one, else the reader reports an error. Fractal heap direct blocks are read by offset and are not part of the claim.",
 INP, "every structure with a signature (superblock, OHDR, OCHK, TREE, HEAP, SNOD, GCOL, BTHD, BTIN, BTLF, FRHP, FHIB)",
 "A missing check is invisible on good files.",
 [HR], [("signature check", "checkMagic, isMagic in hdf5.go")],
 "must-check analysis over SSA with the comparison's answer pinned",
 "With the answer of the comparison pinned to unequal, the functions that check a signature may not end normally; the set of signatures checked is compared with the table.")

prop("H03", "Unknown versions of HDF5 structures are rejected",
 "For each versioned structure (superblock, object header, dataspace, datatype, fill value, layout, filter pipeline, attribute, link, group and attribute info, B-tree version 2, fractal heap, global heap, local heap, symbol node) "
 "a version number outside the set the reader implements is an error.",
 INP, "all 256 values of every version byte",
 "Each version byte has some 250 illegal values and the tests have files of the legal ones.",
 [HR], [("version assertions", "checkVal, assert in hdf5.go")],
 "abstract interpretation with the version byte pinned to every value",
 "The byte is found by its offset after the signature or message type and followed as the set of all its values; only the confirmed ones may reach a normal end.")

prop("H04", "HDF5 features the reader lacks are errors, not wrong data",
 "A file that uses something the reader does not implement (an unknown filter, layout class, chunk index, datatype class or datatype property, link type, virtual or external storage) "
 "gets an error when it is used; it never silently reads as different data. The obsolete time class is read as having no values.",
 INP, "every discriminating value in the file that selects a feature",
 "The tests' files only use implemented features.",
 [HR], [("unsupported-feature errors", "fail, ErrUnsupportedFilter and the switches in hdf5.go")],
 "exhaustive pinning of discriminators at each dispatch",
 "Each discriminating field is found by its offset and followed as the set of all its values, split by every comparison; only values of the confirmed table may reach a normal end.")

prop("H05", "HDF5 datatype classes, sizes, signs and byte order map to the right Go types",
 "Values of a fixed-point or floating-point HDF5 type of a supported size become Go values of the same size and signedness, decoded in the byte order that the type declares, nested in as many slices, of the lengths of the dimensions, as there are dimensions. "
 "Strings, characters, opaque types, compounds, object references, sequences and arrays become Go values of the shape their class calls for, reading them does not mix types (which would panic), "
 "and the type names of numbers and strings are those of the same Go and CDL types. Other sizes and byte orders, and classes that do not exist, are errors.",
 INP, "all sizes, signs, byte orders and versions of numbers, the other classes, and zero to three dimensions with and without elements",
 "Each combination is a file of its own; big-endian, nested and empty combinations are rare in the tests.",
 [HR, "netcdf/hdf5/types.go", "netcdf/hdf5/fixedPoint.go", "netcdf/hdf5/floatingPoint.go", "netcdf/hdf5/array.go", "netcdf/hdf5/string.go"], [("dispatch table and allocators", "type managers in netcdf/hdf5")],
 "abstract interpretation of the reading of datatypes and values with the datatype pinned",
 "The bytes of each datatype are pinned; the Go type, slice lengths, number sizes, byte orders and type names that result are computed and compared with the specification's.")

prop("H06", "HDF5 filters are undone in reverse order by the right decoder",
 "Chunk data goes through the inverse filters in the reverse of the order in the pipeline message; deflate, shuffle and fletcher32 each get their own decoder with their own parameters and sizes, "
 "filters masked out for a chunk are skipped, and this holds for each chunk and for reads of a part of a chunk. Shuffled bytes are put back where they were, a fletcher32 checksum that does not match is an error and one that does is not, and any other filter is an error.",
 INP, "every sequence of the three filters, every mask, both versions of the pipeline message, and the decoders' treatment of each byte",
 "Pipelines of several filters in unusual orders, masks and damaged checksums do not occur in the tests.",
 [HR, "netcdf/hdf5/readers.go"], [("filter pipeline", "newRecordReader in hdf5.go"), ("decoders", "fletcher and unshuffleReader in readers.go")],
 "abstract interpretation of the readers' construction with the bytes of the messages pinned; the decoders on symbolic bytes",
 "The readers that are constructed for each pipeline are followed from the file outwards: which decoders, in which order, with which sizes. The decoders themselves are interpreted with symbolic bytes (unshuffling) and folded over a table (checksum).")

prop("H07", "HDF5 values and slices are the elements at the positions the layout gives",
 "GetVariable, and GetVarGetter's Values, GetSlice and GetSliceMD, of an HDF5 variable of integers or floating-point numbers give exactly the elements that the file has at those positions: row by row for contiguous and compact data; "
 "for data in chunks, found by a version 1 B-tree of one or more levels, each element from the chunk that covers it, after undoing the chunk's filters, whatever the shape of the chunks (partial at the edges, larger than the data, of several rows). "
 "Elements of chunks that are not in the file, and of data never written, are the fill value. Numbers are read in the byte order of their type, in nested slices of the Go type and lengths of the variable's type and shape. A slice has the elements of the whole value at its positions.",
 INP, "every integer and floating-point type in both byte orders, up to four dimensions, the three layouts, a table of chunk shapes, filters and missing chunks, all bounds of the first dimension",
 "Positions depend on shape, chunk shape, filters and bounds at once; the tests read few chunked files, mostly whole, and hardly any slice of one.",
 [HR, "netcdf/hdf5/readers.go", "netcdf/hdf5/segment.go", "netcdf/hdf5/fixedPoint.go", "netcdf/hdf5/floatingPoint.go", "internal/slicer.go", "internal/fillvalue.go"],
 [("chunks", "newRecordReader, readBTreeNodeAny in hdf5.go"), ("partial chunks", "layoutReader in readers.go"), ("slices", "GetSlice, GetSliceMD")],
 "abstract interpretation of opening and reading over file images with symbolic data",
 "The metadata of small files is made by the check, each byte of data is a symbol named by its position; files are opened and variables and slices read by interpretation, and the values returned are compared, element by element, with the bytes the format puts there. Lengths are small numbers.")

prop("H11", "HDF5 groups, variables and attributes are found under their names",
 "Each group and variable of an HDF5 file with one hard link, and each attribute of a group or variable, is listed exactly once under its name (ListVariables, ListSubgroups, Attributes().Keys()) and GetVarGetter, GetGroup and Attributes().Get with that name give that object, with its own data and attributes (NetCDF-4's dimension scales and bookkeeping attributes apart: A13). "
 "That holds for links and attributes in object headers (versions 1 and 2, in one or several blocks, with or without creation order), for links in symbol tables of old groups (of one level, with superblock version 0 too), and for dense storage: fractal heaps whose objects are in a root block, in the blocks of an indirect block or in indirect blocks below it, with a version 2 B-tree of names of depth 0 to 2.",
 INP, "32 files, each with one way of storing links and attributes; groups nested three deep",
 "The tests read files that the C library happened to write with few ways of storing; deep heaps and indexes need thousands of links there.",
 [HR], [("heaps", "readHeap, readRootBlock, doDoubling in hdf5.go"), ("name index", "readBTree, readBTreeInternal, readRecords"), ("old groups", "readSymbolTable, readLocalHeap"), ("headers", "readCommon, readContinuation"), ("lists", "ListVariables, ListSubgroups, GetGroup")],
 "abstract interpretation of opening and reading over file images with symbolic data",
 "The metadata of small files is made by the check, following the specification, with small heap blocks and sparse heaps so that few objects reach every kind of block; files are opened and everything in them is listed and looked up by interpretation, and compared with what was put there. The values of variables are symbols named by the position of their data. Names and the number of objects are those of the files.")

prop("H08", "HDF5 addresses outside of the file are errors",
 "No read is attempted at an address of an HDF5 file that lies beyond its end: such an address, wherever in the file it was found, gives an error.",
 INP, "every place that positions the reader",
 "Every address field in every structure is a case.",
 [HR], [("the one gate for positioning", "newSeek in hdf5.go")],
 "who-may-call analysis, and interpretation of the gate over all orderings of address and size",
 "Every positioning of a file reader in the package goes through the gate; the gate is interpreted for each ordering of the address and the file size.")

prop("H09", "A file shared by readers is positioned and read under its lock",
 "Readers of one open HDF5 file (groups, variables, and their slices) share one operating-system file: its position and the reference count are only touched while its lock is held, and the lock is released on every path.",
 ["schedules"], "every access of the shared fields in the module",
 "A race needs two readers at the same instant; tests are sequential.",
 ["netcdf/hdf5/readers.go"], [("lock", "readers.go")],
 "lockset analysis over SSA",
 "Every access to the guarded fields happens with the lock held on all paths, and every path releases what it takes.")

prop("H10", "A file stays open until its last user closes it, and not longer",
 "Opening a group of an open file takes one reference to the file, and failing to open one takes none; closing an open group drops exactly one; the close that drops the last reference closes the operating-system file, exactly once; "
 "closing once more after that is harmless; and on a closed group opening a subgroup is an error and nothing reads from the file.",
 ["histories"], "all histories of opening subgroups and closing",
 "Needs histories of opens and closes that tests do not enumerate.",
 ["netcdf/hdf5/readers.go", HR, CR], [("reference count", "dup, dereference in readers.go; fileRefCount in cdf.go")],
 "typestate of the reference count by abstract interpretation",
 "Close and GetGroup are interpreted with the count and the state of the group pinned; the count, the handle and the closes of the file are followed on all paths.")

# ---------------------------------------------------------------- HDF5 writing

WU = "netcdf/hdf5/writer_utils.go"
WT = "abstract interpretation of the writer; the byte stream it produces is parsed with the format's specification"
WS = ("every storable type (numbers, strings, opaque values, enumerations, compounds, variable-length sequences, and lists of them in zero to three dimensions) "
 "as variables and as attributes of the file, of groups and of variables")

prop("W01", "HDF5 datatypes are written with the encoding of the specification",
 "For each value the HDF5 writer stores, as a variable or an attribute, the datatype it writes is the one of that value: class, version, size, sign, precision, "
 "floating-point layout, and members with their names, types, offsets and values, as the HDF5 specification encodes them; the byte order it states is the one the numbers have, on little-endian and big-endian machines.",
 INP, WS, "Round trips use the library's own reader, which ignores part of these fields, and run on one kind of machine.",
 [HW, WU, "netcdf/util/binary.go"], [("datatype messages", "buildDatatypeMessage and what it calls in writer_utils.go")], WT,
 "The writer is interpreted abstractly for files of every storable type with unknown values and names; each datatype in the stream is parsed and compared with the value given.")

prop("W02", "HDF5 objects are written with the right messages",
 "Every object header the HDF5 writer writes is well-formed: the version and flags, the type, flags, size and layout of each message, dataspaces with the rank and lengths of the value, and exactly "
 "one link, of the right name, to each variable, group and dimension of a group, and one attribute, of the right name, for each attribute given. A group is not given the name of a variable.",
 INP, WS + "; groups in groups; names of each length modulo 8 and of any length",
 "The library's reader is lenient, so round trips do not settle it; padding depends on lengths of names.",
 [HW, WU], [("object headers", "writeObjectHeaderV2, writeGroupObjectHeaderV2, writeVarObjectHeaderV2, buildAttributeMessage")], WT,
 "The object headers in the stream are parsed, starting at the superblock, and their links, attributes and dataspaces are matched with what was given.")

prop("W03", "Checksums are of all that precedes them",
 "The checksum of the superblock and of every object header the HDF5 writer writes is computed over exactly the bytes of that structure as they are in the file, from its first byte to the checksum; nothing of it is changed after it was computed.",
 INP, "every structure with a checksum, in files of " + WS,
 "The reader verifies checksums only where a test writes the same shape of file; what is patched later depends on the shape.",
 [HW], [("checksums", "write, writeObjectHeaderV2")], WT,
 "The bytes that were hashed are compared, symbolically, with the bytes of the structure in the final file. That the hash function is lookup3 is H01's side of it.")

prop("W04", "What does not fit a size field of HDF5 is an error",
 "When a message or an attribute is longer than 65535 bytes, or a name is too long for the field that holds its length, closing the HDF5 writer returns an error; the length is never cut off.",
 INP, "names and strings of any length",
 "Needs an object larger than the field at each place.",
 [HW, WU], [("size assertions", "hdf5writer.go")], WT,
 "Lengths of names and strings stay symbolic; where one is written into one or two bytes, the conditions of the path must bound it.")

prop("W05", "Addresses and sizes in written HDF5 files match what they describe",
 "In a file from the HDF5 writer every address (of the root group, of linked objects, of data, of the heap, of references) is where that structure begins, every size is the length of what it describes, "
 "the end-of-file address is the length of the file, heap objects are aligned, and no two structures overlap.",
 INP, WS, "Sums of lengths that depend on each other; a reader that does not look at a field does not notice.",
 [HW, WU], [("addresses", "write, writeGlobalHeap, writeGroupContents, writeDataVar")], WT,
 "Positions in the stream are polynomials over the lengths; each address that is parsed must be the position where the structure is found, and each size the distance.")

prop("W06", "The HDF5 writer stores the values it was given",
 "In a file from the HDF5 writer each variable and attribute has the values given for it, each once, in the order of the dimensions, encoded as its datatype says; strings and sequences that are kept in the heap "
 "are found there through their references with the right length and content. Values that cannot be stored this way, like sequences of sequences, are an error.",
 INP, WS, "Every element is a chance to store another one's value; tests compare a few values through the library's own reader.",
 [HW, WU], [("values", "writeDataRecursive, writeAttributeDataRecursive, writeCompoundValue, serializeVlenElement, collectStrings")], WT,
 "Values are unknown but named by their place; where the file has a value, it must be the one of that place.")

prop("W07", "Dimensions of HDF5 variables are the ones given",
 "In a file from the HDF5 writer each variable with named dimensions refers, in order, to dimension scales of those names and lengths, each written once, with an identifier of its own; a coordinate variable is the scale of its dimension. "
 "What cannot be expressed this way is an error: a dimension with two lengths, more names than the value has dimensions, lists of different lengths in a dimension, a variable that has the name of a dimension but is not its coordinate variable.",
 INP, "shared, repeated, unnamed, empty and coordinate dimensions, in groups too",
 "The library's reader takes the lengths from elsewhere, so it does not notice.",
 [HW, WU], [("dimension scales", "createDimensionScales, writeDimScaleContents, collectDimReferences, buildDimensionListAttribute, isRectangular")], WT,
 "The references of each variable are followed through the heap to the scales, whose names and lengths are compared; files that have to be rejected must have no successful path.")

# ---------------------------------------------------------------- not addressed

na("N01", "Values read back are the values written",
 "For every variable and attribute, writing a value and reading it back gives the same value, shape and type.",
 INP, "all values and shapes", "Values are unbounded.",
 [CR, CW, HR, HW], [("readers and writers", "cdf, hdf5")],
 "Equality of the data that flows through offset arithmetic, buffering and encoding depends on run-time quantities that no sound static argument in reach bounds; the format-level parts that can be decided are C01 to C04, H05, W01 to W03.")
na("N04", "Files written can be read by the reference NetCDF library",
 "The C NetCDF and HDF5 libraries read every file this library writes, with the same content.",
 INP, "all files", "The reference library is another program.",
 [CW, HW], [("writers", "cdf, hdf5")],
 "The behaviour of another program is not in this source; the specification's tables are used as the oracle instead (C01 to C04, W01 to W03).")
na("N05", "Memory use is bounded by the size of the file",
 "Opening or reading a damaged file never allocates much more memory than the file is large.",
 INP, "all files", "All damaged files.",
 [CR, HR], [("count checks", "cdf.go, hdf5.go")],
 "Bounding allocation needs the numeric values of products of dimensions and compression ratios at run time; the count checks that are decidable are in C06.")
na("N06", "Concurrent use of one open file by several goroutines is safe",
 "Several goroutines may read from groups of the same open file at once.",
 ["schedules"], "all schedules", "All schedules.",
 [HR, "netcdf/hdf5/readers.go"], [("lock", "readers.go")],
 "The library does not promise it beyond the shared file position: group objects and caches are unsynchronised by design. The promise that exists is H09.")

PENDING = {}
for _p in P:
    if _p["technique"] and _p["id"] not in ("A01", "A02", "A03", "A04", "A05", "A06", "A07", "C01", "H01", "H02", "H03", "H04", "A09", "A12", "A13", "H08", "A10", "A11", "A08", "H09", "H10", "H05", "H06", "C03", "C04", "C05", "W01", "W02", "W03", "W04", "W05", "W06", "W07", "C06", "C02", "C07", "H07", "H11"):
        PENDING[_p["id"]] = "The check for it is being built; it is not claimed yet."
