#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
W='netcdf/cdf/cdfwriter.go'; R='netcdf/cdf/cdf.go'
HW='netcdf/hdf5/hdf5writer.go'; HU='netcdf/hdf5/writer_utils.go'; H='netcdf/hdf5/hdf5.go'
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))

p("C01","Classic files: values written are the values read back, bit for bit",
 "Every set of rectangular variables the classic (CDF) writer accepts - any supported element type, scalar to multi-dimensional, any number of variables in one file - is returned by the reader with the same Go type, the same shape and bit-identical values (text padded with NUL bytes to the longest string). Variables are listed in the order they were added, with the dimension names they were given, and dimension lengths equal the lengths of the data.",
 ["inputs","configurations"],"all element values of all 11 types; all shapes, numbers and orders of variables within the stated bounds",
 "Tests compare a few hand-picked constants per type; no test quantifies over element values, shapes or combinations of variables of different size and type in one file.",
 [W,R],[("AddVar/writeVar/writeData",W),("readHeader/getVarCommon/convert",R)],["api.Group.GetVariable after api.Writer.Close"])
p("C02","Classic files: attributes keep name, order, type and value",
 "Global and variable attributes accepted by the classic writer are read back under the same names, in the same order, with the same type and bit-identical values, a one-element list being read as the scalar. This does not depend on how many attributes there are, their lengths, or on which variables and other attributes are in the file.",
 ["inputs","configurations"],"all attribute values of all 11 types, scalar and list, list lengths and orders within bounds, on the file and on variables",
 "Tests write a fixed list of attributes and compare constants; padding and size-computation mistakes show only for particular lengths and combinations.",
 [W,R],[("writeAttributes/computeAttributeSize",W),("getAttr/getAttrList",R)],["api.Group.Attributes","api.Variable.Attributes"])
p("C03","Classic files written conform to the published netCDF classic format",
 "The bytes the classic writer produces parse under an independent reading of the netCDF classic format specification: magic and version number, dimension/attribute/variable lists with zero padding to 4 bytes, type codes, dimension ids, vsize, and a data offset for each variable that points at exactly its big-endian data. Types that exist only in the 64-bit-data format (unsigned, 64-bit) appear only in version 5 files, version 5 is used for the whole file, and no variable's data overlaps another's or the header.",
 ["inputs","configurations"],"all files the writer produces for variables, dimensions, attributes within the stated bounds",
 "Tests read the writer's output with this library's own reader (or ncdump when it is present), so symmetric mistakes cancel out; only samples are compared.",
 [W],[("writeAll/writeVar/computeVarSize",W)],["bytes of the file after Close"])
p("C04","Classic reader decodes every well-formed version 1, 2 and 5 file exactly",
 "For any well-formed classic file of version 1, 2 or 5 with fixed-size variables - however the variables' data is placed in the file - the reader reports exactly the dimensions, attributes, variables, types and values that the file encodes.",
 ["inputs","configurations"],"all bytes of names, attribute values and data; versions 1, 2 and 5; offsets in any order, with gaps",
 "Tests only read files that ncgen or this library's writer laid out, in one layout order.",
 [R],[("readHeader/getVar/getAttr/readNumber",R),("getVarCommon/convert",R)],["api.Group"])
p("C05","Classic record variables: each record is read from its own place",
 "In a classic file with an unlimited dimension, reading a record variable - whole or any range of records - returns exactly the values stored in its slots of the record section: records of all record variables interleaved, each slot padded to 4 bytes except when there is a single record variable.",
 ["inputs","configurations"],"all values; one to three record variables of any types and inner shapes; zero to several records; every record range",
 "Tests have a handful of ncgen files with one layout each and never read a record range beginning after the first record with several record variables.",
 [R],[("recSize/specialCase",R),("newRecordReader",R)],["GetVariable","VarGetter.GetSlice"])
p("C06","Classic slices equal the same sub-range of the whole variable",
 "For any variable of a classic file, GetSlice(b,e) with 0<=b<=e<=Len and GetSliceMD with in-range bounds return exactly the elements of that sub-range of the whole variable, in the same Go type; Values equals GetVariable. Ranges that are reversed, negative or beyond the variable's shape, or of the wrong rank, are errors, never other data and never a panic.",
 ["inputs"],"all values; all begin/end pairs (as 64-bit integers) for shapes up to three dimensions, text included",
 "Tests slice a few in-range ranges of a few variables; the range parameters are unbounded 64-bit integers.",
 [R,"internal/slicer.go"],[("getSlice/getSliceMD",R),("SliceMD",'internal/slicer.go')],["VarGetter"])
p("C07","Classic reader supplies fill values for data that is not in the file",
 "Where a classic file ends before a variable's data, the missing elements are read as the variable's _FillValue attribute if it has one, else as the netCDF default fill value for its type; elements present are unaffected. A _FillValue that is not one value of the variable's type is an error, never other data.",
 ["inputs","crash_points"],"every truncation point on an element boundary, every fill value, every type, fixed-size and record variables",
 "Tests exercise the fill reader with a few lengths and one or two fill-value files.",
 [R,"internal/fillvalue.go"],[("makeFillValueReader",R),("FillValueReader.Read",'internal/fillvalue.go')],["GetVariable"])
p("C08","Malformed classic files are rejected with an error, never a crash",
 "Opening and reading any byte sequence as a classic file either returns an error or yields data; it never panics, exits the process, or loops without end.",
 ["inputs"],"every value of symbolic windows of bytes placed over every field of several structurally different headers, and every truncation point",
 "Tests have a handful of corrupted samples; the space of malformed headers is unbounded.",
 [R],[("getNElems/readName/getVar asserts",R),("thrower.RecoverError",R)],["netcdf.Open/New","api.Group methods"])
p("C09","Classic writer: what it cannot represent is refused, with nothing half-done",
 "Input the classic format cannot represent faithfully - ragged slices, unsupported types, a duplicate variable name, a dimension given two lengths, more dimension names than dimensions, an empty inner dimension - makes AddVar, AddAttributes or Close return an error. A refused call leaves everything else in the file as if it had not been made, and calls never change the caller's data.",
 ["inputs","histories"],"all mixes of accepted and refused calls within bounds, in any order",
 "Tests check a few individual refusals but not what is in the file afterwards, and do not cover ragged or duplicate input.",
 [W],[("AddVar/getDimLengths",W)],["api.Writer"])
p("C10","HDF5 files: numeric values written are read back bit for bit",
 "Every set of rectangular numeric variables the HDF5 (netCDF-4) writer accepts - all integer and floating types, scalars to multi-dimensional, a dimension name for each dimension - is returned by the reader with the same Go type, shape, dimension names and bit-identical values. The set of variables is complete whatever their number and order.",
 ["inputs","configurations"],"all element values of all 10 numeric types; shapes, numbers and orders of variables within bounds",
 "Tests compare constants per type; no test quantifies over values, shapes and combinations.",
 [HW,HU,H,"netcdf/hdf5/fixedPoint.go","netcdf/hdf5/floatingPoint.go"],[("AddVar/writeData",HW),("getData",H)],["GetVariable"])
p("C11","HDF5 files: text values written are read back exactly",
 "Strings, lists and nested lists of strings of any lengths (empty ones included), and any bytes other than NUL, written to an HDF5 file are read back exactly, each at its own index.",
 ["inputs","configurations"],"all string contents without NUL, all length combinations within bounds, scalar/1-d/2-d",
 "Tests use fixed ASCII words; padding and heap-index mistakes need particular lengths and counts.",
 [HW,HU,H,"netcdf/hdf5/string.go","netcdf/hdf5/vlen.go"],[("global heap / string write",HW),("readGlobalHeap, string decoding",H)],["GetVariable"])
p("C12","HDF5 files: attributes keep name, order, type and value",
 "Attributes written on the file, on a group or on a variable of an HDF5 file are read back with the same names, in the same order, with the same type and bit-identical values (a one-element list reads as the scalar), whatever their number.",
 ["inputs","configurations"],"all attribute values of all types, scalar and list; on root, groups and variables; number and lengths within bounds; every map iteration order",
 "Tests write fixed attributes and mostly compare values, not order; order can depend on map iteration.",
 [HW,H],[("writeAttributes",HW),("getAttributes",H)],["Attributes()"])
p("C13","HDF5 files: groups and dimensions are preserved",
 "The tree of groups created with the HDF5 writer is reported by the reader, every variable and attribute is found in exactly the group it was added to, and groups can be reached by absolute and relative paths. The root group reports every dimension used by variables anywhere in the file, with its length, and each variable reports its dimension names in order.",
 ["configurations","histories"],"all small group trees, placements of variables and shared or distinct dimensions, in any creation order",
 "Tests check a few fixed trees.",
 [HW,H],[("CreateGroup/writeGroup",HW),("GetGroup/ListSubgroups/GetDimension",H)],["api.Group"])
p("C14","HDF5 files written are structurally valid HDF5",
 "The bytes the HDF5 writer produces parse under an independent reading of the HDF5 file format specification: superblock with correct base/end-of-file/root addresses, object headers and global heaps with correct sizes, every metadata block's Jenkins checksum correct, every address inside the file and no two blocks overlapping, and each dataset's raw data at its address in its declared datatype.",
 ["inputs","configurations"],"all files the writer produces for variables, attributes and groups within bounds, all data values",
 "Tests read the output with this library's own reader, which shares its assumptions, and with external tools only when installed and on samples.",
 [HW,HU,"netcdf/hdf5/checksum.go"],[("Close/write",HW),("checksum",'netcdf/hdf5/checksum.go')],["bytes of the file after Close"])
p("C15","HDF5 slices equal the same sub-range of the whole variable",
 "For any variable of an HDF5 file, GetSlice(b,e) with 0<=b<=e<=Len and GetSliceMD with in-range bounds return exactly that sub-range of the whole variable; ranges that are reversed, negative, beyond the shape or of the wrong rank are errors, never other data and never a panic (a scalar has the one slice 0,1). Taking a slice does not affect what any later call returns.",
 ["inputs","histories"],"all values; all begin/end pairs for contiguous and chunked variables of up to three dimensions; sequences of slice and whole reads",
 "Tests slice a few ranges once; they do not quantify over ranges, layouts or call sequences.",
 [H,"internal/slicer.go"],[("GetVarGetter/getSlice",H)],["VarGetter"])
p("C16","Chunked HDF5 data is reassembled at the right coordinates",
 "A chunked dataset is read as the array its chunks encode: each chunk placed at its own coordinates, edge chunks clipped, chunks that are not present read as the fill value, whatever order the chunks are stored in.",
 ["inputs","configurations"],"all data bytes, all presence patterns and chunk storage orders for chunk shapes within bounds in up to three dimensions",
 "Tests read a few files whose chunks are all present and stored in order.",
 [H,"netcdf/hdf5/segment.go","netcdf/hdf5/readers.go"],[("chunk B-tree reading",H),("segment sorting",'netcdf/hdf5/segment.go')],["GetVariable"])
p("C17","Fletcher-32 protected HDF5 data: intact data is accepted, damage refused",
 "A chunk protected by the Fletcher-32 filter is returned when its stored checksum is the one the HDF5 library computes for it, and an error is returned when any of its bytes has been changed so that the checksum no longer agrees.",
 ["inputs","fault_sequences"],"all chunk contents and stored checksums within the length bound",
 "Tests check a couple of byte strings; agreement with the HDF5 checksum for all contents is a statement over all byte strings.",
 ["netcdf/hdf5/readers.go","netcdf/hdf5/checksum.go",H],[("newFletcher32Reader",'netcdf/hdf5/readers.go')],["GetVariable"])
p("C18","Shuffled HDF5 data is restored exactly",
 "Data stored through the HDF5 shuffle filter, alone or combined with compression and checksum filters, is returned as the original bytes for every element size and chunk length.",
 ["inputs","configurations"],"all chunk contents; element sizes 1..8; chunk lengths and filter combinations within bounds",
 "Tests check one or two small examples.",
 ["netcdf/hdf5/readers.go",H],[("newUnshuffleReader",'netcdf/hdf5/readers.go')],["GetVariable"])
p("C19","HDF5 metadata damage is detected by its checksums",
 "When any single byte covered by a checksum in an HDF5 file's metadata (superblock, object headers and other checksummed blocks) is changed, reading the objects that block describes fails with an error instead of returning different data.",
 ["fault_sequences","inputs"],"every position of the checksummed blocks, every non-zero change of that byte",
 "Tests flip a few chosen bytes.",
 [H,"netcdf/hdf5/checksum.go"],[("checkChecksum",H)],["hdf5.Open/GetVariable"])
p("C20","Malformed HDF5 files are rejected with an error, never a crash",
 "Opening and reading any byte sequence as an HDF5 file either returns an error or yields data; it never panics, exits the process, or loops without end.",
 ["inputs"],"every value of symbolic windows of bytes over the header and metadata blocks of several files, and truncation points",
 "Tests have a handful of corrupted samples.",
 [H,"netcdf/hdf5/assert.go"],[("assertError/thrower.RecoverError",H)],["netcdf.Open","api.Group methods"])
p("C21","User-defined HDF5 types are decoded as declared",
 "Compound, enumeration, opaque, array and variable-length values in an HDF5 file are returned with the fields, element order and values the file encodes, and the types' names and descriptions are reported consistently.",
 ["inputs"],"all bytes of the stored values for files declaring such types",
 "Tests compare fixed sample files.",
 ["netcdf/hdf5/compound.go","netcdf/hdf5/enum.go","netcdf/hdf5/opaque.go","netcdf/hdf5/array.go","netcdf/hdf5/vlen.go"],[("type managers",'netcdf/hdf5/types.go')],["GetVariable","ListTypes/GetType"])
p("C22","The ordered attribute map behaves as an ordered map",
 "After any sequence of constructing, adding, and hiding, the ordered map returns for each key the last value given, lists each visible key exactly once in order of first insertion, never lists a hidden key, and refuses construction when keys and values do not match exactly. Type descriptions are those of the value stored.",
 ["histories","inputs"],"all operation sequences within the bound over symbolic keys",
 "Tests run a few fixed sequences.",
 ["netcdf/util/orderedmap.go"],[("Add/Get/Hide/Keys",'netcdf/util/orderedmap.go')],["util.OrderedMap"])
p("C23","HDF5 writer: what it cannot represent is refused, with nothing half-done",
 "Input the HDF5 writer cannot represent faithfully - ragged slices, attributes too large for an object header, unsupported types, a duplicate name in a group, a dimension given two lengths, more dimension names than dimensions - makes AddVar, AddAttributes, CreateGroup or Close return an error. A refused call leaves everything else in the file as if it had not been made, and calls never change the caller's data.",
 ["inputs","histories"],"all mixes of accepted and refused calls within bounds, in any order",
 "Tests check some refusals but not what is in the file afterwards.",
 [HW],[("AddVar/CreateGroup checks",HW)],["api.Writer"])
p("C24","Exactly the valid netCDF names are accepted by both writers",
 "A variable, attribute or group name is accepted exactly when it is valid: it begins with a letter or digit, contains no control character or slash, and does not end in white space. (The HDF5 writer also refuses the four attribute names that HDF5 dimension scales reserve, and names longer than 255 bytes.) Accepted names are read back byte for byte.",
 ["inputs"],"all byte strings of the lengths within bounds, UTF-8 multi-byte sequences included",
 "Tests list a few valid and invalid names.",
 ["internal/validname.go",W,HW],[("IsValidNetCDFName",'internal/validname.go')],["AddVar/AddAttributes/CreateGroup"])
p("C25","Failed writes are reported, and a reported success means a complete file",
 "If the file system stops accepting data at any point while a file is being written, Close (or an earlier call) returns an error; when every call returned no error the file reads back completely.",
 ["crash_points","fault_sequences"],"every byte position at which the underlying file stops accepting data, for both formats",
 "Tests never inject a write failure.",
 [W,HW],[("Close/Flush",W),("Close",HW)],["api.Writer.Close"])
p("C26","Open picks the format by content and closes the file exactly once",
 "Opening by name or by reader chooses the format from the file's first bytes, refusing anything else with the documented error. On success closing the group closes the underlying file exactly once; on failure a file opened by name is not leaked and one passed by the caller is left to the caller, as documented.",
 ["inputs","histories"],"all leading bytes; success and failure paths; sequences of opening groups and closing",
 "Tests open a few good and bad files and never observe closing.",
 ["netcdf/netcdf4.go",R,H],[("Open/New/getKind",'netcdf/netcdf4.go')],["netcdf.Open/New","ReadSeekerCloser.Close"])
p("C27","Shape, length, type and dimension metadata agree with the values",
 "For every variable of a readable file, Len, Shape, Dimensions, Type, GoType and Attributes of its getter agree with each other, with the values read, with the group's dimensions (an unlimited dimension's declared length is 0), and with GetVariable.",
 ["inputs","configurations"],"all types, shapes and formats within bounds",
 "Tests check metadata of sample files only.",
 [R,H,"internal/slicer.go"],[("getVarCommon",R),("GetVarGetter",H)],["VarGetter"])
p("C28","Groups stay usable until closed, in any order of closing",
 "Groups obtained from one open file share it: each stays fully readable until it is itself closed, whatever the order in which the others are closed, and the file is closed when and only when the last one is.",
 ["histories"],"all interleavings of opening, reading and closing up to the bound on root, subgroups and repeated handles, in both formats",
 "Tests close in one or two orders.",
 [H,R],[("refCountedFile",H),("fileRefCount",R)],["api.Group.Close"])
p("C29","Reading is repeatable and does not depend on what was read before",
 "Whatever sequence of listing, attribute, variable, slice and group reads has been made on an open file, every read returns what it would have returned on a freshly opened file, and results already returned do not change; modifying the values returned for a variable does not affect later reads.",
 ["histories"],"all sequences of read operations up to the bound, both formats",
 "Tests perform each read once on a fresh file.",
 [R,H],[("getVarCommon",R),("GetVarGetter/getAttributes",H)],["api.Group"])
p("C30","Concurrent use of independent files and groups is safe",
 "Goroutines that each use their own open file or writer never affect each other's results.",
 ["schedules"],"all schedules of two goroutines",
 "No test uses goroutines; a schedule-dependent failure need not occur in any run.",
 [H,R],[("package-level state",H)],["api.Group"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
