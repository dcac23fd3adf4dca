#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, F, P = 'inputs', 'histories', 'configurations', 'fault_sequences', 'programs'
D = []


def p(id, title, st, over, text, why, files, mech, state=()):
    D.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]}})


inc, src = 'cpp/include/copc-lib/', 'cpp/src/'
p('C01', 'Point records have the LAS 1.4 byte layout and round trip',
  'Packing a point writes exactly its record length in bytes, with every field at the offset and width the LAS 1.4 specification gives for its point format (6, 7, 8) followed by its extra bytes. Reading such bytes yields a point with exactly those field values, so read after write and write after read are the identity. Packing never changes the point.',
  [I], 'every point format, every field value, every number of extra bytes, every byte string',
  'Tests pack a few hand-made points; the offsets, widths and order matter for every value of every field and format.',
  [src + 'las/point.cpp', inc + 'las/point.hpp', inc + 'las/utils.hpp'],
  [('Point::Pack/Unpack', src + 'las/point.cpp'), ('pack/unpack of integers', inc + 'las/utils.hpp')])
p('C02', 'Scaled and raw coordinates are inverse, and out-of-range values are refused',
  'A coordinate reads as raw*scale+offset per axis with the scale and offset the caller gives; setting a coordinate stores the rounded inverse for that axis only. A value which does not fit the signed 32 bit record (including NaN) is refused rather than stored. The scaling helpers of the header and the vectors use the same formulas.',
  [I], 'every raw coordinate, every scale and offset, every axis',
  'Tests sample a few values with one scale; mixed-up axes, missing rounding and the range edges need all values.',
  [src + 'las/point.cpp', inc + 'las/point.hpp', src + 'las/header.cpp', inc + 'las/utils.hpp', src + 'las/utils.cpp'],
  [('ApplyScale / RemoveScale', inc + 'las/utils.hpp'), ('Point::X/Y/Z', inc + 'las/point.hpp')])
p('C03', 'Packed bit fields are read and written without disturbing their neighbours',
  'Each packed field of a point (return number, number of returns, classification flags, scanner channel, scan direction, edge of flight line) reads back the value last set for every value in its range. Setting one never changes any other observable field. Values out of range are refused and leave the point unchanged; the composite flag accessors cover exactly their documented bits.',
  [I, H], 'every prior state of the point, every field, every value, any order of sets',
  'Tests set one field at a time from zero; a wrong mask shows only with particular neighbours set.',
  [inc + 'las/point.hpp'], [('bit accessors', inc + 'las/point.hpp')],
  [('returns_, flags_', 'two packed bytes', inc + 'las/point.hpp')])
p('C04', 'Colour and infrared exist exactly for the formats which carry them',
  'Reading or writing a colour of a point is refused unless its format has colour (7, 8), and infrared unless it is 8. Converting a point to another format keeps all fields both formats have, resizes the record and refuses unknown formats. The format query helpers and record sizes agree with the LAS specification for every format number.',
  [I], 'every point, every source and target format, every field value',
  'Only some format pairs are sampled; a forgotten field or a wrong gate for one pair goes unnoticed.',
  [inc + 'las/point.hpp', src + 'las/point.cpp', src + 'las/utils.cpp', inc + 'las/utils.hpp'],
  [('Point::ToPointFormat, HasRgb, HasNir', inc + 'las/point.hpp'), ('PointBaseByteSize', src + 'las/utils.cpp')])
p('C05', 'Point containers are homogeneous and act elementwise in order',
  'A container only ever holds points of one format, one record length; adding any other is refused and leaves it unchanged. Its vector getters return the field of every point in order and its vector setters assign element i to point i and refuse vectors of another length. Packing concatenates the records in order and unpacking a whole number of records gives the same points back.',
  [I, H], 'every container, every length, every index, every sequence of additions',
  'Tests use containers of a handful of identical points; order, index and length faults need varying elements.',
  [inc + 'las/points.hpp', src + 'las/points.cpp'], [('Points accessors', inc + 'las/points.hpp'), ('Points::Unpack/Pack', src + 'las/points.cpp')])
p('C06', 'Copies of points are independent and equality means equal content',
  'Two points compare equal exactly when their format, coordinates (within 1e-6), every other stored field, and their extra bytes are equal, and inequality is the negation. A copied or assigned point equals its source and shares no state with it. The same holds for the other value types of the library which define equality.',
  [I, H], 'every pair of values, every later change to either',
  'Tests compare points which are equal or differ in one field; a forgotten field in a comparison needs a pair differing only there.',
  [inc + 'las/point.hpp', src + 'las/point.cpp', src + 'copc/extents.cpp', inc + 'las/vlr.hpp'], [('Point::operator==', inc + 'las/point.hpp')])
p('C07', 'Box predicates mean geometric containment and intersection',
  'Intersects, Contains and Within of a box are the closed-interval geometric relations on all three axes, for boxes, points and vectors, and are mutually consistent (within is contains reversed, containment implies intersection). A box with a minimum above its maximum cannot be built. Boxes built without heights are unbounded in height.',
  [I], 'every pair of boxes and points, including touching faces and infinite extents',
  'Tests check a few boxes; single-axis and boundary faults survive them.',
  [inc + 'geometry/box.hpp', src + 'geometry/box.cpp'], [('Box::Intersects/Contains/Within', src + 'geometry/box.cpp')])
p('C08', 'Octree keys form a consistent octree',
  'Bisecting a key in one of eight directions gives eight different keys one level deeper, and the parent of each is the key itself; the root has no parent. The parent chain of a key lists every ancestor up to the root once and in order, and ancestry is exactly membership in that chain. Invalid keys stay invalid, comparison is equality of all components.',
  [I], 'every valid key of every depth, every direction, every pair of keys',
  'The tests list a few keys; direction bit mix-ups and depth limits concern all keys.',
  [inc + 'hierarchy/key.hpp', src + 'hierarchy/key.cpp'], [('VoxelKey::Bisect/GetParent/GetParents/ChildOf', src + 'hierarchy/key.cpp')])
p('C09', 'Voxel bounds tile the cube and voxel predicates match those bounds',
  'The bounds of a key are the cube of side span/2^d placed by its x, y, z indices from the file minimum, computed the same way from a header or from its numbers. Intersects, Contains, Within and Crosses of a key are exactly those of its bounds.',
  [I], 'every key, every file bounds, every query box',
  'Tests use one header; an axis or level error needs other keys.',
  [src + 'hierarchy/key.cpp', inc + 'geometry/box.hpp', inc + 'las/header.hpp'], [('Box(VoxelKey, header)', src + 'geometry/box.cpp')])
p('C10', 'Spatial queries return exactly the matching nodes and points',
  'A query by box over a reader returns every stored node (and every point) satisfying the asked relation, each once and in hierarchy order, and nothing else. Points of a node only partly inside are filtered one by one by the box, using scaled coordinates. The resolution limit restricts the answer to nodes which are at most as deep as the limit needs.',
  [I], 'every hierarchy, every box, every resolution',
  'Tests query one file with a few boxes.',
  [src + 'io/copc_reader.cpp'], [('Reader::GetNodesWithinBox / GetPointsWithinBox / GetNodesIntersectBox', src + 'io/copc_reader.cpp')])
p('C11', 'Resolution and depth correspond',
  'The resolution of a depth halves with each level from the root spacing. The depth chosen for a requested resolution is the smallest depth whose resolution is at most the request, limited to the deepest stored level, and a non-positive request means the deepest level. Nodes at a resolution are exactly those of that depth, nodes within a resolution exactly those at most that deep.',
  [I], 'every spacing, requested resolution and hierarchy depth',
  'Tests use one file and few resolutions; off-by-one levels at exact powers need the general argument.',
  [src + 'io/copc_reader.cpp', src + 'hierarchy/key.cpp'], [('Reader::GetDepthAtResolution', src + 'io/copc_reader.cpp'), ('VoxelKey::Resolution', src + 'hierarchy/key.cpp')])
p('C12', 'Hierarchy entries are 32 bytes and round trip',
  'A hierarchy entry is stored as exactly 32 bytes: four 32 bit key components, a 64 bit offset, a 32 bit byte size and a 32 bit point count. Reading back gives the same entry. An entry with count -1 is a page, any other non-negative count a node, and validity, equality and the page flag are functions of those fields alone.',
  [I], 'every field value of every entry',
  'Tests round trip few entries.',
  [inc + 'hierarchy/entry.hpp'], [('Entry::Pack/Unpack', inc + 'hierarchy/entry.hpp')])
p('C13', 'Header conversion preserves every field in both directions',
  'Converting a LAS header to its on-disk form and back preserves every field the file format has, each to its own counterpart, with strings bounded by their fixed fields. Derived fields (sizes, offsets, counts, format with compression bit) take the values of the file being written. The COPC info record keeps every field the same way, with the GPS time range of the extents.',
  [I], 'every header value',
  'Tests check a few fields with default values; swapped fields of equal value are invisible.',
  [src + 'las/header.cpp', inc + 'las/header.hpp'], [('LasHeader::ToLazPerf/FromLazPerf', src + 'las/header.cpp')])
p('C14', 'The VLR count and offsets in the header match the VLRs written',
  'For every configuration the header of a written file counts exactly the VLRs written, the point data offset is the end of the last of them, and EVLR count and offset describe the EVLRs written. The extra-byte VLR is present in the header count, the offset and the file under the same condition.',
  [C, I], 'every combination of extra bytes, WKT and extents',
  'Tests cover a few combinations and read the file back with the same library, which hides consistent errors.',
  [src + 'io/laz_base_writer.cpp', src + 'io/copc_writer_internal.cpp', src + 'las/header.cpp'], [('LazBaseWriter::WriteHeader', src + 'io/laz_base_writer.cpp'), ('OffsetToPointData', src + 'io/laz_base_writer.cpp')])
p('C15', 'Every written chunk is accounted for once',
  'Writing a chunk appends its bytes at the end of the file, records exactly its point count and its offset in the chunk table, adds its points to the total and returns the offset, size and count of that chunk as the node entry. Nothing is recorded for a refused chunk, and writes after closing are refused.',
  [H, I], 'every sequence of chunks and sizes, compressed or not',
  'Tests write few chunks of known size.',
  [src + 'io/laz_base_writer.cpp', src + 'io/copc_writer_internal.cpp', src + 'io/copc_writer_public.cpp', src + 'io/laz_writer.cpp'], [('LazBaseWriter::WriteChunk', src + 'io/laz_base_writer.cpp')],
  [('chunks_, point_count_', 'chunk table and total', inc + 'io/laz_base_writer.hpp')])
p('C16', 'Closing a writer finishes the file once, in order',
  'Closing writes the chunk table, the EVLRs, then the header at the start of the file, exactly once however often it is called, and destroying an open writer closes it. The header written at close describes everything written before. After closing every writing operation is refused.',
  [H], 'every order of write, close and destruction',
  'Tests close once after writing; double close and destruction order need all histories.',
  [src + 'io/copc_writer_internal.cpp', src + 'io/laz_base_writer.cpp', inc + 'io/copc_writer.hpp', inc + 'io/laz_writer.hpp'], [('WriterInternal::Close', src + 'io/copc_writer_internal.cpp'), ('LazBaseWriter::Close', src + 'io/laz_base_writer.cpp')],
  [('open_', 'file still open', inc + 'io/laz_base_writer.hpp')])
p('C17', 'The written hierarchy lists every node and page once and reaches all of them',
  'Every node added is listed once, in the page it was assigned, under its nearest page ancestor; adding a node twice, or to a page that is not an ancestor of it (or itself), is refused and changes nothing. At close each non-empty page is written with its nodes and its subpages after the subpages themselves, and every page entry points at the bytes of its page. Moving a node to another page keeps all of this.',
  [H, I], 'every order of additions, page changes and every page tree',
  'Tests build small trees in one order.',
  [src + 'io/copc_writer_internal.cpp', src + 'io/copc_writer_public.cpp', src + 'io/copc_base_io.cpp', inc + 'hierarchy/page.hpp', inc + 'hierarchy/internal/hierarchy.hpp'], [('WritePageTree, WritePage', src + 'io/copc_writer_internal.cpp'), ('DoAddNode', src + 'io/copc_writer_public.cpp')])
p('C18', 'Reading a hierarchy finds every reachable node and always ends',
  'Loading the hierarchy visits every page reachable from the root page once, turns each entry into a node or a subpage, and finding a key returns its node exactly when some reachable page lists it. Damaged hierarchies (pages listed more than once or in a cycle, truncated pages, invalid entries) end with an error rather than endless reading.',
  [I], 'every hierarchy, well formed or not; every key',
  'Test files are well formed and small.',
  [src + 'io/copc_base_io.cpp', src + 'io/copc_reader.cpp', inc + 'hierarchy/page.hpp'], [('BaseIO::FindNode, ReadAndParsePage, LoadPageHierarchy', src + 'io/copc_base_io.cpp')])
p('C19', 'Configurations are values: copies and snapshots are independent',
  'Building a configuration from another, handing it to a writer or reading it from a file gives an independent value: later changes on one side are not seen on the other. All parts (header, info, extents, extra bytes, WKT) are carried over unchanged.',
  [H, P], 'every sequence of changes after every way to copy',
  'Aliasing shows only when both sides change afterwards.',
  [inc + 'copc/copc_config.hpp', src + 'copc/copc_config.cpp', inc + 'las/laz_config.hpp', inc + 'io/copc_writer.hpp'], [('CopcConfigWriter, LazConfigWriter constructors', inc + 'copc/copc_config.hpp')])
p('C20', 'Every dimension has its own extent, stored and reported consistently',
  'Each dimension of a point format (and each extra byte) has exactly one extent, the accessor of a dimension reaches that extent and no other, and converting formats keeps the shared ones. Writing extents to their VLR and reading them back preserves every minimum, maximum, mean and variance in place. An extent with minimum above maximum or negative variance is refused.',
  [I], 'every point format, number of extra bytes and extent values',
  'Tests touch a few dimensions; neighbouring index mix-ups need all of them.',
  [inc + 'copc/extents.hpp', src + 'copc/extents.cpp', inc + 'las/vlr.hpp', src + 'las/vlr.cpp'], [('CopcExtents accessors', inc + 'copc/extents.hpp'), ('ToLazPerf/SetExtents', src + 'copc/extents.cpp')])
p('C21', 'VLRs are found by their identity and read with the right header size',
  'A VLR is looked up by user id and record id together, over VLRs and EVLRs, and its data is read directly behind the header of the kind (54 or 60 bytes) that was found. A missing optional VLR gives its documented default; a missing mandatory one is an error.',
  [I], 'every order and number of VLRs and EVLRs in a file',
  'Test files all come from this library and always have the same order.',
  [src + 'io/base_reader.cpp', src + 'io/copc_reader.cpp', inc + 'las/vlr.hpp', src + 'las/vlr.cpp'], [('BaseReader::FetchVlr, ReadWktVlr, ReadExtraBytesVlr', src + 'io/base_reader.cpp')])
p('C22', 'Failed or short I/O is reported, never returned as data',
  'Whenever a read of a header, VLR, page, entry or point chunk gets fewer bytes than needed, or a stream cannot be opened or is not valid, the operation ends with an error. No result is built from bytes which were not read, and nothing is recorded for a chunk whose write failed.',
  [F, I], 'every read and write site, every point of failure',
  'Tests read good files only.',
  [inc + 'las/utils.hpp', inc + 'hierarchy/entry.hpp', src + 'io/base_reader.cpp', src + 'io/copc_reader.cpp', src + 'io/laz_base_writer.cpp'], [('stream checks after reads', src + 'io/base_reader.cpp')])
p('C23', 'No access leaves its buffer, table or record',
  'For every input, accesses to fixed buffers, tables indexed by file data and byte arrays stay inside them: lengths read from a file or given by the caller are checked or bound the allocation before use. Pointers obtained from lookups that can fail are tested before they are used.',
  [I], 'every input file and argument',
  'Overruns of a few bytes do not fail tests.',
  [src + 'io/copc_reader.cpp', src + 'io/laz_reader.cpp', src + 'las/header.cpp', src + 'las/vlr.cpp', src + 'las/utils.cpp', inc + 'laz/decompressor.hpp'], [('buffer sizes', src + 'io/laz_reader.cpp')])
p('C24', 'Compression handles every point exactly once with the right format',
  'Compressing feeds every record of the input to the compressor once, in order, with the point format and extra-byte count of the file, and refuses input which is not a whole number of records. Decompressing asks for exactly the number of points of the chunk, with the same format and record length, and returns the records in order.',
  [I], 'every record length, format, point count and input size',
  'Tests use a few sizes; a missing last record or stride mix-up needs others.',
  [inc + 'laz/compressor.hpp', inc + 'laz/decompressor.hpp', src + 'io/laz_writer.cpp'], [('Compressor::CompressBytes', inc + 'laz/compressor.hpp'), ('Decompressor::DecompressBytes', inc + 'laz/decompressor.hpp')])
p('C25', 'Readers and writers own their streams exactly when they opened them',
  'A reader or writer given a path owns the stream it opened, keeps it alive as long as it is used and releases it exactly once; one given a stream never closes or frees it. Copies are impossible or do not share ownership, and no object is used before it is initialised or after its owner is gone.',
  [H, P], 'every construction, move, copy and destruction order',
  'Leaks and double frees do not fail tests.',
  [inc + 'io/copc_reader.hpp', inc + 'io/copc_writer.hpp', inc + 'io/laz_reader.hpp', inc + 'io/laz_writer.hpp'], [('FileReader, FileWriter', inc + 'io/copc_reader.hpp')])
p('C26', 'Vector arithmetic is componentwise and axis preserving',
  'Every operation of the vector type acts on x, y and z separately and in that order: construction from any supported representation, addition, subtraction, scaling, comparison, minimum and maximum. Equality and closeness require all three components.',
  [I], 'every vector',
  'Tests use few vectors, often with equal components.',
  [inc + 'geometry/vector3.hpp'], [('Vector3 operators', inc + 'geometry/vector3.hpp')])
p('C27', 'The Python interface is the C++ interface under the same names',
  'Every name of the Python module is bound to the C++ member it names: properties read and write the same field, overloads reach the same operation, constants have equal values. Pickling a key, node, vector, byte vector or header and unpickling it gives an equal object. Points behaves as a sequence of its points: items, negative indices, slices, iteration, membership. Keyword names and defaults are those documented.',
  [P, I], 'every exported name and every pickled value',
  'The Python tests touch only some of the bindings.',
  ['python/bindings.cpp'], [('PYBIND11_MODULE', 'python/bindings.cpp')])
p('C28', 'Multiprocess reading and transforming handles every node exactly once',
  'The multiprocess helpers submit each node of the reader exactly once, collect every result, write or yield each result once, keep keys with their own data, and surface worker failures. Limits on nodes or depth only restrict which nodes are submitted.',
  ['schedules', I], 'every order in which workers finish, every chunking',
  'The tests run one file with one schedule.',
  ['python/copclib/mp/read.py', 'python/copclib/mp/transform.py', 'python/copclib/mp/utils.py'], [('_concurrent_reader / transform_multithreaded', 'python/copclib/mp/transform.py')])
p('C29', 'Extra-byte sizes follow the LAS specification table',
  'The number of bytes of an extra-byte field is that of its LAS data type (with the field\'s own count for the undocumented type, and multiples for the array types), types outside the table are refused, and the total over a VLR is the sum over its fields. Record lengths are base size plus extra bytes everywhere.',
  [I], 'every data type number and every list of fields',
  'Tests cover two data types.',
  [src + 'las/utils.cpp', src + 'las/vlr.cpp', inc + 'las/utils.hpp'], [('NumBytesFromExtraBytes', src + 'las/utils.cpp')])
p('C30', 'Bounds validation reports exactly the nodes and points outside the bounds',
  'Validating spatial bounds succeeds exactly when every node lies in the file bounds and every point lies both in the bounds of its node and of the file. The check does not depend on verbosity and does not stop before a violation is found.',
  [I], 'every file',
  'Tests validate a good file and one bad one.',
  [src + 'io/copc_reader.cpp'], [('Reader::ValidateSpatialBounds', src + 'io/copc_reader.cpp')])
exec(open(os.path.join(V, 'tool', 'props_na.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'props_na.py')) else None
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in D:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
