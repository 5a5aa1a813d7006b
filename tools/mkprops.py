#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
IO='cpp/src/io/'; INC='cpp/include/copc-lib/'

prop('C01','COPC write/read round trip returns exactly the nodes and points added',
 "After nodes with distinct valid keys are added to a COPC writer (as points, raw point records or already compressed chunks, in any order, each in any ancestor page) and the file is closed, a reader lists exactly those nodes, each with the point count, the point records (points exact up to the file's coordinate quantization) and, for compressed input, the compressed bytes that were added. Keys that were not added give an invalid node, no point data and no points.",
 ['histories','inputs'],'every sequence of node additions, input kinds, page choices, point formats and extra-byte sizes',
 'The repository tests write a handful of fixed sequences; a wrong offset, count or chunk boundary shows only for particular sequences of sizes, kinds and pages.',
 [IO+'copc_writer_public.cpp',IO+'copc_writer_internal.cpp',IO+'laz_base_writer.cpp',IO+'copc_reader.cpp'],
 [('Writer::DoAddNode',IO+'copc_writer_public.cpp'),('BaseWriter::WriteChunk',IO+'laz_base_writer.cpp'),('Reader::GetPointData',IO+'copc_reader.cpp')],
 [('hierarchy_','nodes and pages seen so far',INC+'hierarchy/internal/hierarchy.hpp'),('chunks_','end offset and count per chunk',INC+'io/laz_base_writer.hpp')],
 ['Reader::GetAllNodes','Reader::GetPointData','Reader::GetPoints','Reader::GetPointDataCompressed'])
prop('C02','Page hierarchy after any history of additions and page moves is a correct tree',
 "After any sequence of node additions (distinct keys) and node page changes, the closed file lists every node exactly once, in the page it was last assigned to, and every page except the root is entered exactly once, from the nearest ancestor page that exists. The pages are exactly the root plus the pages that hold at least one node, and the reader's page list, page keys of nodes and page contents agree with that. At every point of the history, looking a node up in the writer gives exactly the nodes added so far, in their current pages and with their places in the file, and nothing for other keys.",
 ['histories'],'every history of AddNode and ChangeNodePage calls over overlapping keys and pages',
 'The tests move a node once; histories that move the same node repeatedly, empty and recreate pages, or insert a page between two others are not sampled.',
 [IO+'copc_writer_public.cpp',IO+'copc_writer_internal.cpp',IO+'copc_base_io.cpp',INC+'hierarchy/internal/hierarchy.hpp'],
 [('Writer::ChangeNodePage',IO+'copc_writer_public.cpp'),('ComputePageHierarchy / WritePageTree',IO+'copc_writer_internal.cpp')],
 [('seen_pages_','pages by key, with their nodes',INC+'hierarchy/internal/hierarchy.hpp')],
 ['hierarchy EVLRs in the file','Reader::GetPageList','Node::page_key'])
prop('C03','Every closed COPC or LAZ file is structurally well formed',
 "Every file a writer closes is accepted by an independent parser of the LAS 1.4 / LAZ / COPC layout: the 375-byte header is followed by exactly the declared VLRs (for COPC the info VLR first), point data begins at the declared offset after the chunk table pointer, the chunk table lists each chunk's size and count in file order, the declared EVLRs start at the declared offset and end exactly at the end of the file, and no two regions overlap. Declared point counts equal the sum of the chunk and node counts, and the root hierarchy offset and size in the info VLR designate the root page's entries.",
 ['histories','configurations'],'every writer history and configuration (format, extra bytes, WKT, extended statistics, COPC or LAZ)',
 'Tests read files back with the library itself, so a symmetric error in writer and reader stays invisible, and only a few configurations are written.',
 [IO+'laz_base_writer.cpp',IO+'copc_writer_internal.cpp',IO+'laz_writer.cpp','cpp/src/las/header.cpp'],
 [('OffsetToPointData',IO+'laz_base_writer.cpp'),('WriteHeader',IO+'copc_writer_internal.cpp'),('WriteChunkTable',IO+'laz_base_writer.cpp'),('LasHeader::ToLazPerf','cpp/src/las/header.cpp')],
 [], ['bytes of the closed file'])
prop('C04','A rejected writer operation leaves no trace',
 "A writer rejects, by throwing, nodes with an invalid key or page key, a key that is not at or below its page, empty or ragged point data, points of another format or record length, points that do not fit the coordinate scale, a compressed chunk with a non-positive point count, and page changes of unknown nodes or to pages that are not at or above the node. The file that is finally closed is the same as if the rejected calls had never been made.",
 ['histories','inputs'],'every interleaving of accepted and rejected operations',
 'Tests only assert that some of the calls throw; they never look at the file written afterwards.',
 [IO+'copc_writer_public.cpp',IO+'laz_writer.cpp'],
 [('argument checks before WriteNode',IO+'copc_writer_public.cpp')],[],['exceptions','content of the closed file'])
prop('C05','Closing is idempotent and a closed writer can no longer alter its file',
 "Closing a writer any number of times, destroying it, or closing and then destroying it produces the same complete file, with stream and file-path writers giving the same content. Once closed, no further call on the writer changes the file: additions are rejected and further closes have no effect.",
 ['histories'],'every history with closes and destruction at any position',
 'Tests close each writer once as the last action.',
 [IO+'laz_base_writer.cpp',IO+'copc_writer_internal.cpp',IO+'copc_writer_public.cpp',INC+'io/laz_writer.hpp'],
 [('open_ flag',INC+'io/laz_base_writer.hpp')],[('open_','whether the writer may still write',INC+'io/laz_base_writer.hpp')],['bytes of the file'])
prop('C06','Reader answers do not depend on the queries made before',
 "Every read-only query on a COPC or LAZ reader (node lookup, listings, page list, point data, resolution and spatial queries, validation) returns the same answer whatever sequence of queries, including queries for absent keys and repeated queries, was made on that reader before. The answers equal those of a freshly opened reader.",
 ['histories'],'every sequence of queries on files with nested, lazily loaded pages',
 'Pages are loaded lazily and share one stream position; tests issue each query once in a fixed order.',
 [IO+'copc_base_io.cpp',IO+'copc_reader.cpp',IO+'laz_reader.cpp'],
 [('lazy page loading',IO+'copc_base_io.cpp'),('stream clear after decompression',INC+'laz/decompressor.hpp')],
 [('loaded','page already parsed',INC+'hierarchy/page.hpp')],['all Reader queries'])
prop('C07','Node lookup and page listings match the hierarchy stored in the file',
 "For every COPC file, looking up a key returns exactly the entry stored for it, with the page that stores it, or an invalid node; listing a key that is a page returns each node stored in that page and in the pages below it exactly once; listing any other key returns just that node, or nothing. The page list holds each page of the file exactly once.",
 ['inputs','histories'],'every tree of pages and nodes, including pages laid out in any file order and pages without nodes of their own',
 'Tests use one sample file and a few written ones with two pages.',
 [IO+'copc_base_io.cpp',IO+'copc_reader.cpp',INC+'hierarchy/internal/hierarchy.hpp',INC+'hierarchy/entry.hpp'],
 [('BaseIO::FindNode',IO+'copc_base_io.cpp'),('LoadPageHierarchy',IO+'copc_base_io.cpp'),('NearestLoadedPage',INC+'hierarchy/internal/hierarchy.hpp')],[],
 ['Reader::FindNode','Reader::GetAllChildrenOfPage','Reader::GetPageList'])
prop('C08','Resolution queries select exactly the right depths',
 "The depth chosen for a requested resolution is the shallowest depth at which the file's spacing, halved once per level, is not coarser than the request, limited to the deepest node present; a non-positive request selects the deepest level. The nodes at, nodes within and points at a resolution are exactly those of nodes at that depth, or at that depth or above.",
 ['inputs','configurations'],'every spacing, depth set and requested resolution, including exact boundaries',
 'Tests try a few resolutions on files of one shape and miss boundary and empty-file cases.',
 [IO+'copc_reader.cpp','cpp/src/hierarchy/key.cpp'],
 [('GetDepthAtResolution',IO+'copc_reader.cpp')],[],['Reader resolution queries','VoxelKey::Resolution'])
prop('C09','Spatial queries return exactly the nodes and points they should',
 "Nodes within, or intersecting, a box are exactly those up to the requested resolution whose octree cell lies in, or touches, the box. For files whose points lie in their node's cell, the points within a box are exactly the stored points up to the requested resolution that lie in the box, boundary included, each once per occurrence.",
 ['inputs','configurations'],'every box position relative to the cells (inside, outside, touching, covering), resolution and point placement',
 'Tests use a few boxes; touching boundaries, degenerate boxes and resolution interplay are not covered.',
 [IO+'copc_reader.cpp','cpp/src/geometry/box.cpp','cpp/src/hierarchy/key.cpp'],
 [('GetPointsWithinBox',IO+'copc_reader.cpp'),('Box predicates','cpp/src/geometry/box.cpp')],[],['Reader::GetNodesWithinBox','Reader::GetNodesIntersectBox','Reader::GetPointsWithinBox'])
prop('C10','Spatial validation accepts a file exactly when its bounds are consistent',
 "Spatial validation succeeds if and only if every node's cell meets the bounds in the header and every point lies both in its node's cell and in the header bounds (boundaries included). Verbose and quiet validation always give the same answer.",
 ['inputs'],'every combination of node cells and point positions relative to cell and header bounds',
 'Tests validate one good file and a few bad ones; one misplaced point in one node of many is not sampled.',
 [IO+'copc_reader.cpp'],[('ValidateSpatialBounds',IO+'copc_reader.cpp')],[],['Reader::ValidateSpatialBounds'])
prop('C11','Octree key algebra is consistent',
 "For every valid key, its eight children are distinct and have it as parent, the parent at a given depth is the one reached by repeated parent steps, the list of parents is the chain up to the root in order, and one key counts as a child of another exactly when the other is the key itself or in its chain. Invalid keys have no parents and are below nothing, and equal keys have equal hashes.",
 ['inputs'],'every key up to a depth and every pair of keys, plus extreme coordinates',
 'Tests check a dozen keys.',
 ['cpp/src/hierarchy/key.cpp',INC+'hierarchy/key.hpp'],[('Bisect/GetParent/GetParents/ChildOf','cpp/src/hierarchy/key.cpp')],[],['VoxelKey methods'])
prop('C12','Box and octree-cell predicates agree with set geometry',
 "For closed axis-aligned boxes, intersects, contains, within and point containment mean exactly what they mean for point sets, including touching faces and degenerate boxes, and the same holds for the cells of octree keys. A key's cell is the cube at the header's minimum corner with side the largest header dimension, divided by two to the key's depth; boxes with a minimum above a maximum, or a wrong number of values, are rejected. Growing a header's bounds by a point gives the smallest bounds that hold both the former bounds and the point.",
 ['inputs'],'every pair of boxes (and box and point) over a grid of coordinates, every key to a depth',
 'Tests check a handful of boxes.',
 ['cpp/src/geometry/box.cpp',INC+'geometry/box.hpp','cpp/src/hierarchy/key.cpp'],[('Box::Intersects/Contains/Within','cpp/src/geometry/box.cpp')],[],['Box methods','VoxelKey spatial methods'])
prop('C13','Coordinate quantization is nearest, idempotent and never wraps',
 "Storing a coordinate under a scale and offset keeps the nearest representable grid value, and reading it back and storing it again changes nothing. A coordinate whose grid value does not fit a signed 32-bit integer, or is not a number, is rejected rather than stored as something else; for values that fit, the header scaling functions agree with the same arithmetic and undo each other.",
 ['inputs'],'every coordinate class (grid, halfway, extreme, infinite, NaN) times scales and offsets',
 'Tests check a few values; limits and NaN are not covered.',
 [INC+'las/utils.hpp','cpp/src/las/point.cpp',INC+'las/header.hpp'],[('RemoveScale',INC+'las/utils.hpp'),('ApplyInverseScale',INC+'las/header.hpp')],[],['Point::Pack/Unpack','LasHeader scaling'])
prop('C14','Point attributes are independent and range checked',
 "Setting any attribute of a point makes its getter return exactly that value and leaves every other attribute unchanged, whatever was set before, including attributes that share a byte; a scan angle in degrees is kept to the nearest 0.006 degree step. Values out of an attribute's range, attributes the point format lacks and extra bytes of the wrong length are rejected and leave the point unchanged.",
 ['histories','inputs'],'every sequence of setter calls over all attributes and every value of the packed bytes',
 'Tests set attributes in one order with a few values.',
 [INC+'las/point.hpp','cpp/src/las/point.cpp'],[('bit-field setters',INC+'las/point.hpp')],[('flags_, returns_','packed attribute bytes',INC+'las/point.hpp')],['Point getters and setters'])
prop('C15','Point records follow the LAS 1.4 layout for formats 6, 7 and 8',
 "Packing a point writes exactly the LAS 1.4 record of its format, every field at its standard offset in little-endian order followed by its extra bytes, and unpacking any such record yields the point with those field values; pack and unpack are inverse on records. Packed lists of points are the concatenation of their records, and data whose size is not a multiple of the record length is rejected.",
 ['inputs'],'every format, extra-byte size and field value pattern',
 'Tests pack and unpack with the same code, so a symmetric layout error is invisible.',
 ['cpp/src/las/point.cpp','cpp/src/las/points.cpp','cpp/src/las/utils.cpp'],[('Point::Pack/Unpack','cpp/src/las/point.cpp')],[],['bytes produced by Pack'])
prop('C16','Point collections stay homogeneous and format conversion keeps attributes',
 "A point collection only ever holds points of its own format and record length; additions of others, and of null points, are rejected and leave it unchanged, as long as its points are not shared with another collection or converted individually. Converting a point or a collection to another format keeps every attribute both formats have and the extra bytes, sets the attributes it gains to zero (unless it had them before an earlier conversion), and yields records of the new format.",
 ['histories','inputs'],'every sequence of additions and conversions over formats 6, 7, 8 and extra-byte sizes',
 'Tests convert once per format pair and add one bad point.',
 ['cpp/src/las/points.cpp','cpp/src/las/point.cpp'],[('Points::AddPoint(s)','cpp/src/las/points.cpp'),('ToPointFormat','cpp/src/las/point.cpp')],[],['Points API'])
prop('C17','File metadata survives writing and reading unchanged',
 "Header fields set through a writer's configuration (identifiers up to their full length, dates, encoding, source id, bounds, scale, offset, points per return), WKT of any length, extra-byte descriptions and COPC info values are the same when the file is read back, for COPC and LAZ files alike. Point count, point format, record length and the COPC flag correspond to what was written. Headers of variable-length records keep every field when copied and converted between their short and long forms.",
 ['configurations','inputs'],'every combination of header field classes, WKT lengths, extra-byte definitions and formats',
 'Tests check a few fields with short strings.',
 ['cpp/src/las/header.cpp','cpp/src/las/vlr.cpp','cpp/src/copc/info.cpp',IO+'base_reader.cpp',IO+'laz_base_writer.cpp'],
 [('LasHeader::ToLazPerf/FromLazPerf','cpp/src/las/header.cpp'),('WktVlr, EbVlr read',IO+'base_reader.cpp')],[],['Reader::CopcConfig','LazReader::LazConfig'])
prop('C18','Writer overrides change exactly what they name',
 "A COPC writer created with any subset of the optional overrides (point format, scale, offset, WKT, extra bytes, extended statistics) writes a file whose named settings are the overrides and whose other settings come from the given configuration, with a record length matching the format and extra bytes; extents of dimensions that both formats have keep their values. The configuration passed in is not modified.",
 ['configurations'],'all subsets of overrides times source configurations',
 'Tests try some single overrides.',
 [IO+'copc_writer_public.cpp','cpp/src/copc/extents.cpp'],[('Writer::InitWriter',IO+'copc_writer_public.cpp')],[],['writer configuration','file read back'])
prop('C19','Configurations are isolated between owners',
 "Changing a configuration object after a writer, reader or another configuration was made from it never changes that other object or its file, and changes made through a writer's own configuration handle before closing appear in its file. What is made from a configuration starts with its header, WKT, extra bytes, info and extents as far as its kind has them. Values obtained from a reader are copies: altering them never alters the reader.",
 ['histories'],'every sequence of creating, copying and mutating configurations and writers',
 'Tests never mutate a configuration shared by two owners.',
 [INC+'copc/copc_config.hpp',INC+'las/laz_config.hpp','cpp/src/las/laz_config.cpp','cpp/src/copc/extents.cpp',IO+'laz_writer.cpp'],
 [('deep-copying constructors',INC+'copc/copc_config.hpp')],[('header_, eb_vlr_, copc_info_, copc_extents_','shared state of configurations',INC+'las/laz_config.hpp')],['configuration getters','files'])
prop('C20','LAZ files return all points in the order written',
 "After any sequence of point batches (as points or compressed chunks) is written to a LAZ writer, its point and chunk counters equal the points and non-empty batches accepted so far, and the closed file read back gives exactly the concatenation of the batches in order. Empty batches write nothing, and batches of another format or with a non-positive count are rejected without trace.",
 ['histories'],'every sequence of batches of different kinds and sizes',
 'Tests write one or two batches.',
 [IO+'laz_writer.cpp',IO+'laz_base_writer.cpp',IO+'laz_reader.cpp'],[('LazWriter::WritePoints',IO+'laz_writer.cpp'),('LazReader::GetPointData',IO+'laz_reader.cpp')],[],['LazReader','LazWriter counters'])
prop('C21','Compression and decompression are inverse and leave streams usable',
 "Decompressing what was compressed gives back the same point records for every point format, extra-byte size and count, through streams, buffers, header or explicit arguments alike, and the count returned by compression is the number of records. Input that is not a whole number of records is rejected, and after decompression from a stream the stream can be positioned and read again.",
 ['inputs'],'every format, extra-byte size (including records longer than 255 bytes), count and overload',
 'Tests use small records and one path.',
 [INC+'laz/compressor.hpp',INC+'laz/decompressor.hpp'],[('CompressBytes',INC+'laz/compressor.hpp'),('DecompressBytes',INC+'laz/decompressor.hpp')],[],['Compressor','Decompressor'])
prop('C22','An interrupted write is never mistaken for a complete file',
 "If writing stops after any prefix of the writer's output operations (as when the process dies before closing finishes), opening what was written either fails or, if the file already has its full content, gives exactly the complete content. A reader never silently presents a partial set of nodes or points as complete.",
 ['crash_points'],'every prefix of the write log of every short history, with the last write torn at any byte class',
 'Tests always complete the write.',
 [IO+'laz_base_writer.cpp',IO+'copc_writer_internal.cpp',IO+'base_reader.cpp'],[('header written last',IO+'copc_writer_internal.cpp')],[],['Reader construction on the partial file'])
prop('C23','A failing output is reported',
 "If any output operation of the underlying stream fails while nodes or batches are added or the writer is closed explicitly, some call up to and including that close throws. If no call threw, an explicit close that returns normally means the whole file was accepted by the output.",
 ['fault_sequences'],'a failure at every single output operation of every short history',
 'Tests never inject a failure.',
 [IO+'laz_base_writer.cpp',IO+'copc_writer_internal.cpp'],[('tellp checks in WriteChunk',IO+'laz_base_writer.cpp')],[],['exceptions from the writer'])
prop('C24','Truncated input never yields wrong data',
 "When a file is cut short at any position, opening it and every query on it either throws or returns exactly what the complete file returns for that query. It never returns altered, shortened or zero-filled data as if it were complete, never crashes and never hangs.",
 ['fault_sequences','inputs'],'every truncation point of small files times every query',
 'Tests only read complete files.',
 [IO+'copc_reader.cpp',IO+'base_reader.cpp',INC+'hierarchy/entry.hpp',INC+'laz/decompressor.hpp'],[('Entry::Unpack',INC+'hierarchy/entry.hpp'),('GetPointDataCompressed',IO+'copc_reader.cpp')],[],['Reader and LazReader on truncated input'])
prop('C25','Extents hold one correctly placed range per dimension',
 "A file's extents have exactly one entry per dimension of its point format plus one per extra-byte field; setting any dimension's range changes that entry only, and minimum, maximum (and mean and variance with extended statistics) of every dimension survive the file unchanged. Ranges with a minimum above the maximum or a negative variance, null ranges, dimensions the format lacks, and lists of the wrong length are rejected.",
 ['inputs','configurations'],'every dimension, format, extra-byte count and statistics flag',
 'Tests set a few dimensions.',
 ['cpp/src/copc/extents.cpp',INC+'copc/extents.hpp',IO+'copc_reader.cpp'],[('CopcExtents setters',INC+'copc/extents.hpp'),('ToLazPerf / VLR constructor','cpp/src/copc/extents.cpp')],[],['CopcExtents API','extents VLRs'])
prop('C26','Bulk accessors of point collections match the points they hold',
 "Every bulk getter of a point collection returns, in order, exactly the value of that attribute of each point, and every bulk setter given as many values as points sets exactly those values; a setter given another number of values is rejected and changes nothing. Testing or selecting by box covers exactly the points inside it, in order.",
 ['inputs','histories'],'every attribute, collection size and full value range, including 16-bit values',
 'Tests use small 8-bit values on one collection.',
 [INC+'las/points.hpp'],[('Points bulk accessors',INC+'las/points.hpp')],[],['Points API'])
prop('C27','Vector arithmetic and point-format tables are correct for every input',
 "Vector operations act on each component independently with IEEE double arithmetic, two vectors are equal exactly when all components are, and vectors only build from three values. Record sizes, dimension counts and colour / near-infrared support are those of LAS 1.4 for formats 6, 7 and 8, every other format is rejected, and record length and extra-byte size are inverse; two numbers are close exactly when they differ by less than the tolerance.",
 ['inputs'],'all 256 format values, all 65536 extra-byte sizes, all vectors over a set of special values',
 'The three tests that run sample a few vectors and no format table.',
 [INC+'geometry/vector3.hpp','cpp/src/las/utils.cpp',INC+'las/utils.hpp',INC+'utils.hpp'],[('Vector3 operators',INC+'geometry/vector3.hpp'),('format tables','cpp/src/las/utils.cpp')],[],['Vector3','las utils'])
prop('C28','Parallel read gives the sequential result under every completion order',
 "Whatever order worker tasks finish in, the Python parallel reader calls the read function once for each requested node with that node's points and hands each node's own result to the callback once; the concatenated and mapped helpers return exactly the coordinates a sequential pass would, limited by classification, resolution and node list. Conflicting or reserved arguments are rejected, and a failing task surfaces as an exception rather than a partial result.",
 ['schedules','inputs'],'all completion orders of up to five tasks, chunk sizes, filters and single failures',
 'Tests run with whatever order the operating system gives.',
 ['python/copclib/mp/read.py','python/copclib/mp/utils.py'],[('read_multithreaded','python/copclib/mp/read.py')],[],['callback calls','returned arrays'])
prop('C29','Parallel transform writes the sequential result under every completion order',
 "Whatever order worker tasks finish in, the Python parallel transform writes each requested node's transformed points exactly once under that node's own key and page (or as one LAZ batch), skips nodes left without points, calls the callback with the values of that same node, and with bounds update enabled sets the output header's bounds to those of all written points. Conflicting or reserved arguments are rejected, and a failing task surfaces as an exception.",
 ['schedules','inputs'],'all completion orders of up to five tasks, chunk sizes, transforms and single failures',
 'Tests run with whatever order the operating system gives.',
 ['python/copclib/mp/transform.py','python/copclib/mp/utils.py'],[('transform_multithreaded','python/copclib/mp/transform.py')],[],['writer calls','header bounds'])
prop('C30','Pickling and copying Python objects loses nothing',
 "Every object the Python module can pickle (byte vectors, keys, nodes, vectors and headers, whether made, edited or read from a file) comes back from pickling and from copying equal in every observable attribute, as an object independent of the original, whatever its values, among them binary identifiers. A pickled state that is not one of the type is refused.",
 ['inputs'],'every picklable type, every attribute at boundary values, all pairs of header attributes',
 'Tests pickle one instance of each type and compare some fields.',
 ['python/bindings.cpp'],[('py::pickle definitions','python/bindings.cpp')],[],['pickle.loads(pickle.dumps(x))'])
prop('C31','Independent readers and writers do not interfere across threads',
 "Any number of readers and writers that do not share streams or objects may be used from different threads at the same time, and each gives the result it would give alone. No data race exists between them.",
 ['schedules'],'all interleavings of the input/output operations of two or three threads up to a preemption bound',
 'No test uses threads in C++.',
 [IO+'copc_reader.cpp',IO+'copc_writer_internal.cpp','cpp/src/las/vlr.cpp'],[('no shared mutable state','cpp/src')],[],['results per thread','thread sanitizer'])
prop('C32','Any conforming COPC layout is read, not only the library\'s own',
 "A reader gives the right configuration, nodes and points for every conforming arrangement of a COPC file: WKT stored as VLR or EVLR, optional VLRs present or absent, unknown VLRs and EVLRs in between, any order of VLRs after the info VLR, hierarchy pages anywhere in the file, in one EVLR or several.",
 ['inputs','configurations'],'every combination of VLR presence, kind and order and of page placement',
 'Tests read one sample file and files the library wrote.',
 [IO+'base_reader.cpp',IO+'copc_reader.cpp'],[('ReadVlrHeaders / FetchVlr',IO+'base_reader.cpp')],[],['Reader queries'])
prop('C33','Files that are not valid COPC or LAS 1.4 are rejected',
 "A COPC reader refuses, by throwing, any file that lacks the info or hierarchy record, has the info record elsewhere than directly after the header, or has an unsupported version, header size, point format or encoding; a LAZ reader refuses those that concern it. Corrupted hierarchy, extents and record-length values lead to an exception or to some answer, never to a crash or to a query that does not return.",
 ['inputs'],'every single corruption of every structural field with boundary values',
 'Tests reject a couple of files.',
 [IO+'copc_reader.cpp',IO+'base_reader.cpp','cpp/src/las/header.cpp'],[('InitCopcReader checks',IO+'copc_reader.cpp'),('FromLazPerf checks','cpp/src/las/header.cpp')],[],['Reader construction and queries'])
prop('C34','Copying a file through reader and writer preserves it',
 "Creating a writer from the configuration of a reader and copying every node with its page (compressed or uncompressed) gives a file with the same metadata, extents, pages, nodes and points, for files of any conforming layout whose nodes have points and whose pages have nodes, and copying again changes nothing more. The same holds for copying a COPC file's nodes into a LAZ file as to points and shared metadata.",
 ['inputs','configurations'],'every source configuration times copy mode, two generations',
 'Tests copy one sample file.',
 [INC+'copc/copc_config.hpp',INC+'las/laz_config.hpp',IO+'copc_writer_public.cpp'],[('CopcConfigWriter(CopcConfig)',INC+'copc/copc_config.hpp')],[],['file content before and after'])
prop('C35','The Python module has the meaning of the library',
 "Each attribute of a Python object reads and writes the field of its name and nothing else, as seen in the bytes written to files and records; refused values (wrong type, None, out of range) change nothing. Points behave as a Python sequence under indexing, slicing, assignment (of points of their own format only), iteration and membership; queries, keys, boxes and vectors agree with the library's definitions; sequences and tuples convert to vectors, boxes and keys where accepted; optional overrides apply exactly when given; and objects stay valid for as long as Python refers to them.",
 ['inputs','histories'],'every attribute at boundary values, all pairs of point attributes, all short histories of sequence operations',
 'Tests touch some attributes of one object each.',
 ['python/bindings.cpp'],[('PYBIND11_MODULE','python/bindings.cpp')],[],['attributes and methods of the Python module'])

prop('C36','Readers and writers hold their files exactly while they are open',
 "However file readers and writers (COPC and LAZ) are opened, queried, closed, closed again and destroyed, and whichever files they are given (valid, truncated, foreign, empty, missing, a directory): each open object keeps one file open, and one that failed to open, was closed or was destroyed keeps none. A query on a closed reader answers as before or throws; what was obtained from a reader stays valid and unchanged after it is closed or destroyed; and a written file is complete as soon as its writer is closed.",
 ['histories','inputs'],'all short histories of two objects over nine kinds of files and targets',
 'Tests open and close valid files once and never look at what stays open.',
 ['cpp/include/copc-lib/io/copc_reader.hpp','cpp/include/copc-lib/io/laz_reader.hpp','cpp/include/copc-lib/io/copc_writer.hpp','cpp/include/copc-lib/io/laz_writer.hpp'],
 [('FileReader','cpp/include/copc-lib/io/copc_reader.hpp'),('LazFileReader','cpp/include/copc-lib/io/laz_reader.hpp'),('FileWriter','cpp/include/copc-lib/io/copc_writer.hpp'),('LazFileWriter','cpp/include/copc-lib/io/laz_writer.hpp')],[],['open file descriptors','results of queries','bytes of written files'])
prop('C37','Values compare equal exactly when what they hold is equal',
 "Two points (coordinates within one millionth, every other field and extra bytes exactly), keys, nodes, pages, vectors, extents and extra-byte descriptions compare equal exactly when their contents are equal: a difference in any one field is seen, copies and assigned values compare equal, == is symmetric and reflexive, != is its opposite, and equal keys have equal hashes so that they are found in unordered containers.",
 ['inputs'],'all pairs of values of small families that differ in each field, bit or byte',
 'Tests compare values that differ in a few fields.',
 ['cpp/include/copc-lib/las/point.hpp','cpp/include/copc-lib/hierarchy/key.hpp','cpp/include/copc-lib/las/vlr.hpp','cpp/include/copc-lib/copc/extents.hpp'],
 [('Point','cpp/include/copc-lib/las/point.hpp'),('VoxelKey','cpp/include/copc-lib/hierarchy/key.hpp'),('CopcExtent','cpp/include/copc-lib/copc/extents.hpp'),('Vector3','cpp/include/copc-lib/geometry/vector3.hpp')],[],['results of comparisons and hashes'])

prop('C38','What does not fit the file format is refused, what fits is stored right',
 "Files may grow beyond 2 and 4 GiB: every offset, size and count of chunks, pages, variable-length records and nodes is right in them, and they read back. A chunk or point data of more than 2^31-1 bytes, extra bytes that make records longer than 65535 bytes and extra-byte descriptions longer than a variable-length record are refused by throwing - in configurations, writer overrides, point collections, their conversions and codecs - and leave what was there unchanged; anything up to these limits is accepted and survives writing and reading.",
 ['inputs','histories'],'all short histories mixing small, largest possible and too large chunks; all sizes around each limit',
 'Tests write small files only.',
 ['cpp/src/io/laz_base_writer.cpp','cpp/src/io/copc_writer_public.cpp','cpp/src/io/copc_writer_internal.cpp','cpp/src/las/utils.cpp','cpp/src/las/vlr.cpp','cpp/include/copc-lib/laz/compressor.hpp'],
 [('WriteChunk','cpp/src/io/laz_base_writer.cpp'),('PointByteSize','cpp/src/las/utils.cpp'),('NumBytesFromExtraBytes','cpp/src/las/vlr.cpp')],[],['bytes of closed files','exceptions'])
prop('C39','A failing input is reported and its reader recovers',
 "When a read, a seek or a position query of the input fails while a COPC or LAZ reader is opened or queried, once or until the input is repaired, opening or the query throws or gives exactly what it gives on sound input. Once the input works again, the same reader answers every query as if nothing had failed.",
 ['fault_sequences','histories'],'a failure at every single input operation of opening and of every query, followed by every query',
 'Tests never inject a failure of the input; truncated files cover only failures that stay.',
 ['cpp/src/io/base_reader.cpp','cpp/src/io/copc_reader.cpp','cpp/src/io/copc_base_io.cpp','cpp/src/io/laz_reader.cpp'],
 [('BaseReader::CheckStream','cpp/src/io/base_reader.cpp'),('Reader::ReadPage','cpp/src/io/copc_reader.cpp'),('LazReader::GetPointData','cpp/src/io/laz_reader.cpp')],[('loaded','page already parsed','cpp/include/copc-lib/hierarchy/page.hpp')],['Reader and LazReader on failing and repaired input'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P))
