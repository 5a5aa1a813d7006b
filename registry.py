"""What run.py builds and explores for each property."""
REGISTRY = {
    'C01': dict(src=['C01.cpp'], bounds='all histories of up to 3 additions over 11 key/page places x 3 input kinds x formats 6-8 x extra bytes 0/3 (thorough 300, two sizes); up to 4 (thorough 5) additions of raw data; all size combinations 1..300 of three nodes; two nodes of up to 70000 points; files of up to 585 nodes'),
    'C02': dict(src=['C02.cpp'], bounds='all histories of up to 4 (thorough 6) additions and page moves over 4 keys and 10 key/page places in nested and sibling pages, up to 5 (6) on a line of depth 4, up to 6 (9) with the root; files of up to 2049 nodes moved between five layouts of pages; with and without lookups in the writer after every call'),
    'C03': dict(src=['C03.cpp'], bounds='formats 6-8 x 7 extra-byte descriptions (none, named, full-length names, 300 raw bytes, all 30 types, zero-length fields) x 4 WKT lengths x statistics on/off x 5 hierarchies x 3 input kinds; LAZ with up to 3 batches; undescribed extra bytes; all lists of up to 5 (6) chunks with claimed counts from 1 to 2^31-1; up to 4097 batches, nodes and pages'),
    'C04': dict(src=['C04.cpp'], bounds='all histories of up to 3 (thorough 4) COPC writer calls and 4 (5) LAZ writer calls mixing 4 accepted with 27 resp. 9 kinds of rejected calls, formats 6-8 x extra bytes 0/6'),
    'C05': dict(src=['C05.cpp'], bounds='5 COPC and 4 LAZ histories x stream/file x all sequences of up to 4 (thorough 5) resp. 5 (7) calls (close, three kinds of additions, page move, configuration edit) from the first close on, then destruction'),
    'C06': dict(src=['C06.cpp'], bounds='all sequences of 3 (thorough 4) of 46-54 queries on 3 files with nested and empty pages; all sequences of 4 (5) page-loading queries; every query first and last around all others; all sequences of 5 (7) LAZ queries on 4 files; all pairs of queries on files of 73 and 300 nodes'),
    'C07': dict(src=['C07.cpp'], bounds='every placement of nodes at 6 keys in their pages plus one (thorough: any) further page; every placement on a line of depth 4 (5); full octrees to depth 2 (3) with pages at any depths; keys to depth 31 with extreme coordinates; entries beyond 4 GiB with extreme sizes and counts; pages of up to 2049 (quick: 600 when in pages of their own) and of 65535-70000 entries'),
    'C08': dict(src=['C08.cpp'], bounds='all files with 0-2 nodes at each of 6 (thorough 7) depths x 3 spacings x 3 page layouts, 13 spacings from 0 to DBL_MAX x depths -1..10, writer files; resolutions at, one ulp around and between all level resolutions, zero, negative and infinite; files of 73-1000 nodes, with nodes of up to 1500 points'),
    'C09': dict(src=['C09.cpp'], bounds='5 files (cubic, flat, offset, degenerate bounds, coordinates that need more than 24 bits; points on all cell corners, faces, centres) x all boxes over 8 coordinates per axis (faces, centres, outside, one ulp off) x resolutions; boxes one ulp inside and touching every cell; flat boxes; files of 73-400 nodes'),
    'C10': dict(src=['C10.cpp'], bounds='7 headers (2 with coordinates of many digits) x 10 keys x one point at all 7x7x7 places around cell and header bounds; up to 2 (thorough 3) displaced of 12 points; all sets of 10 empty nodes; header bounds moved by 7 distances'),
    'C11': dict(src=['C11.cpp'], bounds='all keys to depth 5 (thorough 6), all pairs to depth 3, 500 extreme keys and their ancestors, all 4-tuples of 5 values around validity'),
    'C12': dict(src=['C12.cpp'], bounds='all pairs of boxes on a 3x3x3 grid (thorough 4x4x4) and all half-grid points, one-ulp neighbours of faces, all cells to depth 4 of 8 headers, keys at the ends and in the middle of every depth to 35; growing 4 bounds by up to 2 (3) points of a 4x4x4 grid'),
    'C13': dict(src=['C13.cpp'], bounds='264 grid positions (and one-ulp neighbours, NaN, infinities) x 8 scales x 6 offsets x 3 axes x 2 paths; windows of 1200 grid values'),
    'C14': dict(src=['C14.cpp'], bounds='all setter histories of length 2 over all value classes and of length 3 over a reduced alphabet (thorough: length 3, all classes); all packed bytes; all 16-bit values'),
    'C15': dict(src=['C15.cpp'], bounds='formats 6-8 x 8 extra-byte sizes x 22 fields x boundary values; every byte of a record x 256 values x 3 backgrounds; lists of up to 4 (thorough 6) points; all data sizes up to 4 records; lists of up to 70000 points'),
    'C16': dict(src=['C16.cpp'], bounds='all histories of 3 (thorough 4) additions and conversions over formats 6-8 and extra-byte sizes incl. equal record lengths; all conversion sequences of length 5 (6) of a single point; collections of up to 70000 points; collections added to themselves'),
    'C17': dict(src=['C17.cpp'], bounds='all pairs (and every one at 5 moments) of 27 header fields x 3-9 values incl. full-length and binary identifiers; all fields at once x formats x nodes x streams and files; 20 WKT lengths to 200000 x 4 texts; every extra-byte type, name and description length, array element; pairs of info fields x 9 values; up to 2 of 6 scale and offset components; built files with pairs of header values'),
    'C18': dict(src=['C18.cpp'], bounds='all combinations of 6 overrides (3 formats, scale, offset, 2 WKTs, 4 extra-byte lists, statistics on/off) over configurations of 3 formats x 3 extra-byte lists x statistics, made or read from a file; every format byte; up to 341 extra-byte fields through overrides of the format and the list'),
    'C19': dict(src=['C19.cpp'], bounds='all histories of 3 (thorough 4) steps deriving objects from each other (18 kinds of derivation and assignment between configurations, writers, readers, headers, infos, extents) and changing them, then every setting of every object changed in turn and every writer closed; 14x14 changes of parts; 8x8 changes of values from a reader'),
    'C20': dict(src=['C20.cpp'], bounds='all histories of 3-4 (thorough 4-5) batches of 14 kinds (points, chunks, the same object again, edited, empty, other format of equal record length, other length, non-positive counts) x formats 6-8 x extra bytes, closed or destroyed; to depth 2 (3) over files; every batch size to 400 (1200) and 50000-65537; up to 70000 batches; two writers sharing objects'),
    'C21': dict(src=['C21.cpp'], bounds='formats 6-8 x 29 extra-byte sizes to 4000 x 0-5 (thorough 11) points x 5 contents x 4 ways to compress x 4 to decompress; every extra-byte size to 600 (2000) and the largest records; every count to 300 (700) and up to 70001; every input size to 3 records; every shorter count; all histories of 4 (6) writes and 4 (5) reads of one stream'),
    'C22': dict(src=['C22.cpp'], bounds='every byte prefix of the sequence of writes of 6 COPC and 4 LAZ histories (COPC images also opened as LAZ); a process ending after each number of operations on a real file'),
    'C23': dict(src=['C23.cpp'], bounds='every output operation (about 900-1600 writes, seeks and flushes per history) of 5 COPC and 4 LAZ histories failing in 3 ways, once or persistently, with and without stream exceptions; every file-size limit below the full size; a full device; a failure reported when the file is closed'),
    'C24': dict(src=['C24.cpp'], bounds='every length of 6 COPC files, 8 files of other layouts and 4 LAZ files x every query, on a fresh reader and in sequence (twice) on one reader'),
    'C25': dict(src=['C25.cpp'], bounds='3 formats x 3 field counts x statistics x all single settings (5 values, 4 ways), all pairs (thorough triples) of settings, in extents, a configuration or a writer, through files; 9 extra-byte counts; 11^3 ranges; every format byte and list length; all changes of format; files of other software with wrong counts; formats changed with up to 256 fields'),
    'C26': dict(src=['C26.cpp'], bounds='all histories of 2 (thorough 3) bulk setter calls over 8 attributes, 5 sizes, up to 3 points, 3 formats; every 8/16-bit value in every position; all placements of up to 3 (4) points around a box, also a tiny one far from the origin; every attribute and GetWithin on up to 70000 points'),
    'C27': dict(src=['C27.cpp', 'utils_probe.cpp'], bounds='16 special values in every position pair, all 256 format bytes, all extra-byte sizes'),
    'C28': dict(py='C28', bounds="all completion orders of up to 4 (thorough 5) tasks with ends before, between and after the consumer's steps, of 5 (6) without early ends; every node list of up to 3 (4) nodes; chunk sizes 1 to all x 1-5 workers; 14 kinds of failure of each task x orders; 11 class lists x selections x files; one failure among 5-70 tasks at every place x 3 orders; sequences of 2 (3) calls; all 6 orders with real processes; files of 70-1030 nodes x chunk sizes x workers in three fixed orders",
        assumptions=['The module is compiled from the real python/bindings.cpp against a small stand-in for pybind11 (not installed here), and run by a real CPython.', 'The controlled executor stands for concurrent.futures; scenarios with real processes, released in every order, bind it to the genuine one.']),
    'C29': dict(py='C29', bounds="all completion orders of up to 3 (thorough 4) tasks with early ends, of 4 (5) without; 12 transforms x 3 files x 7 selections x COPC/LAZ x bounds update; every override of the output's layout; 18 kinds of failure of each task x orders; one failure among 5-70 tasks at every place x 3 orders; assignment of tasks to workers; sequences of 2 (3) calls; two calls with one writer; all 6 orders with real processes; files of 70-1030 nodes x chunk sizes x workers in three fixed orders",
        assumptions=['The module is compiled from the real python/bindings.cpp against a small stand-in for pybind11 (not installed here), and run by a real CPython.', 'The controlled executor stands for concurrent.futures; scenarios with real processes, released in every order, bind it to the genuine one.']),
    'C30': dict(py='C30', bounds='7 ways of copying (pickle protocols, copy, deepcopy, twice) x all bytes, all vectors over 12 doubles, keys and nodes over boundary values, all pairs of header attributes x values on headers from every source; binary identifiers',
        assumptions=['The module is compiled from the real python/bindings.cpp against a small stand-in for pybind11 (not installed here), and run by a real CPython.']),
    'C35': dict(py='C35', bounds='every bound attribute of points (all pairs), headers, info and extents x boundary values x formats 6-8; refused values; bulk attributes x lengths; all histories of 2 (thorough 3) sequence operations on up to 4 points with all indices and slices; 7 files x 9 resolutions x all boxes; all keys to depth 3 (4); vectors over 7 values; all pairs of 16 extents; overrides and conversions',
        assumptions=['The module is compiled from the real python/bindings.cpp against a small stand-in for pybind11 (not installed here), and run by a real CPython.']),
    'C31': dict(src=['C31.cpp'], flavours=['tsan'], bounds='7 kinds of threads (write/read COPC, write/read LAZ, whole-file computations, configurations, files on disk), all 28 pairs incl. the same kind twice x which starts x preemption at every stream operation and library call, and for computations and configurations at every allocation; triples; every pair from the start of a process of its own, the first thread preempted half way (thorough: at up to 40 places) or running to its end; thorough: every pair at every allocation, pairs with two preemptions', assumptions=['Preemption points are stream operations, library calls and allocations, not single instructions; races between them are found by the thread sanitizer, for which the controlled threads are unordered (control passes by futexes it does not see). The standard library itself is not instrumented.'], technique='model checking: exhaustive exploration of thread interleavings of the real code up to a preemption bound under a controlled scheduler, with race detection'),
    'C32': dict(src=['C32.cpp'], bounds='all combinations of formats 6-8, described and undescribed extra bytes, extra bytes and WKT in VLR/EVLR/absent, extents and statistics present or absent, unknown VLRs and EVLRs with clashing ids, pages in one EVLR each / one EVLR / a VLR; 5 hierarchies x 3 page orders x gaps; all 7! (thorough 8!) orders of the VLRs; up to 257 unknown records before the known ones, pages and extra-byte fields, a page of 2100 entries; unknown records of 5 x 2^32 bytes'),
    'C33': dict(src=['C33.cpp'], bounds='all versions, header sizes, formats, encodings and short record lengths; info and hierarchy records renamed, renumbered, moved; every byte of 2 (thorough 3) files x 5 (10) values x all queries; up to 2 (3) of 8 kinds of changed hierarchy entries; up to 2 of 20 header/record fields x 10 values (quick: pairs on one file, 3 values for the second); lines of up to 60000 (300000) pages; 256 extra-byte types, special extents and statistics'),
    'C34': dict(src=['C34.cpp'], bounds='all combinations of 3 formats x 4 extra-byte kinds x places of extra bytes, WKT and pages x extents and statistics present or absent x unknown records; 6 hierarchies x 3 page orders x gaps x 5 ways of copying x 3 node orders x 3 ways to derive the configuration; streams and files; each extent and header value; two generations; COPC to LAZ to LAZ; copies of files with up to 300 nodes, pages and extra-byte fields and 66000 points in a node'),
    'C36': dict(src=['C36.cpp'], bounds='all histories of up to 4 (thorough 5) operations on two objects (COPC and LAZ file readers and writers): open or create (9 files: valid, truncated, foreign, empty, missing, a directory; later 3 of them; 4 targets, later 2; thorough: also all of them in histories of 4), close, destroy, query everything, add points, keep results; every query before closing x every query (thorough: pair of queries) after it'),
    'C37': dict(src=['C37.cpp'], bounds='points: all pairs of records that differ in up to two bits, of 3 formats and 2 record lengths; all triples of 10 coordinate differences; all pairs of formats and extra-byte counts and conversions; all pairs of 256 (thorough 2401) keys, 400 entries, 216 vectors, 1296 extents; extra-byte descriptions that differ in up to two bytes'),
    'C38': dict(src=['C38.cpp'], bounds='all histories of up to 4 (thorough 5) additions of a few points, chunks of 2^31-1 bytes and 2^31-1 points, (thorough: of 2^30), and refused chunks and raw data of 2^31 bytes, to COPC and LAZ files of up to 10 GiB; extra-byte descriptions around the limits of the record length and of their VLR, in configurations, overrides and copies; records around 65535 bytes in points, collections, conversions and codecs'),
    'C39': dict(src=['C39.cpp'], bounds='6 COPC files, 4 (thorough 12) of other layouts and 4 LAZ files, also COPC files as LAZ: every single read, seek and position query while opening and during every query failing in 3 ways (nothing or half of it read, an exception), once or until repaired, on a fresh reader and after each of several (thorough: every) earlier query; then every query on the repaired input'),
}
NOT_APPLICABLE = {
}
