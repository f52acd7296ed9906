CHECKS = {}
def add(id, runs, technique, level_note, level='model_checking', assumptions=(), rule=''):
    CHECKS[id] = dict(runs=runs, technique=technique, level_note=level_note, level=level, assumptions=list(assumptions), rule=rule)
REL = 'bounded-exhaustive enumeration of geometry pairs run on the real code against an exact finite cell model'
RELN = 'Every pair of the listed families (all points, segments, polylines and simple polygons on 3x3 and 4x4 grids, polygons with holes on 4x4 and 5x5 grids, the same shapes with up to 128 vertices per edge and each index, and a catalogue of large shapes - combs, spirals, trees, bands, polygons with up to 81 holes, some of which touch each other or the outside at corners, up to 440 vertices - against every small point, segment, box and triangle of a 24x24 board, against each other and against every copy of themselves that differs in one unit cell) is decided against an exact DE-9IM oracle. Beyond those shapes the property is not explored.'
for p in ('C01', 'C02', 'C03'):
    add(p, [('h_rel', 'opt', [])], REL, RELN, assumptions=['the cell model in src/grid.hpp is exact for grid vertices (all lines through grid points cut the square into cells; one sample point decides a cell)'])
COLL = 'bounded-exhaustive enumeration of collections (parts, order, nesting, size) run on the real code against the part-by-part rule over exact relations'
add('C04', [('h_coll', 'opt', [])], COLL, 'Every sequence of up to three parts out of 21 (five of them empty), each nesting of them, as multi geometry, collection, feature and feature collection, against every part and every collection of one or two parts, collections of 63 to 128 children around the index threshold, and dozens of large shapes (multi polygons of up to 81 parts, bands, trees, combs) as collections on a 24x24 board against every small shape, each other and every copy of themselves with one cell changed. Longer sequences of interesting parts are not explored.',
    assumptions=['relations of the parts themselves come from the exact cell model (checked against tg by C01-C03)'])
LAWS = 'exhaustive enumeration of pairs from a finite universe of geometries on the real code, checking laws between the answers'
add('C05', [('h_laws', 'opt', ['--boost'])], LAWS, 'Every ordered pair of a universe of over a thousand geometries: all points, segments, three- and four-vertex polygons of the 3x3 grid, every four-position ring over a 2x2 grid (mostly invalid), some eighty large polygons and outlines of up to some hundred vertices, every empty form, collections, features, Z/M, NULL and error objects. Laws that only hold for valid geometries (touches is symmetric, reflexivity) are checked on the valid ones.')
add('C07', [('h_laws', 'opt', [])], LAWS.replace('laws between the answers', 'that every rewriting gives the same answers'), 'Every pair of several hundred geometries, each rewritten in some 20-40 ways (all start vertices, both directions, each vertex repeated, each edge split, as ring/line/poly, through every format, with Z/M, as feature) and both mapped by all 7 non-trivial symmetries, power-of-two scales and integer shifts; the same for large polygons of up to some hundred vertices.')
IDX = 'exhaustive enumeration of shapes, index configurations and queries on the real code against '
add('C06', [('h_index', 'opt', [])], IDX + 'the answers without an index', 'Some thirty large shapes (33 to several hundred vertices, many vertices level with each other) and all small shapes on the 3x3 grid under up to 20 index configurations: every half-grid point and a rectangle at it, every pair of small shapes, every pair of large shapes over a window of shifts, four outlines of every size up to some hundred vertices and around 32768, 65536 and 131072 under each index, and parsing with each index.')
add('C08', [('h_index', 'opt', [])], IDX + 'an exact pair list', 'Every pair of small rings and lines on the 3x3 grid (indexed from four vertices on with spread 2) with every stopping point, every pair of some thirty large shapes over a window of shifts, for combinations of index configurations, and outlines of every size up to some hundred vertices, and around 4096, 32768 and 65536, against each other.')
add('C09', [('h_index', 'opt', [])], IDX + 'the sorted list of distances', 'Shapes of every number of segments up to some hundred and up to 2000 (thorough: 10000) at each growth step of the queue, and around 32768 and 65536, all index configurations, 8 query points, 6 distance functions (ties and negative ones included), all protocols of the "more" flag, and stops.')
add('C10', [('h_index', 'opt', ['--boost']), ('h_index', 'ixf64', ['--boost'], 'both')], IDX + 'the enclosing rule and exact level sizes', 'Every size up to 200 points (thorough: 1200, and around powers of two up to 65536) with every spread up to 18 (40) and larger ones, coordinates of every binary magnitude, and collections of every number of children up to 400 (3000) and around powers of two in five layouts, made and copied, for single and double precision indexes.')
PRIM = 'exhaustive enumeration of inputs on the real code against exact integer / cell oracles'
add('C11', [('h_prim', 'opt', ['--boost'])], PRIM, 'Every pair of segments with ends on a 6x6 grid (thorough: 8x8), zero-length ones included, on a 5x5 grid also under six scalings and shifts, and every pair of rectangles and points over six coordinate values.')
add('C12', [('h_prim', 'opt', ['--boost'])], PRIM, 'Every simple polygon of the 3x3 grid and of the 4x4 grid with up to six vertices (thorough: eight), every polygon with one or two holes on the 4x4 grid, some thirty large shapes, and four outlines of every number of vertices up to some hundred and around 32768 and 65536, each asked at every point of a finer grid, for each index, through ten entry points.')
add('C13', [('h_prim', 'opt', ['--boost'])], PRIM, 'Every list of up to six (seven) vertices of a 3x3 grid as ring and as line, every simple ring of the 4x4 grid from each start in both directions, and five families of every length up to 140 (600) and around powers of two up to 65536, with each index, copied and cloned.')
add('C14', [('h_prim', 'opt', ['--boost'])], PRIM, 'Collections of 1 to 2200 children and around 32768 and 65536 in rows; of selected sizes in eight layouts and six kinds of children, against a family of some thousand search rectangles with stops; rectangles of every type and dimension with the extreme at every position.')
LIFE = 'exhaustive exploration of '
add('C15', [('h_life', 'asan', []), ('h_life', 'asan_noatomics', ['--small'])], LIFE + 'bounded call histories run on the real code against a model of owners, under ASan and UBSan and a counting allocator', 'Every history of up to four calls (thorough: five; one fewer without atomics) over four handles out of nine constructors, clone, copy, free, taking a part, wrapping and combining; and every history of three (four) of the latter starting from each of several hundred kinds of object; with and without atomics. The model counts owners of every block.')
add('C16', [('h_life', 'asan', [])], LIFE + 'a catalogue of every kind of geometry times every order of copying and freeing, run on the real code, comparing everything observable', 'Several hundred kinds of geometry (every type, dimension, emptiness, index, feature kind, size around the index thresholds) in six orders of copying and freeing (one with a twin outside the heap); fourteen kinds of geometry with every number of positions, rings and parts up to a hundred, in each dimension and with each index, some around 32768 and 65536; extra JSON of every length up to some hundred bytes. Memory of the copy is compared with the blocks allocated during the copy.')
add('C33', [('h_life', 'asan', [])], LIFE + 'a catalogue of every kind of geometry, of every size and index, run on the real code, against the bytes a counting allocator hands out', 'Several hundred kinds of geometry with their parts and children; fourteen kinds of geometry with every number of positions, rings and parts up to a hundred, in each dimension and with each index, some around 32768 and 65536; rings and lines of every length up to 600 with each index and seven spreads; extra JSON of every length up to some hundred bytes; collections made of each.')
add('C34', [('h_pure', 'opt', []), ('h_pure', 'opt_na', [])], LIFE + 'calls, on the real code, each under every one of a set of surroundings that must not matter', 'Everything that can be asked of several hundred kinds of geometry, of a family built and read, and of every size up to 80, over memory and a stack that held six different bytes; all relations and segment searches of every pair of some 600 objects made over three of them; each of some 600 calls before and after each other one; settings changed and put back; some hundred documents in five formats, cut at every byte, at different alignments and followed by twelve different bytes; the same documents and objects, eleven thousand numbers that are hard to read, every number token of up to five characters, and every two-byte beginning, in three other locales (another decimal point, letters above 127, another upper case) against the "C" locale.')
add('C18', [('h_life', 'asan', [])], LIFE + 'fault positions: every allocation of every operation fails, alone or with all that follow, on the real code', 'Every allocation reached by some thousand operations (all constructors, copies, parsers, nearest search), failing once and failing from there on, and each operation with an allocator that gives NULL for no bytes; among them the parsers and the copy of fourteen kinds of geometry of many sizes. Quick thins out the middle of operations with more than 400 allocations.')
add('C17', [('h_conc', 'conc', [])], 'stateless model checking of the real code: every schedule of small thread programs under a controlled scheduler, with vector-clock race detection', 'Every pair of threads running one operation and a free on each of 27 kinds of shared objects, in every schedule (also parsing documents of every format meanwhile); two threads with two operations each and three threads with one each under a preemption bound of one (thorough: all pairs of operations, bound three). Scheduling points are the atomic operations on objects more than one thread can reach; plain accesses need none since any unordered pair is reported as a race.', assumptions=['atomic operations are explored in interleaving order; a stale value returned by a relaxed atomic load is not modelled (the library only uses read-modify-write operations)','the allocator and the C library are thread safe'])
PARSE = 'bounded-exhaustive enumeration of inputs (every token sequence to a depth, every one-byte edit and, for short documents, every two-byte edit of a corpus) run on the real parsers '
ASMP = ['the reference parsers in src/ref.hpp (written from the grammars, sharing no code with tg) state the dialect; its decisions are listed in DESIGN.md']
add('C24', [('h_parse', 'opt', []), ('h_parse', 'opt_na', [])], PARSE + 'against a reference parser', 'Every sequence of up to six or seven tokens after each type word, around labels, terminators, rings, parts and numbers; every one-byte edit (256 values, insertion, deletion) of a corpus of documents and every two-byte edit of the short ones; every combination of the number of numbers in each position of a geometry and of the labels of its children; fourteen kinds of geometry with every number of positions up to some hundred and around powers of two up to 65536, whole, with one wrong position at each place and cut anywhere; both builds of the library. One number, name, label or gap of every length up to some hundred bytes. Texts that need more tokens than that to go wrong are covered only where an edit of the corpus reaches them.', assumptions=ASMP)
add('C25', [('h_parse', 'opt', []), ('h_parse', 'opt_na', [])], PARSE + 'against a reference parser', 'Every sequence of up to five to nine tokens as value, string, key, coordinates of each type, members of geometries, features and around documents; every one-byte edit of a corpus and every two-byte edit of the short ones; one number, name, text or gap of every length up to some hundred bytes, every combination of the number of numbers in each position of a geometry; fourteen kinds of geometry with every number of positions up to some hundred and around powers of two up to 65536, whole, with one wrong position at each place and cut anywhere; both builds of the library.', assumptions=ASMP)
add('C26', [('h_parse', 'opt', []), ('h_parse', 'opt_na', [])], PARSE + 'against a reference parser', 'Every sequence of up to five to nine words (counts, types, coordinates) after each header, every 16-bit type word under each of four top bytes, all counts around the limits, every GeoBIN head, every one-byte edit of a corpus and every two-byte edit of the short ones, every combination of the dimensions of children, texts and gaps of every length, and fourteen kinds of geometry with every number of positions up to some hundred and around powers of two up to 65536, whole, spoiled at each place and cut anywhere, for WKB, hex and GeoBIN.', assumptions=ASMP)
add('C27', [('h_parse', 'asan', []), ('h_parse', 'asan_na', [])], PARSE + 'under the sanitizers, with each input in a block of exactly its size and the allocations counted', 'The inputs of C24 to C26 (sizes up to some dozen, cuts, and single numbers, names, texts and gaps of every length included), each given to every parser under ASan and UBSan; results are used, written, copied and freed; memory taken is bounded by a multiple of the input; nesting to many times the limit. Undefined behaviour the sanitizers do not see is not decided.')
add('C28', [('h_parse', 'opt', [])], PARSE + 'comparing the ways to parse', 'Every document of a corpus of all formats with every prefix length and each kind of leading white space, every one-byte edit of it, every beginning of up to three bytes of interest, fourteen kinds of geometry with every number of positions up to some dozen, one number, name, text or gap of every length, and missing input, through every entry point; sized input lies in front of a protected page.')
NUM = 'exhaustive enumeration of decimal texts and bit patterns run on the real parsers and writers against exactly rounded conversion and, for the shortest form, every shorter text'
add('C29', [('h_parse', 'opt', []), ('h_parse', 'opt_na', []), ('h_write', 'opt', []), ('h_write', 'opt_na', []), ('h_parse', 'no128', []), ('h_write', 'no128', [])], NUM, 'Reading: every mantissa of up to a few digits with every exponent from underflow to overflow, all decimals of a given length, halfway texts of many doubles with up to 800 digits, integers around powers of two and ten. Writing: every exponent with a set of mantissa patterns, all short decimals and their neighbours, integers, powers of ten and two, sums of money and coordinates; shortest form is decided by trying one digit fewer. The library is also built without 128-bit integers. The remaining 2^64 doubles are not explored.', assumptions=['strtod of glibc, the oracle, rounds correctly'])
WRITE = 'bounded-exhaustive enumeration of a family of geometries (every combination of type, dimension, coordinate values, structure, emptiness and nesting within a bound) run through the real writers, '
add('C19', [('h_write', 'asan', []), ('h_write', 'asan_na', [])], WRITE + 'with every buffer size', 'Some thousand geometries and the catalogue of all kinds, five formats, every buffer size from zero to beyond the needed length (for outputs above some kilobytes: the sizes around the ends and around powers of two), geometries of fourteen kinds with every number of positions, rings and parts up to some hundred, each buffer being a block of exactly that size under ASan with a guard pattern, plus a missing buffer.')
add('C20', [('h_write', 'opt', []), ('h_write', 'opt_na', [])], WRITE + 'then through a reference reader and the real readers', 'Some 45 thousand geometries of a family, each built through the constructors, and the catalogue of all kinds. The family has up to three positions per line, two rings, three parts and two levels of nesting, and beyond it fourteen kinds of geometry with every number of positions, rings or parts up to some hundred, and around powers of two up to 65536, are explored in each dimension and three patterns of values. Constructors given fewer or more extra coordinates than positions (every number from none to two more) write zeros for what is missing; C21 to C23 explore the same.')
add('C21', [('h_write', 'opt', []), ('h_write', 'opt_na', [])], WRITE + 'and of documents with every member sequence to a depth, then through a reference reader and the real one', 'The family, sizes and catalogue of C20 and every sequence of up to four to six members of features, of their geometries, of geometries, collections and feature collections out of alphabets with duplicates, escapes and all kinds of values; each code unit in a string.')
add('C22', [('h_write', 'opt', [])], WRITE + 'against a reference writer and the real readers', 'The family, sizes and catalogue of C20, each written, compared byte by byte with a reference writer, and read back in both byte orders, with SRIDs, ISO and extended dimension flags, as hex of either case; every exponent with mantissa patterns in each coordinate; lines of every length to 200.')
add('C23', [('h_write', 'asan', [])], WRITE + 'against a reference reader and the real one, and every cut and every first two bytes of headers', 'The family, sizes and catalogue of C20 and some nine thousand features; every cut and every value of the first two bytes of a corpus of encodings for the three header readers.')
add('C30', [('h_acc', 'asan', [])], 'bounded-exhaustive enumeration of geometries and indexes run through the real accessors under the sanitizers, against what the geometry was built from', 'A family of some 20 thousand geometries, built and parsed, with copies; the catalogue of all kinds; features; rings and lines of every length to 129 with each index, in every wrapping; each accessor with indexes from INT_MIN to INT_MAX around both ends; missing and error geometries.')
add('C31', [('h_acc', 'opt', [])], 'explicit-state exploration of all settings histories to a depth on the real code against a model of the settings', 'Every history of up to three (thorough: four) of 27 settings calls (valid and invalid), after each of which every way of building or parsing a geometry is tried with every index choice; and every operation on the catalogue under two counting allocators, with the C allocator watched.', assumptions=['what an index looks like for a given choice and spread is taken from the plain constructor under that setting (its correctness is C06 and C10)'])
add('C32', [('h_low', 'opt', [])], 'bounded-exhaustive enumeration of pairs of points, segments, rectangles, lines, rings and polygons run on the real code against exact finite cell and integer oracles', 'Every pair of the shapes of the 3x3 grid (and polygons with a hole, segments and triangles of the 4x4 grid) for the typed relations with each index, every rectangle of the 4x4 grid (flat ones included) against every segment, three-point line, triangle, quadrilateral and polygon with a hole, every segment pair of a 5x5 grid, every rectangle pair, searches and moves of all small and some thirty large shapes, circles of every number of steps to 600, every spread, every collection of up to three out of some two hundred leaves and collections (and wide and deep ones) flattened with every stop.',
    assumptions=['the cell model in src/grid.hpp is exact for grid vertices'])
