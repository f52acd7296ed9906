#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
TG=['tg.c','tg.h']; DEP=['tg.c','deps/json.c','deps/fp.c']

prop('C01','Intersects and disjoint are exact',
 'For two points, lines or valid polygons (with or without holes), "intersects" is true exactly when the two point sets, boundaries included, have a common point. "Disjoint" is its negation, and both give the same answer when the operands are swapped.',
 ['inputs','configurations'],'every pair of points, lines and valid polygons with exactly representable coordinates, however many vertices they have and whichever index they use',
 'The relation tests hold a few dozen hand drawn pairs; degenerate contact (shared vertex, collinear overlap, a vertex on an edge, a hole that just fits) is a combinatorial space of pairs.',
 TG,[('per-type dispatch of intersects','tg.c tg_geom_intersects and *_intersects_geom'),('ring/segment tests','tg.c tg_ring_intersects_segment, tg_ring_intersects_ring, tg_poly_intersects_poly, tg_line_intersects_line')],['tg_geom_intersects','tg_geom_disjoint'])
prop('C02','Covers and contains are exact, and within/coveredby are their converses',
 'For two points, lines or valid polygons, "A covers B" is true exactly when no point of B lies outside A, and "A contains B" exactly when, in addition, their interiors have a common point. "Coveredby" and "within" are the same questions with the operands swapped.',
 ['inputs','configurations'],'every ordered pair of points, lines and valid polygons with exactly representable coordinates and any index',
 'Tests compare a few dozen pairs with a recorded answer; which side of a boundary a shared edge runs on, or which hole a line crosses, is decided by vertex-level coincidences the samples do not enumerate.',
 TG,[('covers family','tg.c tg_geom_covers, tg_poly_covers_poly, tg_poly_covers_line, tg_line_covers_line, tg_ring_contains_ring, tg_ring_contains_segment'),('contains family','tg.c tg_geom_contains and the *_contains_* functions')],['tg_geom_covers','tg_geom_contains','tg_geom_within','tg_geom_coveredby'])
prop('C03','Touches and equals are exact',
 '"A touches B" is true exactly when A and B have a common point but no common interior point, and does not depend on operand order. "A equals B" is true exactly when they are the same set of points, however the vertices are chosen, ordered or repeated.',
 ['inputs','configurations'],'every pair of points, lines and valid polygons with exactly representable coordinates and any index',
 'Touching and equality are the two predicates where every boundary coincidence matters; the tests sample a handful of them.',
 TG,[('touches','tg.c tg_geom_touches and *_touches_* functions'),('equals','tg.c tg_geom_equals')],['tg_geom_touches','tg_geom_equals'])
prop('C04','Collections answer predicates child by child',
 'A multi geometry or collection intersects another geometry exactly when a non-empty part of one meets a non-empty part of the other; it touches it exactly when some pair of parts touches and no pair meets otherwise; and it covers or contains it exactly when each non-empty part of the other is covered or contained by a single part of its own. Parts are what remains when multi geometries, collections, features and nesting are taken apart. The order of the children, nesting them in further collections, and the number of children do not change any answer.',
 ['inputs','configurations'],'every collection of points, lines and polygons, of any nesting and any number of children, on either side of every predicate',
 'The tests hold a few collections of two or three children; the indexed search takes over at 64 children and is hit by one predicate test only.',
 TG,[('child iteration','tg.c tg_geom_foreach, geom_covers_iter, geom_contains_iter, tg_geom_search'),('multi index','tg.c multi_geom_inflate_index, multi_index_search')],['tg_geom_intersects','tg_geom_covers','tg_geom_contains','tg_geom_touches'])
prop('C05','The eight predicates agree with each other',
 'For any two geometries, valid or not, empty or not, of any dimensions: disjoint negates intersects, within and coveredby are contains and covers with operands swapped, intersects and equals are symmetric (touches for valid geometries), equals is contains both ways, contains implies covers, and covers and touches imply intersects. A missing or empty geometry makes every relation false apart from disjoint.',
 ['inputs'],'every pair drawn from all kinds of geometries: points, lines, polygons, collections, features, empty ones, ones with Z and M, self-intersecting and degenerate ones, and missing ones',
 'Laws over pairs; the tests check single answers of single pairs.',
 TG,[('predicates','tg.c tg_geom_disjoint, tg_geom_within, tg_geom_coveredby, tg_geom_equals, tg_geom_touches')],['all tg_geom_* predicates'])
prop('C06','The index never changes an answer',
 'Every predicate, search and parse gives the same answer for a geometry whatever index it was built with (none, natural or y-stripes), whatever the index spread, and whatever its number of vertices. An index changes the time an operation takes and nothing else.',
 ['inputs','configurations'],'every geometry, all index kinds and every index spread from 2 to 4096',
 'The tests use the default spread and large real-world shapes, so boundary coincidences inside deep indexes are never met.',
 TG,[('natural index','tg.c process_ring_points, ring_search, fill of index levels'),('stripes','tg.c ystripes creation, pip_stripes'),('index choice','tg.c tg_env_set_index, tg_env_set_index_spread')],['all predicates','search functions'])
prop('C07','The same shape written differently behaves the same',
 'Reversing a ring or line, starting a ring at another vertex, repeating vertices, adding collinear vertices, mirroring or transposing or scaling both operands by a power of two, and passing a ring or polygon or line itself instead of a geometry made from it leave every predicate unchanged. So do extra Z or M coordinates and being wrapped as a feature.',
 ['inputs'],'every pair of geometries and every such rewriting of either operand',
 'A relation between pairs of calls; the tests only look at single calls.',
 TG,[('ring normalisation','tg.c process_ring_points, ring_new'),('upcasts','tg.c struct head of ring/line/poly')],['all tg_geom_* predicates'])
prop('C08','Segment searches report every intersecting pair exactly once',
 'Searching a ring against a ring or a line, and a line against a line, reports each pair of segments that share a point exactly once, with the right segments and positions, and reports no other pair. The search stops at the first report the caller refuses.',
 ['inputs','configurations'],'every pair of rings and lines, with every index and spread, and every stopping point',
 'Tests run some large shapes and count hits; missing pairs at node borders of the index depend on where vertices fall.',
 TG,[('pair search','tg.c tg_ring_ring_search, tg_ring_line_search, tg_line_line_search, segment/index joins')],['tg_ring_ring_search','tg_ring_line_search','tg_line_line_search'])
prop('C09','Nearest-segment search yields every segment in order of distance',
 'The nearest-segment search of a ring or line calls the visitor with every segment exactly once, in non-decreasing order of the distance the caller computed, until the visitor refuses. It reports success if no allocation failed, whatever the number of segments and however many rectangles are pending.',
 ['inputs','configurations'],'every ring and line of any size, every index and spread, every consistent distance function, and every stopping point',
 'The tests sample random points on a few shapes; queue growth and the "more" protocol are hardly used.',
 TG,[('priority queue','tg.c nqueue push/pop in tg_ring_nearest_segment'),('index traversal','tg.c tg_ring_nearest_segment')],['tg_ring_nearest_segment','tg_line_nearest_segment'])
prop('C10','Index rectangles enclose what is below them',
 'Every rectangle an index of a ring or line exposes encloses all segments in its range and all rectangles of the next level in its range, and the root level encloses the whole shape; the index over the children of a collection encloses every child and every rectangle of its next level likewise. The number of levels and of rectangles per level is what the spread and the number of segments or children require, and out-of-range queries return nothing.',
 ['inputs','configurations'],'every ring, line and collection of any size and coordinates, including tiny and huge ones, and every spread',
 'Rounding of rectangles to single precision depends on the coordinate value; tests use geographic coordinates only.',
 TG,[('rounding outwards','tg.c tg_rect_to_ixrect, fdown, fup'),('levels','tg.c calc_index_size, fill_in_index')],['tg_ring_index_*','tg_line_index_*','tg_geom_multi_index_*'])
prop('C11','Point, segment and rectangle primitives are exact',
 'Two segments intersect exactly when they have a common point; rectangles and points intersect exactly when they have a common point, borders included. The rectangle of a segment, the union of rectangles and the centre are the smallest enclosing rectangle and its middle.',
 ['inputs'],'every pair of segments (also zero-length ones), rectangles and points with exactly representable coordinates',
 'Collinear, touching and degenerate arrangements form a combinatorial space the tests sample.',
 TG,[('segment test','tg.c tg_segment_intersects_segment, collinear, raycast'),('rects','tg.c tg_rect_*')],['tg_segment_*','tg_rect_*','tg_point_*'])
prop('C12','Point in polygon is exact',
 'A point lies in a polygon exactly when it is inside or on the exterior and not strictly inside a hole, for every ring, convex or not, with any index and any number of vertices. The question asked as a point geometry, as plain coordinates or as a degenerate rectangle has the same answer.',
 ['inputs','configurations'],'every polygon and every point, in particular points level with a vertex, on an edge or on a horizontal edge',
 'The parity rule fails only at particular alignments of the point with vertices; tests use random points.',
 TG,[('ray casting','tg.c raycast, pip_eoo, pip_natural, pip_stripes'),('holes','tg.c tg_poly_covers_point')],['tg_geom_intersects_xy','tg_geom_covers','tg_geom_contains'])
prop('C13','Derived facts of rings and lines are right',
 'The rectangle, segment count, segments, area, perimeter, length, winding order and convexity reported for a ring or line are those of its vertices; a ring that was not closed by the caller is closed. They do not depend on the index, and survive copying and cloning.',
 ['inputs','configurations'],'every vertex list, including degenerate, repeated and unclosed ones, of any length and any index',
 'Single passes over the vertices compute all of these at once, with special cases at the closing vertex; tests check a few shapes.',
 TG,[('single pass','tg.c process_ring_points'),('accessors','tg.c tg_ring_area, tg_ring_perimeter, tg_ring_segment_at, tg_ring_num_segments')],['tg_ring_*','tg_line_*'])
prop('C14','Bounding rectangles and child searches are complete',
 'The bounding rectangle of any geometry, in 2, 3 or 4 dimensions, is the smallest one around all its coordinates, empty children excepted. Searching a collection with a rectangle reports each non-empty direct child whose rectangle meets it exactly once, with the right child and position, until the caller refuses.',
 ['inputs','configurations'],'every geometry of every type, dimension and number of children, and every search rectangle',
 'Children are reordered along a curve into an index only above 64 of them; the tests sample one size.',
 TG,[('rect','tg.c multi_geom_inflate_rect, tg_geom_fullrect'),('search','tg.c tg_geom_search, multi_index_search')],['tg_geom_rect','tg_geom_fullrect','tg_geom_search'])
prop('C15','Any history of sharing, copying and freeing is memory safe',
 'In every order of creating, cloning, copying, embedding and freeing rings, lines, polygons and geometries, an object stays readable and unchanged until its last owner frees it, everything is released after that, and nothing is released twice. This holds with and without atomic reference counts and with any allocator.',
 ['histories','configurations'],'every sequence of constructor, clone, copy and free calls over any number of handles',
 'A property of histories; each test exercises one fixed order.',
 TG,[('reference counts','tg.c rc_retain, rc_release, *_free, *_clone'),('allocator seam','tg.c tg_malloc, tg_realloc, tg_free')],['tg_*_clone','tg_*_copy','tg_*_free','tg_env_set_allocator'])
prop('C16','A copy is equal to and independent of its original',
 'A copy answers every accessor, predicate, search and writer exactly like its original, including index, extra coordinates, feature flags and extra JSON. It shares no memory with the original, so it stays valid after the original is freed. Cloning an object marked as not from the heap gives such a copy, and freeing that object does nothing.',
 ['inputs','configurations'],'every geometry of every type, dimension, index, emptiness and feature kind',
 'Each type and each optional part has its own copy code; the tests copy a few geometries and compare little.',
 TG,[('copy','tg.c geom_copy, tg_ring_copy, tg_poly_copy, index_rebase')],['tg_geom_copy','tg_ring_copy','tg_line_copy','tg_poly_copy'])
prop('C17','Threads may share geometries',
 'Threads that clone, free, read, test, search and write the same geometries concurrently, each freeing its own handles, see the results a single thread would see, in every interleaving. There is no data race, use after free, double free or leak.',
 ['schedules'],'every interleaving of threads that each own a reference',
 'The outcome depends on the schedule; the tests run one thread.',
 TG,[('atomic counts','tg.c rc_retain, rc_release'),('thread local scratch','tg.c stack_ring and other scratch')],['tg_geom_clone','tg_geom_free','predicates'])
prop('C18','Running out of memory is survivable at any point',
 'If any allocation fails during any call, the call reports failure in the documented way (a missing result, or false) or succeeds with the right result. Nothing is leaked, damaged or freed twice, the operands stay usable, and the same call succeeds once memory is back. A call that needs no bytes does not depend on what the allocator answers to that.',
 ['fault_sequences'],'every call, every position of the failing allocation within it, single failures and failures that persist',
 'The chaos tests fail allocations at random; the space is every allocation site reached by every call.',
 TG,[('failure paths','tg.c all constructors, copies, parsers, nearest search'),('allocator seam','tg.c tg_malloc, tg_realloc')],['all allocating functions'])
prop('C19','Writers respect the buffer and always report the needed length',
 'For every geometry and each of the five formats, the returned length does not depend on the buffer size; a text buffer of n bytes gets the first n-1 characters and a terminator, a binary one the first n bytes. Nothing is written beyond the buffer, and a buffer of the returned length (plus one for text) gets the whole output.',
 ['inputs','configurations'],'every geometry, every format and every buffer size from zero up',
 'The fast paths that copy blocks depend on the exact room left, so every buffer size is its own case; tests try a few.',
 TG,[('bounded writer','tg.c struct writer, write_char, write_string, write_posn_wkb, write_hex')],['tg_geom_geojson','tg_geom_wkt','tg_geom_wkb','tg_geom_hex','tg_geom_geobin'])
prop('C20','WKT round-trips',
 'Writing any geometry with finite normal coordinates as WKT and parsing the text gives back the same type, structure, dimensions and coordinates bit for bit, apart from feature metadata, and from the dimension label of empty parts. The text is valid WKT.',
 ['inputs'],'every geometry of every type, dimension, nesting and emptiness',
 'Type, dimension, nesting and number formatting multiply; tests keep a list of strings.',
 DEP,[('writer','tg.c tg_geom_wkt'),('parser','tg.c parse_wkt_*'),('numbers','deps/fp.c ryu')],['tg_geom_wkt','tg_parse_wkt'])
prop('C21','GeoJSON round-trips, with all extra members',
 'Writing a geometry, feature or feature collection as GeoJSON gives a valid JSON document, and parsing it gives back the same geometry (a third coordinate counts as Z), feature structure, identifiers, properties and other members. Members unknown to the library are kept as they were, and repeating the round trip changes nothing more.',
 ['inputs'],'every geometry, feature and feature collection, with any extra members in any order',
 'Member order, escapes and nesting are unbounded; tests keep a list of strings.',
 DEP,[('writer','tg.c tg_geom_geojson'),('parser','tg.c parse_geojson*, take_basics'),('json','deps/json.c')],['tg_geom_geojson','tg_parse_geojson','tg_geom_extra_json'])
prop('C22','WKB and hex round-trip, in both byte orders',
 'Writing any geometry as WKB gives the standard layout, and parsing it, also byte-swapped or with an SRID, gives back the same type, structure, dimensions and coordinates bit for bit. Hex is the same bytes as digits, of either case.',
 ['inputs'],'every geometry of every type, dimension and nesting, both byte orders, with and without SRID',
 'Reading has different code for aligned little-endian two-dimensional input and everything else; tests mostly use little-endian.',
 TG,[('writer','tg.c write_*_wkb, tg_geom_hex'),('parser','tg.c parse_wkb_*, read_posn')],['tg_geom_wkb','tg_geom_hex','tg_parse_wkb','tg_parse_hex'])
prop('C23','GeoBIN round-trips and its header answers without parsing',
 'Writing any geometry, feature or feature collection as GeoBIN and parsing it gives back the same geometry, extra members and feature structure, and writing that again gives the same bytes. The rectangle, full rectangle and centre read from the header equal those of the geometry, and headers that are cut short or malformed give an empty answer.',
 ['inputs'],'every geometry, feature and feature collection, and every byte string as header',
 'Header reading takes raw bytes and lengths; tests read a few good ones.',
 TG,[('writer','tg.c write_base_geom_geobin'),('parser','tg.c parse_geobin'),('header','tg.c tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point')],['tg_geom_geobin','tg_parse_geobin','tg_geobin_*'])
prop('C24','The WKT parser accepts its grammar and nothing else',
 'A text parses as WKT exactly when it is derivable from the WKT grammar (any letter case and spacing, Z, M and ZM labels attached or apart, EMPTY, both multipoint styles, rings closed with three or more positions, lines with two or more, nesting up to 1024), and the result has exactly the geometry the text says. Everything else gives an error object, never a geometry.',
 ['inputs'],'every text',
 'Tests list some good and bad strings; the grammar is infinite.',
 TG,[('parser','tg.c parse_wkt, wkt2type, parse_wkt_posns, wkt_balance_coords')],['tg_parse_wkt'])
prop('C25','The GeoJSON parser accepts GeoJSON and nothing else',
 'A text parses as GeoJSON exactly when it is a valid JSON object in valid UTF-8 that RFC 7946 allows as a geometry, feature or feature collection (rings closed with three or more positions, lines with two or more, nesting up to 1024), and the result has exactly the geometry the text says. Everything else gives an error object, never a geometry.',
 ['inputs'],'every text',
 'Tests list some good and bad documents; member order, duplicates, nulls, nesting and escapes multiply.',
 DEP,[('validation','deps/json.c json_valid'),('parser','tg.c parse_geojson*')],['tg_parse_geojson'])
prop('C26','The binary parsers accept their formats and nothing else',
 'A byte string parses as WKB, hex or GeoBIN exactly when it starts with a well-formed value of that format, and the result has exactly the geometry those bytes say. Everything else gives an error object, never a geometry.',
 ['inputs'],'every byte string',
 'Tests corrupt bytes at random; counts, types, lengths and nesting interact.',
 TG,[('parser','tg.c parse_wkb*, parse_hex, parse_geobin')],['tg_parse_wkb','tg_parse_hex','tg_parse_geobin'])
prop('C27','Hostile input cannot hurt the process',
 'Whatever the bytes and their length, a parser returns a geometry or an error, never reads outside the input, never has undefined behaviour, leaks nothing and uses memory in proportion to the input. Nesting is limited, so it cannot exhaust the stack, and whatever parses can be used, written, copied and freed.',
 ['inputs'],'every byte string given to every parser',
 'Tests fuzz at random for seconds; out-of-bounds reads need the exact length at which a check is missing.',
 DEP,[('bounds','tg.c read_uint32, read_posn, MAXDEPTH'),('json depth','deps/json.c')],['tg_parse*'])
prop('C28','All ways to parse the same text agree',
 'Auto-detection gives the same result as the parser of the detected format; the sized, terminated and index-choosing variants agree on the same bytes; a sized parser looks at nothing beyond the size. Detection never turns a valid document of one format into an error.',
 ['inputs'],'every text or byte string, with any leading white space, and every length',
 'Agreement between entry points is a relation between calls; tests use one entry point per string.',
 TG,[('detection','tg.c tg_parse_ix'),('variants','tg.c tg_parse_*n, *_ix')],['tg_parse','tg_parse_*n','tg_parse_*_ix'])
prop('C29','Numbers are read correctly rounded and written shortest',
 'A decimal number in WKT or GeoJSON is read as the double nearest to it. A finite normal double is written as text that reads back as the same double and has no more digits than necessary; with the fixed style it has no exponent.',
 ['inputs','configurations'],'every double and every decimal string',
 'There are 2^64 doubles; digit-generation bugs hit particular exponents and mantissas.',
 DEP,[('printing','deps/fp.c, tg.c dtoa part, tg_env_set_print_fixed_floats'),('reading','deps/json.c json_double, tg.c strtod use')],['tg_geom_wkt','tg_geom_geojson','tg_parse_*'])
prop('C30','Accessors are total and consistent',
 'Every accessor works for every geometry, index and missing argument: outside its domain it returns zero or nothing, inside it returns the component the geometry was built from. Counts and element accessors agree, a geometry is empty exactly when it has no point, no line of two vertices and no ring of three, and nothing is made of a missing ring.',
 ['inputs'],'every accessor, every type of geometry, every index from far below to far above the valid range, and missing arguments',
 'Each accessor special-cases types and representations; the product is not tested.',
 TG,[('accessors','tg.c tg_geom_*_at, tg_geom_num_*, tg_ring_*, tg_line_*, tg_poly_*')],['all accessors'])
prop('C31','Global settings do exactly what they say',
 'The default index and spread apply to every geometry built or parsed afterwards without an explicit choice, invalid values are ignored, and an explicit choice wins. A custom allocator serves all memory the library takes and gets all of it back, and the float style affects text only.',
 ['configurations','histories'],'every sequence of settings and every way to create a geometry',
 'Settings combine with each constructor and parser; tests set one at a time.',
 TG,[('environment','tg.c tg_env_set_*')],['tg_env_set_*'])
prop('C32','Exported low-level operations give exact answers too',
 'The operations the library exports without declaring them in tg.h (typed relations of points, segments, rectangles, lines, rings and polygons, lookups by coordinate, segment searches, moves, distances, circles, flattening of collections, spreads carried in an index value) give the exact geometric answer, for every index, agree with the public operation where there is one, and treat missing or empty arguments as nothing.',
 ['inputs','configurations'],'every pair of points, segments, rectangles, lines, rings and polygons whose arithmetic is exact, every index and spread',
 'The existing tests call them on a few hand-picked shapes; flat rectangles, edges and vertices in common and the different code for each index multiply.',
 TG,[('typed relations','tg.c tg_point_*, tg_segment_*, tg_rect_*, tg_line_*, tg_ring_*, tg_poly_*'),('searches','tg.c tg_rect_search, tg_ring_search, tg_line_search'),('moves','tg.c tg_*_move, series_move'),('circles','tg.c tg_circle_new_ix'),('flattening','tg.c tg_geom_foreach, tg_geom_de9im_dims'),('spread','tg.c tg_index_with_spread, tg_index_extract_spread')],['private methods of tg.c (TG_EXTERN, used by tests/tests.h)'])
prop('C33','The reported memory size is what an object takes',
 'The memory size that a ring, line, polygon or geometry reports is exactly the number of bytes that a deep copy of it takes from the allocator, for every type, index, spread, dimension and extra JSON. A collection or polygon adds only its own structures to the sizes of its parts, and nothing has size zero.',
 ['inputs','configurations'],'every geometry, of every type, dimension, size, index and extra JSON',
 'Users budget caches with this number; no existing test looks at it, and each type and optional part adds a term of its own.',
 TG,[('size','tg.c geom_memsize, tg_ring_memsize, tg_poly_memsize, ring_alloc_size, calc_series_size'),('what is allocated','tg.c geom_copy, tg_ring_copy, tg_poly_copy')],['tg_geom_memsize','tg_ring_memsize','tg_line_memsize','tg_poly_memsize'])
prop('C34','Answers come from the arguments alone',
 'What a call answers - the geometry made or read, the error message, the truth of a relation, what a search reports, the bytes written - depends on its arguments and the documented settings only: not on what memory or the stack held before, where the input lies or what lies before and after it, which calls came earlier (failed ones too), settings that were changed and put back, or the locale of the process.',
 ['inputs','histories','configurations'],'every call, every earlier content of memory, every sequence of earlier calls, every locale',
 'The tests run in fresh memory, in the "C" locale, with terminated strings; a field left uninitialised, a read past the end or a decimal comma shows only elsewhere.',
 TG,[('allocation without clearing','tg.c series_new, geom_new, tg_poly_new, fill_extra_coords'),('sized input','tg.c tg_parse_ix, tg_parse_wktn, tg_parse_geojsonn; deps/json.c json_validn'),('numbers','deps/json.c json_number, deps/fp.c'),('settings','tg.c tg_env_set_*')],['every public function'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import sys
for p in P:
    assert len(p['title'])<=80,p['id']
print(len(P))
