INP = ['inputs', 'configurations']
GENQ = 'every finite set of subject and clip loops with representable coordinates, every boolean operation, every supported coordinate and index type'
RM = 'runtime monitoring: '
SAMP = 'Holds on every case executed: seeded generation, not exhaustive. Trusts the exact 128-bit integer oracle in harness/geom.hpp. '

P.append(prop('C01', 'Output lines never cross each other',
 'The line segments of the loops returned by any boolean operation or by normalizing never cross, never partially overlap, and no output point lies inside another output segment: two output segments meet only at common end points or coincide completely. Every output coordinate is an integer point, and the rounding of intersection points never introduces a new crossing.',
 INP, GENQ + '; the guarantee has to survive rounding of intersection points, which can create new intersections anywhere in the arrangement',
 'The tests compare a handful of shapes with a bitmap; rounding-induced crossings need particular near-degenerate coordinates, and a crossing of sub-pixel size is invisible in a bitmap.',
 [CLIP], [('sweep that breaks lines at all intersections and re-checks moved lines', CLIP + ': self_intersection / events_t / intersects'), ('events are rewound when rounding disturbs the sweep order', CLIP + ': consistent_order, events_t::rewind')],
 [('loop points', 'the linked list of input and split points')], 'the loops returned by clipper::execute, boolean_op, union_op, normalize_op',
 RM + 'exact segment-pair oracle on every returned arrangement', SAMP + 'Every pair of output segments of every executed operation is examined exactly.'))

P.append(prop('C02', 'Boolean operations return the right region',
 'The area enclosed by the result of union, intersection, symmetric difference and difference is the area one gets by applying that operation to the areas of positive winding number of the subject loops and the clip loops (where overlapping opposite loops cancel, and for union both sets are counted together). It may differ from it only within the distance by which rounding intersection points to integers displaces edges, and not at all when every intersection point already has integer coordinates.',
 INP, GENQ, 'The tests look at a few random shapes on one bitmap size; the region must be right for degenerate, coincident, touching and near-parallel input too.',
 [CLIP], [('winding balance of every line against the lines above it', CLIP + ': line_balance, line_state_*'), ('selection of kept lines and loop following', CLIP + ': follow_balance, find_loops')],
 None, 'the loops returned by every way of running an operation',
 RM + 'winding-number oracle at sampled points, exhaustive cell samples on exactly representable arrangements', SAMP + 'Half of the cases live on lattices where no rounding is allowed and every elementary cell is compared; the others are compared at points farther from every edge than the rounding tolerance.'))

P.append(prop('C03', 'Result loops are oriented: solid one way, holes the other',
 'Results of the four set operations are oriented consistently: when all result loops are put together every point not on a line has winding number 0 or 1, so the solid area is always on the same side of a result line, outer loops run clockwise (y pointing down) and holes run counter-clockwise. Where several result lines meet, the loops may touch but never cross; and where they meet only because lines cross there, each loop turns towards its own inside.',
 INP, GENQ, 'Unit tests compare filled bitmaps, which do not depend on the orientation of each loop in each degenerate configuration.',
 [CLIP], [('direction of kept lines derived from their balance', CLIP + ': line_state_*'), ('break stars that join lines into loops', CLIP + ': breaks_t, follow_balance')], None,
 'direction of every returned loop', RM + 'winding numbers on both sides of every output edge, order of loops around shared points', SAMP))

P.append(prop('C04', 'Normalizing only rearranges lines and keeps the even-odd area',
 'Normalizing keeps every input line, broken at the intersections and up to rounding, apart from lines that coincide with each other, of which pairs may vanish; the area filled under the even-odd rule is unchanged, and the loops returned do not cross one another.',
 INP, GENQ, 'The only test of it compares winding of a few random shapes; conservation of all lines has to hold for every arrangement.',
 [CLIP], [('normalize balance', CLIP + ': line_state_normalize / normalize_op')], None, 'the loops returned by normalize_op and clipper::execute(normalize)',
 RM + 'even-odd region oracle and line-conservation oracle', SAMP))

P.append(prop('C05', 'The loop hierarchy nests loops correctly and loses none',
 'A hierarchical result is made of exactly the same directed lines as the flat result of the same operation, none lost and none twice; every child loop lies inside its parent and in none of its siblings, top-level loops lie in no other loop, and levels alternate between outer loops and holes for the set operations.',
 INP, GENQ, 'Nesting is tested for three hand-made shapes; loops that touch, share edges or are nested deep need many configurations.',
 [CLIP], [('samples of the loop above each line', CLIP + ': line_balance, unique_sorted_loop_points'), ('loop_hierarchy', CLIP + ': loop_hierarchy')],
 [('intersection samples', 'which lines are directly above a point of every loop')], 'the tree returned by execute<true>, boolean_op<true>, union_op<true>, normalize_op<true> and its ranges',
 RM + 'containment oracle over every node of the tree; comparison with the flat result', SAMP))

P.append(prop('C06', 'Point trackers are told the truth about where points come from',
 'A tracker attached to an operation is told about every input point exactly once and in order, about every point created on an input line together with the two points of that line, and about every merged point, before any output refers to it; following these notifications explains every output point, and no origin of an input point silently disappears. The supplied origin tracker reports, for each output point, exactly the input points obtained by following the notifications.',
 ['inputs', 'histories', 'configurations'], 'every input, every operation, flat and hierarchical results, repeated use of one clipper, offsetting',
 'The tests check a few counts on fixed shapes; chains of merging (points merged into points that are merged later) arise only in dense degenerate arrangements.',
 [CLIP, 'include/poly_ops/offset.hpp', 'include/poly_ops/mini_flat_set.hpp'],
 [('tracker call sites', CLIP + ': tracked_points, new_intersection, point_merge in self_intersection and follow_balance'), ('order of merging discarded points', CLIP + ': merge_discarded'), ('origin sets', 'include/poly_ops/offset.hpp: origin_point_tracker')],
 [('origin sets', 'per point set of original indices')], ['the callbacks of i_point_tracker', 'the origins of tracked loops'],
 RM + 'recorded callback log replayed by an offline checker', SAMP + 'Origin conservation is not demanded of clip points in a difference, where they delimit a hole.'))

P.append(prop('C07', 'Offsetting moves the border by the requested distance',
 'Offsetting a valid shape by a positive magnitude yields the points within that distance of the shape, by a negative magnitude the points of the shape farther than that distance from its border, and offsetting an open line or a lone point yields the points within that distance of it; round corners are approximated by segments no longer than the given arc step, and apart from that and from rounding to integers the border is exact. Shapes too small for a negative magnitude vanish.',
 INP, 'every simple shape with holes, open line and point, every magnitude and arc step, every kind of input range',
 'The tests only compare a few shapes with a stored bitmap at one or two magnitudes.',
 ['include/poly_ops/offset.hpp', CLIP], [('corner construction', 'include/poly_ops/offset.hpp: add_offset_point'), ('open and closed line traversal', 'include/poly_ops/offset.hpp: _add_offset_open, _add_offset_closed')], None,
 'the loops returned by offset and by operations with offset loops', RM + 'distance oracle (Minkowski sum/erosion) at sampled points and at every output vertex',
 SAMP + 'Tolerance of three units plus the sagitta allowed by the arc step; slits and slivers narrower than three units are tolerated as rounding.'))

P.append(prop('C09', 'Past use of a clipper never leaks into later results',
 'A clipper can be used again: each operation uses exactly the loops added since the previous operation (or reset), counts their points from zero, and returns the shape a fresh clipper returns for these loops. A returned result can be read repeatedly and in any order until the clipper is used again; a result obtained from a clipper that is given up owns its data and stays valid afterwards. Input data need not outlive the call that adds it.',
 ['histories', 'inputs'], 'every sequence of adding loops, executing any operation in any form, resetting and reading results',
 'The tests use every clipper once, except for one example.',
 [CLIP], [('what is reset after an operation and what is kept for speed', CLIP + ': clipper::do_op, reset, reset_data'), ('results that borrow from or own the clipper data', CLIP + ': temp_polygon_*_range, borrowed_temp_polygon_*_range')],
 [('lpoints, samples, events', 'buffers kept between operations')], ['loops returned by each execute() in a history', 'get_original_i'],
 RM + 'differential oracle (fresh clipper) over recorded histories, and AddressSanitizer', SAMP + 'Off the lattice results are compared by winding number away from lines, because the rounding generator continues between operations.'))

P.append(prop('C10', 'A result depends on the shape given, not on how it is given',
 'The same input gives the same loops whichever way it is passed (free function or clipper object, nested containers of any kind, streams of points, single loops, plain coordinates arrays or custom point types), with any index type, coordinate type that can hold it, tracker or none, and as flat or hierarchical result. When all intersections are at integer points, also the order of loops, the starting point of a loop, repeated points, points in the middle of straight lines and zero-area companions make no difference, and moving, scaling and mirroring the input moves, scales and mirrors the result; parts that lie apart do not influence each other, however many there are.',
 ['inputs', 'configurations'], 'every input, every form of passing it, every equivalent description of the same shape',
 'Tests run each entry point on a separate fixed example.',
 [CLIP, 'include/poly_ops/base.hpp'], [('adapters for point and loop ranges', CLIP + ': add_loops, point_sink; include/poly_ops/base.hpp: point_ops'), ('exact intersection points', CLIP + ': intersects'), ('ordering of lines and events', CLIP + ': segment, event, line comparison')], None,
 'loops returned through every entry point', RM + 'metamorphic and differential oracles', SAMP + 'Results are compared as directed coverage of their supporting lines, which does not depend on the order of loops or on where a line is divided.'))

P.append(prop('C12', 'Memory comes from the given resource and failures are survivable',
 'Every byte used by a clipper, an operation, a tracker or a result comes from the memory resource given to it (or the default resource of that moment), is given back exactly once with its size and alignment, and none is left when the objects are gone. When memory runs out, or when an input range or a tracker supplied by the user throws, the exception reaches the caller, nothing leaks, and after reset the same clipper gives the right results again.',
 ['inputs', 'configurations', 'fault_sequences'], 'every entry point, every operation, every point at which an allocation or a callback can fail',
 'No test uses a memory resource, and none lets an allocation fail.',
 [CLIP, 'include/poly_ops/offset.hpp', 'include/poly_ops/mini_flat_set.hpp'],
 [('memory resource handed to every container', CLIP + ': clipper::clipper, loop_hierarchy, find_loops, merge_discarded'), ('completing a loop in a destructor', CLIP + ': point_sink::~point_sink'), ('origin sets with manually managed memory', 'include/poly_ops/mini_flat_set.hpp')],
 None, ['calls of the memory resource', 'exceptions seen by the caller'],
 RM + 'accounting memory resource and fault injection at allocations, range iterators and tracker callbacks', SAMP + 'Blocks requested by the standard library pool resource are never made to fail, because the installed libstdc++ crashes by itself then.'))

P.append(prop('C13', 'Fixed-size big integers compute exactly',
 'Arithmetic, comparison, shifting, bitwise operations, multiplication, division and conversions of the fixed-width multi-word integers give the mathematically exact result, reduced modulo their width, for all widths, all signedness combinations and all operand values; results do not depend on whether compiler intrinsics are used.',
 INP, 'all operand values (especially carries, borrows, sign boundaries and long divisions that need correction), signed and unsigned, mixed with built-in integers, 1 to 4 words, with and without compiler extensions, GCC and Clang',
 'The tests cover random values of a few widths in the one configuration that the build machine has; quotient corrections occur about once in 2^63 random divisions.',
 ['include/poly_ops/large_ints.hpp'], [('carry chains', 'include/poly_ops/large_ints.hpp: add/sub with carry'), ('long division', 'include/poly_ops/large_ints.hpp: unmultiply, quot_rem')], None,
 'return values of the operators', RM + 'differential oracle against boost::multiprecision::cpp_int under UBSan', SAMP + 'Operands are biased to words of all zeros/ones and to quotient-correction patterns.'))

P.append(prop('C15', 'The rasterizer paints exactly the cells inside the loops',
 'Rasterizing a set of loops reports, for each row of the raster, spans in increasing order that together cover exactly the cells whose sampling point has a non-zero winding number, with that winding number, clipped to the raster; self-intersecting lines, horizontal lines, lines outside the raster and repeated use are handled, and nothing is reported outside the raster.',
 INP, 'every set of loops, including crossing, overlapping and out-of-range ones, every raster size, every coordinate type',
 'It is only used on a few random shapes as an instrument of other tests.',
 ['include/poly_ops/polydraw.hpp'], [('scan line events', 'include/poly_ops/polydraw.hpp: rasterizer::scan_lines'), ('exact fractions', 'include/poly_ops/polydraw.hpp: fraction')], None,
 'spans delivered by the rasterizer', RM + 'reference painter with exact rational intercepts', SAMP))

P.append(prop('C21', 'Results obey the laws of set algebra',
 'Applying an operation to a result behaves as the set operations do: a result combined with itself or with nothing gives itself or nothing, exactly and without further rounding; no result reaches outside the bounding box of its input. When all intersections are at integer points, union, intersection and symmetric difference are commutative and all identities between the operations hold exactly.',
 INP, 'every pair of shapes and all five operations', 'No test feeds a result back; results full of touching and coincident edges appear only by composing operations.',
 [CLIP], [('results are free of crossings so that they are stable', CLIP + ': self_intersection, find_loops'), ('rounding stays within the lines', CLIP + ': intersects')], None, 'results of compositions of operations',
 RM + 'algebraic identities as an exact oracle', SAMP))

P.append(prop('C14', 'Orientation predicates are exact',
 'triangle_winding and winding_dir return the exact signed double area of three points and of a loop for all coordinates whose differences fit the coordinate type, for 16, 32 and 64 bit coordinates, with or without compiler support for wide integers: the value is zero only for degenerate input, changes sign when the direction is reversed and does not depend on the starting point. The elementary operations on points (sum, difference, product, comparison, ordering, negation, rounding to nearest with halves away from zero, floor, ceiling, truncation, length, angle, perpendicular) are what their names say, for every point-like type and every kind of range.',
 INP, 'all points and loops within the stated range; all coordinate types; forward, single-pass, lazy ranges; user point types',
 'The tests use winding_dir on a few small polygons; the last bit of a 128-bit product decides the sign for nearly collinear points far apart.',
 ['include/poly_ops/base.hpp', 'include/poly_ops/large_ints.hpp'], [('cross product in doubled width', 'include/poly_ops/base.hpp: triangle_winding, winding_dir_sink'), ('multiplication to doubled width', 'include/poly_ops/large_ints.hpp: mul'), ('adapters of point types', 'include/poly_ops/base.hpp: point_ops')], None,
 'values returned by triangle_winding, winding_dir, winding_dir_sink and the point functions', RM + 'differential oracle in 128-bit integers, in builds with and without compiler extensions, under UBSan',
 'Holds on every case executed; inputs are concentrated at the extremes of each width and on nearly collinear triples. Trusts the compiler\'s 128-bit integers.'))

P.append(prop('C17', 'Ranges given and taken by the library obey the range laws',
 'Results, their loops and their inner loops are multi-pass ranges: size, distance, indexing, iterator arithmetic, comparison and backward traversal all describe the same sequence, every traversal shows the same points, a moved or const result shows the same loops, and a result can be used as input. The strided ranges over raw memory show exactly the elements at the addresses given by start, length and stride, forwards, backwards and by index, for positive and negative strides, touch no other memory, and can be used as input of every operation.',
 ['inputs', 'configurations'], 'every operation, flat and hierarchical, owned and borrowed, tracked and untracked results; every layout with non-zero strides and every arithmetic source type',
 'Tests only walk results forwards once; strided ranges are not tested at all.',
 [CLIP, 'include/poly_ops/strided_itr.hpp'], [('lazy loops over the shared point array', CLIP + ': proto_loop_iterator, temp_polygon_proxy'), ('random access over loops', CLIP + ': iterator_facade, range_facade'), ('pointer arithmetic with strides', 'include/poly_ops/strided_itr.hpp: strided_itr')], None,
 ['iterators of results', 'iterators of blob_to_point_range, blob_to_point_range_range and make_strided_range'], RM + 'law checker for iterators against a recorded traversal and direct memory access, also under AddressSanitizer', SAMP + 'Zero strides are outside of the claim (the range is then empty).'))

P.append(prop('C18', 'Origin tracking keeps exact sets through any history',
 'For every history of the callbacks of origin_point_tracker (points added in any order and with repetition, points created between others, chains of merges, reset, moving the tracker) the origins reported for a point are exactly the distinct original indexes of the points merged into it, sorted, and the position passed through unchanged. The set container below it (mini_flat_set) equals a mathematical set after every operation, is unchanged or a valid set after an operation that failed because memory ran out or an input iterator threw, and all memory comes from the resource given and is returned.',
 ['histories', 'configurations'], 'every sequence of callbacks in which a merged point is not used again; every index type',
 'Tests track a handful of shapes; the sets switch representation at sizes one and two, when growing, and when the larger of two sets can hold both, which needs particular histories.',
 ['include/poly_ops/mini_flat_set.hpp', 'include/poly_ops/offset.hpp'], [('set with one inline element or a sorted array', 'include/poly_ops/mini_flat_set.hpp: mini_flat_set'), ('allocator carried by the enclosing vector', 'include/poly_ops/mini_flat_set.hpp: two_tier_allocator_adapter, proxy_vector'), ('origin tracker', 'include/poly_ops/offset.hpp: origin_point_tracker')],
 [('original_sets', 'for every point the indexes merged into it')], 'get_value of the tracker after every merge and at the end', RM + 'model-based checker (std::set) over random callback histories with an accounting memory resource, also under AddressSanitizer',
 'Holds on every history executed (up to 400 callbacks).'))

P.append(prop('C16', 'The Python module gives what the C++ library gives',
 'For every array-like accepted as a loop (nested lists, and arrays of any supported number type, byte order, alignment, stride or subclass) every function and class of the Python module returns the loops, hierarchy and point maps that the C++ library gives for the same coordinates, with the requested or promoted number type, and leaves the input unchanged. '
 'Input of the wrong shape, type or casting, and misuse of the classes, is refused with an exception that leaves the object usable. No memory is leaked or touched out of bounds, results own their memory, and separate objects can be used in separate threads.',
 INP, 'all accepted array forms, number types, casting rules, functions, classes, options and sequences of calls', 'The Python tests call a few functions with plain int32 and float64 arrays; strides, byte order, refused input and reference counts depend on combinations that they do not contain.',
 ['py/_polyops.pyx', 'py/common.pxd', 'py/__init__.py'], [('reading arrays through the numpy iterator', 'py/common.pxd: polyops_npy_range'), ('results as arrays', 'py/_polyops.pyx: make_tracked_loop, make_recur_loop, unary_op_'), ('origins as point maps', 'py/_polyops.pyx: PointMap, TrackedClipper')], None,
 'return values, exceptions, reference counts and object lifetimes of the Python module', RM + 'differential oracle: the C++ library called through ctypes with the coordinates converted by the harness; lifetime monitors; AddressSanitizer and UBSan builds of the module', SAMP))

P.append(prop('C08', 'No use of the library touches memory or values it must not',
 'For every sequence of correct calls of the public interface (building, executing and resetting clippers, offsetting, tracking, walking results and hierarchies partly or completely, copying, moving and dropping objects in any order, feeding results back, drawing) no memory is read or written outside of live objects, no uninitialised value influences what happens, nothing leaks, no internal check of the library or of the standard library fails, and no undefined behaviour (overflow, misalignment, invalid conversion) occurs.',
 ['programs', 'inputs', 'configurations'], 'all sequences of calls that keep to the documented preconditions; every coordinate and index type',
 'An invalid access or an uninitialised value usually changes nothing a test looks at; it depends on the sequence of calls, on degenerate loops and on reallocation at particular sizes.',
 [CLIP, 'include/poly_ops/offset.hpp', 'include/poly_ops/polydraw.hpp', 'include/poly_ops/strided_itr.hpp', 'include/poly_ops/mini_flat_set.hpp'], [('points and segments refer to each other by index into growing vectors', CLIP + ': loop_point, segment, cached_segment'), ('intrusive balanced tree of sweep nodes', 'include/poly_ops/sweep_set.hpp'), ('results refer to the data of the clipper that made them', CLIP + ': proto_loop_iterator, temp_polygon_proxy'), ('manually managed storage of small sets', 'include/poly_ops/mini_flat_set.hpp')], None,
 'every memory access, branch and conversion of the executed programs', RM + 'AddressSanitizer, LeakSanitizer, UBSan (with float-cast-overflow), the checking mode of libstdc++, and valgrind memcheck, on random programs over the whole interface', 'Holds for every program executed. Intra-object overflows and values that are never acted upon are not seen.'))

P.append(prop('C11', 'Operations depend on their input only, and threads do not disturb each other',
 'The result of an operation is a function of its input alone: repeating it with memory from other places or with other contents, after any other work, in another thread or in another process gives the same loops, points, order, hierarchy and origins. Threads that work on objects of their own at the same time, on shared constant input or reading shared results, get the results that they would get alone and do not race.',
 ['schedules', 'inputs', 'histories'], 'all interleavings of threads with separate objects, all memory layouts and contents, all work done before',
 'Tests run every operation once in one thread; hidden state, comparisons of addresses and uninitialised values show only when circumstances change.',
 [CLIP, 'include/poly_ops/offset.hpp', 'include/poly_ops/polydraw.hpp'], [('random generator for rounding is a member of each clipper', CLIP + ': rand_generator, unkeyed_rand'), ('default resource and static members', 'include/poly_ops/base.hpp')], None,
 'results under changed circumstances, memory accesses of concurrent threads', RM + 'differential oracle over seven circumstances (arenas with chosen layout and contents, other processes and threads); ThreadSanitizer on concurrent operations', 'Holds for the repetitions and schedules executed.'))

P.append(prop('C20', 'The work and memory of an operation stay in proportion to its input',
 'Every boolean or normalizing operation terminates. On lines that do not cross, the number of steps is proportional to the number of lines and the work to n log n plus the number of neighbouring lines that are passed over; on lines that cross, steps and work stay within a quadratic bound of the number of lines plus crossings; memory at any time is bounded in the same way.',
 INP, 'every input with coordinates of at most 20 bits, of any size', 'Tests run small fixed shapes; an endless loop of re-checked intersections or a quadratic search needs particular or large inputs, and a slow test still passes.',
 [CLIP, 'include/poly_ops/sweep_set.hpp'], [('balanced tree of the sweep', 'include/poly_ops/sweep_set.hpp'), ('events are rewound and run again', CLIP + ': events_t, self_intersection'), ('heap or sorted events', CLIP + ': events_t')], [('event count', 'POLY_OPS_DEBUG_ITERATION'), ('operations on coordinates', 'instrumented coordinate class')],
 'the number of iterations, the operations on coordinates and the bytes in use of each execution', RM + 'work counters in an instrumented coordinate type, step counter and accounting memory resource compared with bounds', 'Bounds are about four times what the present code needs on the executed families; sizes up to a few thousand lines.'))

P.append(prop('C22', 'Coordinate types written by the user work like the built-in ones',
 'With any coordinate type that meets the documented requirements (a class with its own wide and real types and coord_ops) every operation compiles and returns the loops, hierarchy and origins that the built-in type of the same range returns. The library never uses a coordinate that was not set, never lets a value leave the range that the coordinates of the input allow (twice that for differences; products only in the wide type) and never produces a real number that is not finite.',
 ['configurations', 'inputs'], 'all types meeting the coordinate concept, all operations', 'The tests use built-in integers only; implicit conversions of built-in types hide uses that a class does not support, and overflow of an intermediate value in the type goes unnoticed.',
 ['include/poly_ops/base.hpp', CLIP, 'include/poly_ops/offset.hpp'], [('concept of a coordinate and its operations', 'include/poly_ops/base.hpp: coordinate, coord_ops'), ('uses of coordinates', CLIP)], None,
 'every operation the library performs on coordinates', RM + 'assertions inside instrumented coordinate classes (initialisation, range, finiteness) and differential oracle against built-in types', SAMP))

DESIGN['C01'] = """Monitored: every pair of segments of every result, flat, from all five operations (`clip.cpp`,
mode `arr`, five coordinate/index configurations). Oracle: exact 128-bit orientation and interval tests
(`bad_relation`): crossing, T-junction and partial overlap are violations. Library assertions are on.
Workload: 12 families (`geom.hpp`) chosen to provoke rounding cascades. Cost: about 30 s."""
DESIGN['C02'] = """Oracle: winding numbers of the input (exact) combined by the operation's truth function, against
the winding number of the output. On lattice arrangements (all intersections integral) one sample per elementary
cell and no tolerance; otherwise random samples and samples around input vertices and intersections, judged when farther
from all input edges than the accumulated rounding. Why beyond tests: the tests see 3-5 bitmaps."""
DESIGN['C03'] = """Oracle: exact winding numbers on both sides (at 2^-18 unit distance) of every output edge must be {0,1},
signed area per loop against its depth. `check_joints`: around every point used by several passes of loops the passes must be nested, not interleaved (exact orientation tests);
at points that are no input point of a lattice case no other pass may lie within the turn of a loop.
The modes region, orient, norm, tree and arr run half of their cases magnified by powers of two and moved by up to 2^61 (64-bit coordinates), results mapped back exactly."""
DESIGN['C04'] = """Parity of winding numbers at samples; on lattice cases the multiset of elementary sub-segments modulo 2 must be the
same in input and output; on others every output edge lies near an input edge and vice versa (`step_cover`)."""
DESIGN['C05'] = """The tree is compared with the flat result of the same operation (multiset of directed edges), and every
parent/child/sibling relation is checked with interior sample points of the loops; depth parity against orientation. Only loops that share a coincident edge (or touch the end of one) are excused, one by one; the rest of the same tree is still judged."""
DESIGN['C06'] = """`track.cpp`: a recording tracker derived from the public interface logs every callback; the log is replayed
offline with sets of origins: announced input points in order, splits refer to the two ends of an existing line and lie near it,
merged points are neighbours at the same place, a discarded point never comes back, results refer to announced points only, and
no origin is lost (conservation per loop). The library's own origin tracker is run on the same input and must agree with the replay.
`otrack` does the same for offset loops, where origins must be at the offset distance."""
DESIGN['C07'] = """`offset.cpp`: nine shape families, seven ways to run offsetting. Oracle: Euclidean distance of sample points to the
input (exact squared distance, double root): Minkowski sum / erosion with tolerance 3 units + sagitta. Samples are
placed around the expected border; every output vertex must lie near it; shape minus inset is checked too. `api.cpp` mode `offways` runs one offset (in both roles of an operation) through 15 combinations of entry points, default arguments, trackers and range kinds."""
DESIGN['C13'] = """`large.cpp` in nine builds (arithmetic, multiplication, division x GCC with UBSan, GCC without extensions with UBSan, Clang):
every operator on every pair of widths against `boost::multiprecision::cpp_int`."""
DESIGN['C15'] = """`raster.cpp`: a reference painter computes every row's intercepts as exact fractions and the winding numbers between
them; spans, fill rules, clipping and reuse of one rasterizer are compared; again under ASan/UBSan."""

DESIGN['C09'] = """`api.cpp` mode `reuse`: random histories of one clipper (1-6 operations; loops arrive through five interfaces, the source buffers are
overwritten before executing; flat/tree; last step sometimes on a moved clipper which is then destroyed). Each step's result is compared with a fresh clipper:
exactly on lattice inputs, by winding samples otherwise. Also run under ASan/UBSan, so results that outlive their data are seen as such."""
DESIGN['C10'] = """`api.cpp`: `equiv` passes one input in 25 ways x index types x flat/tree and compares canonical forms (`canon`); `metam` re-describes lattice inputs
(rotated, permuted, duplicated, subdivided, degenerate companions, moved, scaled, mirrored) and demands an exactly equal/transformed result.
`big` lays out thousands of tiles (up to 110,000 points, 300,000 in the thorough tier), each a small lattice input of which the result is known, and demands that result from every tile of the one big operation. `offways` does for offsets what `equiv` does for operations."""
DESIGN['C21'] = """`api.cpp` mode `ident`: eleven laws on every result of every operation (exact, no lattice needed, because results have no crossings left), the bounding box,
and twelve laws of set algebra on lattice inputs."""

DESIGN['C12'] = """`memory.cpp`: a memory resource that records every block (size, alignment, 32 guard bytes, poison on release), a trap in place of the default resource, and a counting
global `operator new`. `acct` uses the library in 16 ways and compares the books and the result; `fault` repeats one use with failure number k for all k (or 36 sampled ones), once or from then on:
bad_alloc must arrive, the books must balance, and where a clipper is left, reset() and a second try must give the reference result. A quarter of the cases let the user's iterator or tracker throw instead.
Also run under ASan/UBSan."""

DESIGN['C14'] = """`laws.cpp` mode `pred`, three widths, in three builds (GCC, GCC without compiler extensions, Clang; UBSan): each case draws triples at the extremes of the
width or collinear up to one unit, and loops of up to 40 points, and compares values, signs, rotations and reversals with `__int128`; winding_dir through six kinds of range; eighteen laws of point functions; the conversions of `coord_ops` at and next to halves and at the ends of the range."""
DESIGN['C17'] = """`laws.cpp` modes `ranges` (results of all operations in six type configurations: a recorded plain traversal is the reference for every other way of reading the result) and
`strided` (seven combinations of source and coordinate types; blocks with randomly ordered, padded and negated strides, allocated exactly so that ASan sees any access outside)."""
DESIGN['C18'] = """`laws.cpp` mode `otset`: random callback histories in five value patterns for four index types, compared with `std::set`; random histories of every operation of `mini_flat_set` itself (insert, assign, merge, swap, copy, move), with allocations and input iterators that fail in places; a memory resource that checks sizes and leaks; again under ASan."""

DESIGN['C16'] = """`py_check.py` against the Cython module built from the tree (plain, and with ASan and UBSan). `ops`: loops in 16 array forms and 11 number types through every function, with
the result of the C++ library (`py_ref.cpp` through ctypes, coordinates converted by the harness) as the oracle for loops, children, point maps, number types and layout. `hist`: sequences of calls on
Clipper and TrackedClipper with refused input in between. `err`: wrong shapes, types, casts and misuse must raise and leave the object usable. `par`: four threads with objects of their own; object lifetimes
through weak references; block and reference counts must not grow with every repetition (one block per repetition is the threshold: smaller growth is caching)."""

DESIGN['C08'] = """`safe.cpp`: random programs of 3-8 steps over the whole interface, every value that comes out is read and decides a branch. Judges: GCC's AddressSanitizer, LeakSanitizer
and UBSan with float-cast-overflow; `_GLIBCXX_DEBUG` (iterator validity, strict orderings, heap preconditions); valgrind memcheck for uninitialised values; the library's own POLY_OPS_ASSERT. Clang's
-fsanitize=integer was tried too and is quiet. MemorySanitizer is not used because libstdc++ is not instrumented here; valgrind takes its place. The harnesses of C09, C12, C15-C18 also have sanitizer builds."""
DESIGN['C11'] = """`threads.cpp` mode `det`: one operation (six ways x three types) is repeated plainly, in an arena growing up or down with random gaps and contents, in heap memory painted with one byte, after other work in
the same pool, in another thread, and in another process (re-executed with other MALLOC_PERTURB_, MALLOC_TOP_PAD_ and environment size; digests compared). Mode `threads`: four threads start at a barrier with random yields, on inputs of their own or on
one shared constant input, and walk two shared results; results must equal those computed before. The same under ThreadSanitizer, which decides races whatever the schedule was."""
DESIGN['C20'] = """`coord.cpp` mode `cost`: an instrumented coordinate class counts comparisons, sums and products; POLY_OPS_DEBUG_ITERATION (a macro of the library) counts sweep steps; a memory resource records the peak. Twelve families, up to
8000 loops that lie apart (28000 lines). Non-crossing input: at most 4n+16 steps (the code needs 2n) and 80(0.6 n log2 n + S) operations (33 needed), S being the sum over all loops of the most lines above or below one of its points; crossing input: 3N^2+64 steps, 150N^2 operations, N = lines after all crossings.
The quadratic bound is what the present code needs with backtracking (combs crossed by a box reach 0.32 N^2)."""
DESIGN['C22'] = """`coord.cpp` mode `same`: four type systems (32- and 64-bit classes with wide and real classes of their own, one with built-in wide and real types, one whose real type is long double); every read, sum and product is monitored; results are compared point by point with those of the built-in type,
or by exact samples for the precise real type. A tree that needs more than the concept does not compile with them, which is reported as a violation (`does-not-compile`)."""
