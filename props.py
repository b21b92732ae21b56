"""The properties, and how each is decided."""


def P(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, reason=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if technique:
        p['technique'], p['level_note'] = technique, level_note
    if reason:
        p['reason'] = reason
    return p


CLAIMED = [
P('L01', 'Message callbacks are optional and purely observational',
  'Every function that accepts a message callback (or an optional per-object decoding callback) can be called without one: an unset callback is never invoked. Setting a message callback changes nothing but the messages: whatever is executed only because a callback is set has no effect on results, on state that is kept, or on the data other code uses.',
  ['inputs', 'configurations'], 'all call sites of optional callbacks, all paths that lead to them, callback set or not set',
  'The tests always run with one fixed choice per call (mostly std::cout), so a guard missing on one message, or a side effect hidden in a logging branch, is never exercised.',
  ['src/osm_profile.cpp', 'src/osm_decoder.cpp', 'src/osm_simple.cpp', 'src/osm_graph_builder.cpp', 'src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'src/nested_dissection.cpp'],
  [('test of the callback before every invocation', 'if(log_message) in src/*.cpp'), ('callbacks copied into lambdas only where set', 'src/osm_decoder.cpp')],
  'dominance-based must-test analysis of std::function invocations plus effect analysis of logging regions on LLVM SSA',
  'Sound over all paths of all entry points of the library (helpers inlined) for the invocation rule; the effect rule trusts that std string/stream formatting has no effects. No loop or input bound.'),
P('S01', 'Indexes and inputs that are only read can be shared between threads',
  'No operation modifies an index, graph, metric or input it receives as read-only, not even temporarily or as a cache, and no operation keeps mutable state that is shared process-wide. Hence any number of threads can use their own query objects on one shared index at the same time.',
  ['schedules', 'inputs'], 'all entry points of the library, all stores and mutating calls on all paths, all objects with static storage duration',
  'The tests are single threaded on the query side and never compare an index before and after a query.',
  ['include/routingkit/contraction_hierarchy.h', 'include/routingkit/customizable_contraction_hierarchy.h', 'include/routingkit/geo_position_to_node.h', 'include/routingkit/id_mapper.h', 'src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'src/geo_position_to_node.cpp'],
  [('const member functions and const pointers to the index', 'include/routingkit/*.h'), ('query state is kept in query objects only', 'class ContractionHierarchyQuery, CustomizableContractionHierarchyQuery')],
  'effect analysis (stores and mutating calls through const-reached memory, including const_cast and mutable members) and global-state analysis on LLVM SSA',
  'Decides for every store and mutating call of every function in the library; trusts constness in the signatures of the C++ standard library. The one process-wide flag of the test helper EXPECT is not library state.'),
P('F01', 'Saved files are restored completely; files of another kind or size are rejected',
  'For every file format of the library (contraction hierarchy; vectors of plain values, vectors of strings, single values, bit vectors) the reader restores every part from exactly the place, with exactly the number of bytes and elements the writer gives it, for all sizes including empty ones and sizes near 2^32. Saving replaces an existing file and transfers bytes unchanged (binary mode). A hierarchy file with a wrong magic number, and any file whose size does not match its content, is rejected instead of being loaded.',
  ['inputs'], 'all hierarchies, vectors and bit vectors of any size; all files of a wrong size or kind', 'The tests never compare what is loaded with what was saved and never offer a broken file.',
  ['include/routingkit/vector_io.h', 'src/vector_io.cpp', 'src/contraction_hierarchy.cpp', 'include/routingkit/contraction_hierarchy.h'],
  [('ContractionHierarchy::write / finish_read', 'src/contraction_hierarchy.cpp'), ('expected file size and magic number', 'ContractionHierarchy::read'), ('save_/load_/write_/read_ of vectors', 'include/routingkit/vector_io.h')],
  'layout extraction (ordered transfers with member paths) from writers and readers on LLVM SSA, size expressions compared by constant propagation of representative element counts at exact bit widths',
  'Item order, destinations and completeness are decided for all inputs; size expressions are compared at a fixed set of representative counts (0, around the 512 bit block boundary, near 2^32), so an error at other counts only would be missed.'),
P('F02', 'No I/O failure goes unnoticed',
  'Whenever opening, reading, seeking, writing, flushing or decompressing fails, the operation of the library that needed it reports an exception; it never returns normally with missing, partial or stale data. This includes failures of buffered data when a written file is closed, failing POSIX, C stdio and zlib calls in both build configurations, data that ends in the middle of a record, and exceptions raised on a background reader thread, which reach the caller before the end of the data is reported.',
  ['crash points', 'inputs'], 'every stream operation, system call, zlib call and handler, failing at any time', 'Tests run on healthy disks and intact files.',
  ['include/routingkit/vector_io.h', 'src/vector_io.cpp', 'src/file_data_source.cpp', 'src/buffered_asynchronous_reader.cpp', 'src/osm_decoder.cpp', 'src/contraction_hierarchy.cpp'],
  [('tests of stream state and return values', 'src/file_data_source.cpp, include/routingkit/vector_io.h'), ('exception_ptr handed from the worker to the reading thread', 'src/buffered_asynchronous_reader.cpp')],
  'typestate analysis of streams, propagation of failing result values through the control flow graph, and handler reachability on LLVM SSA',
  'All paths of all entry points; seek/tell failures rely on the sticky state of std streams; user supplied sinks and sources report failures by throwing.'),
P('N01', 'Ids are only used in their own numbering',
  'Every node and arc id is used in the numbering it is in: nodes and arcs at the interface are those of the input graph; internal nodes, arcs of the forward, backward and customizable hierarchy, downward arcs, positions of pinned nodes, and positions in the lists of (extra) input arcs are never mixed with each other, and no id is confused with a weight. In particular: what queries take and return (sources, targets, used sources and targets, node paths, arc paths, distances of pinned nodes, extra weights) is in input ids and in the order of the pinned nodes; both halves of shortcuts refer to the hierarchy they come from; input arcs of forward and backward arcs are looked up between the right end points; predecessor arcs of pinned sessions are read among the arcs of the search that recorded them; and customization, perfect customization and partial customization read and write the weights of the arcs they mean.',
  ['inputs', 'histories'], 'all array accesses, assignments, comparisons, queue and flag operations and returned values of the query, customization, unpacking and Dijkstra functions, in every session mode', 'Tests use few numberings in which ids happen to be valid in several arrays, and do not call many functions (used sources/targets of pinned queries, partial customization, Dijkstra) at all.',
  ['src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'include/routingkit/contraction_hierarchy.h', 'include/routingkit/customizable_contraction_hierarchy.h', 'include/routingkit/dijkstra.h', 'include/routingkit/permutation.h', 'include/routingkit/inverse_vector.h'],
  [('rank / order translate between input and internal nodes', 'ContractionHierarchyQuery::add_source, get_node_path'), ('input_arc_to_cch_arc, down_to_up, the mappers of input arcs', 'src/customizable_contraction_hierarchy.cpp'), ('forward/backward halves of shortcuts', 'unpack_forward_arc, unpack_backward_arc, perfect witness search')],
  'unification-based inference of index and element numberings (a type system over arrays and ids) on LLVM SSA terms, with helpers inlined and recursive helpers and parallel regions linked',
  'Sound for the inferred numberings: every array access, assignment and comparison of the analysed functions is an obligation; values without known numbering carry none. The construction of the indexes themselves, which renumbers arrays in place, is not covered. Conditional numberings (halves of shortcuts) are resolved by the dominating test of is_shortcut_an_original_arc.'),
P('D01', 'Every weight and distance is the length of the path it stands for',
  'Wherever the library stores, compares, adds or links weights, they are lengths of paths between the right nodes in the right direction: a sum or linked weight is composed of two paths of which the second starts where the first ends (in this order for link functions that do not commute); the weight of an arc or shortcut, a tentative distance, a queue key and a returned distance is only ever replaced by, or compared with, the length of a path between the same two nodes; during customization a stored weight, and when sources and targets are added a distance, is only replaced by a shorter one. What belongs together changes together: the distance of a node, its key in the queue, its reached flag and its predecessor node and arc; the best length and its meeting node; the weight of a shortcut, its middle node and its two halves; a new source or target is marked as reached, has the given distance and no predecessor; all arrays of a hierarchy are sorted and renumbered together; an arc dropped or kept by perfect customization is the one whose weight was compared. Unpacking emits the parts of an arc in the order of the path, and an input arc stands for an arc only if it has its weight. Time-dependent weights are evaluated for the arrival time at the tail of the arc. Loops over the arcs of a node visit all of them. Partial customization looks again at every arc whose shortest path, in either direction, ran or runs over a changed arc.',
  ['inputs', 'histories'], 'all stores, comparisons, sums, linked weights, queue operations and recursive unpacking calls of contraction, customization (sequential, parallel, perfect and partial), queries, pinned queries, extra weights and Dijkstra', 'Tests compare distances on a few graphs with symmetric or random weights, use commuting link functions, and never look at Dijkstra, partial customization, or paths of pinned queries.',
  ['src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'include/routingkit/contraction_hierarchy.h', 'include/routingkit/dijkstra.h'],
  [('triangle relaxation and enumeration', 'forall_upper/intermediate/lower_triangles_of_arc, LowerTriangleRelaxer, AtomicLowerTriangleRelaxer'), ('search steps', 'forward_settle_node, forward_expand_upward_ch_arcs_of_node, forward_can_stall_at_node, pinned_run, Dijkstra::settle'), ('shortcuts', 'Graph::add_arc_or_reduce_arc_weight, build_ch_and_order, perfect witness search'), ('extra weights', 'ContractionHierarchyExtraWeight, extract_distances_to_targets')],
  'path typing: every weight term is typed with the pair of nodes it connects (end points of arcs from enumerating loops, lookups and predecessor arrays), composed and compared on LLVM SSA; co-update obligations by path search in the flow graph',
  'An obligation fails if the end points are known to be wrong (reversed, not connected, or all resolved and different); values whose end points cannot be resolved carry no obligation and are listed in the evidence. That the lengths are minimal is not decided (X01).'),
P('P01', 'Whatever bytes a PBF file contains, decoding stays inside the data and ends',
  'For every sequence of bytes in a PBF file, the decoder (varints, protobuf messages, blobs, string tables, nodes, ways, relations) reads and writes only bytes of the data that was read: every byte it looks at lies in front of the end of the message it belongs to, every length taken from the file is compared with what is left before it is used, strings handed to callbacks are terminated inside the data, ids of strings are smaller than the number of strings, key and value lists are read only as far as both go, block types, blobs and decompressed data fit into the buffers they are copied to, a blob is only passed on if as many bytes were produced as it claims, and the end of the file is tested before data is used. Every decoding loop consumes at least one byte per turn. Anything else is reported as an exception.',
  ['inputs'], 'all files; every load, store, copy, table access and decoding loop of the decoder', 'No test decodes a broken PBF file.',
  ['src/osm_decoder.cpp', 'src/protobuf.h', 'src/protobuf.cpp', 'src/buffered_asynchronous_reader.cpp'],
  [('comparisons of the cursor with the end of the message', 'src/protobuf.h, src/protobuf.cpp'), ('sizes of blobs and zlib streams', 'OsmPBFDecompressor in src/osm_decoder.cpp'), ('string ids', 'internal_read_osm_pbf')],
  'bounds analysis of cursors: coinductive proof over the SSA form that each access is covered by a dominating comparison with the end of the range it belongs to, and that cursors advance around loops',
  'All paths, no bound on the input. Assumes that BufferedAsynchronousReader::read(n) returns n bytes that stay valid until the next read (only its own size tests are checked), and the contracts of zlib and of TagMap::build.'),
P('R01', 'A query, metric or search object that was used and reset behaves like a new one',
  'Whatever was done with a contraction hierarchy query, a customizable contraction hierarchy query, a partial customization, a customized metric or a Dijkstra search, reset() makes it behave like a newly constructed object: no flag, queue element, list entry or distance of the earlier use remains or is read again, however often the object is reset; reset_source() and reset_target() do the same for the part that is not pinned and keep the pinned nodes; reset(new index or metric) makes it refer only to the new one with arrays of its size; and customizing a metric again overwrites every weight of the previous customization before using it.',
  ['histories'], 'all sequences of calls; every effect of a method on its object and every reset path in every state of the query', 'The tests reset a few queries in a few orders; state that survives a reset only shows with particular earlier queries.',
  ['src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'include/routingkit/dijkstra.h', 'include/routingkit/timestamp_flag.h', 'include/routingkit/id_queue.h', 'include/routingkit/id_set_queue.h'],
  [('time stamps and queues', 'TimestampFlags::reset_all, MinIDQueue::clear'), ('walks over the elimination tree that restore infinity', 'reset_source_list, reset_target_distances in src/customizable_contraction_hierarchy.cpp'), ('flags that vouch for distances', 'pinned_run, forward_settle_node in src/contraction_hierarchy.cpp'), ('initial weights of all arcs', 'extract_initial_metric and customize')],
  'effect analysis: effects of every method on the members of its object against what the reset functions undo on every path left open by the protocol state; reads of arrays that are not restored must be dominated by a test or write that vouches for the element',
  'All call sequences that the documented protocol allows. Assumes that the elimination tree has the head of every hierarchy arc as an ancestor of its tail.'),
P('G01', 'An imported OSM graph describes the ways, directions, positions and turn restrictions of the file consistently',
  'For every OSM file, profile and option: a used way with at least two nodes becomes a routing way, all of its nodes modelling nodes, its ends and every node met a second time routing nodes (all nodes if so requested), and no bit is set outside of a bit vector. Every arc joins two consecutive routing nodes of a way that is open in that direction, carries the local id of that way, the correct antiparallel flag, the length of exactly the segments between the two nodes and - if requested - the modelling nodes between them in driving order; arcs are created for exactly the open directions. All arrays describing arcs (and their geometry) are reordered together, node positions are those of the routing nodes. Turn restrictions keep their fields, are translated to local ids or dropped, a missing via node is derived only if it is unique, helper marks are taken back before the next restriction, every forbidden turn consists of an arc of the from way into the via node and one of the to way out of it and is chosen in accordance with the restricted direction (angles) and only if unambiguous, mandatory ones forbid all other turns, and both turn arrays are sorted and deduplicated together. The simple loaders hand over every array under its own name, apply the profile of their vehicle to both passes over the same file, pass their options on, and derive travel time and comfort level of an arc from the attribute of its own way.',
  ['inputs'], 'all OSM files (nodes, ways, tags, relations), profiles and geometry options', 'OSM import is not tested at all.',
  ['src/osm_graph_builder.cpp', 'src/osm_simple.cpp'],
  [('id mapping callbacks', 'src/osm_graph_builder.cpp'), ('way callback emitting arcs', 'src/osm_graph_builder.cpp'), ('turn restriction resolution', 'src/osm_graph_builder.cpp'), ('simple loaders', 'src/osm_simple.cpp')],
  'dataflow over LLVM IR: path-sensitive abstract interpretation of each callback and loop body under finite configurations (direction category, geometry option, validity of ids), provenance of every value pushed into the arrays, permutation/array pairing',
  'All configurations of the finite abstractions; numeric values (distances, angles) are only checked for which points and arrays they are computed from and for the sectors of the turn directions.'),
P('T01', 'Reading in the background is free of races, lost wake-ups, deadlocks and dangling objects',
  'For every interleaving of the reading thread with the thread that consumes, for every size of requests and of the pieces the source delivers: the two threads only touch common data under one lock (or after the other thread has ended, or atomically); each waits in a loop that tests its condition again and whose condition the other thread announces after every change, including the end of the data, an error of the source and the request to end; the two never wait for each other at the same time; every end of the thread is recorded and wakes the consumer, an exception of the source reaches the consumer and never leaves the thread. The consumer gets the bytes of the source in order and in one piece, inside of the buffer, and the block it got is not overwritten before its next request; requests larger than a block are refused. The destructor asks the thread to end, wakes it, and waits for it without holding the lock before anything the thread uses is destroyed; the thread refers to nothing that lives shorter; readers are ended before the sources they read are replaced, rewound or destroyed; nobody waits for ever for the information of the PBF header, and it is complete when it is announced.',
  ['schedules', 'inputs'], 'all interleavings, all call sites of lock, wait, notify and join, all accesses to the shared structure, all ring positions and piece sizes', 'Races and lost wake-ups depend on the schedule; the one test reads a few bytes with one schedule.',
  ['src/buffered_asynchronous_reader.cpp', 'src/buffered_asynchronous_reader.h', 'src/osm_decoder.cpp'],
  [('worker loop, ring buffer, conditions', 'src/buffered_asynchronous_reader.cpp'), ('status word and order of resets', 'OsmPBFDecompressor, ordered_read_osm_pbf in src/osm_decoder.cpp')],
  'lockset and typestate analysis (locks, notifications, joins, lifetimes of objects used by threads) over LLVM IR with exception edges; finite tabulation of the two waiting conditions and of the ring arithmetic for small block sizes',
  'Lock, notification and lifetime rules hold for all interleavings; the ring arithmetic (linear in the block size) is tabulated for all positions of blocks of 1 to 3 bytes (thorough: 5). Assumes one consuming thread, and a source that returns at most the bytes asked for.'),
P('T02', 'Parallel customization gives the weights of the sequential one, for every number of threads and schedule',
  'CustomizableContractionHierarchyParallelization::customize leaves in a metric exactly the weights that the sequential customize leaves, for every number of threads and every interleaving: every number of threads leads to a customization that starts from the input weights; threads write without an atomic operation only what belongs to their own iteration; an atomic minimum never loses a smaller weight and is tried again after a failure; what one phase (the copying of the input weights, a level) writes is only used by the next after all threads have passed a barrier, which all of them reach; inside of a level no weight is read that another iteration of the level may change; all arcs of all levels are handled, levels in ascending order, both directions, and no triangle above an arc is left out whatever the weights; the levels are such that no two neighbouring nodes share one and lower neighbours come first, and every arc is listed once, under the level of its tail.',
  ['schedules', 'inputs'], 'all thread counts, schedules and interleavings, all accesses of the parallel regions, all hierarchies', 'The wrong weights only appear with a particular interleaving or with hierarchies of a particular shape; no stable test customizes in parallel.',
  ['src/customizable_contraction_hierarchy.cpp', 'include/routingkit/customizable_contraction_hierarchy.h'],
  [('parallel region and atomic minimum', 'Parallelization::customize, atomic_min_to'), ('levels', 'Parallelization constructor in src/customizable_contraction_hierarchy.cpp')],
  'phase/ownership analysis of the outlined parallel regions in LLVM IR (barriers, shared loops, atomics), structural analysis of the level construction; conditions on weights and positions are tabulated',
  'Ownership, barrier and order rules hold for all schedules. Loop ranges and conditions are evaluated at representative sizes. Assumes that the hierarchy is correct and that OpenMP does what it promises.'),
P('P02', 'The PBF decoder hands to the callbacks exactly the objects a well-formed OSM PBF file contains',
  'For every well-formed OSM PBF file, unordered_read_osm_pbf and ordered_read_osm_pbf call the callbacks that are set once for each object of their kind, and for nothing else: the id is the one of the object (at full width), latitude and longitude are the offset of the block plus granularity times the (for dense nodes summed up) value of the node, with the defaults of the format where a field is missing; the nodes of a way and the members of a relation (id, type, role) are all those listed, in that order; the tags are the key/value strings of this very object looked up in the string table of its block, none of an object or block before. All groups of all blocks up to the end of the file are decoded, whichever callbacks are set, blobs are recognised by the type and sizes of the file, raw and zlib data alike. ordered_read_osm_pbf reports all nodes before all ways before all relations unless the header or the caller says that the file is ordered, and reads the file from its start again for each kind.',
  ['inputs', 'histories'], 'all well-formed files, all combinations of callbacks that are set, all sequences of blocks, groups and objects', 'No stable test reads a PBF file; wrong values need particular optional fields, sequences of blocks or combinations of callbacks.',
  ['src/osm_decoder.cpp', 'src/protobuf.h', 'include/routingkit/osm_decoder.h', 'include/routingkit/tag_map.h'],
  [('decoding of blocks', 'internal_read_osm_pbf in src/osm_decoder.cpp'), ('blobs and header', 'OsmPBFDecompressor in src/osm_decoder.cpp'), ('passes', 'ordered_read_osm_pbf')],
  'provenance analysis over LLVM IR: every value handed to a callback is traced to the protobuf field it was decoded from and normalised to a polynomial; clearing, completeness and pass order by path search with the field number or the set of callbacks fixed',
  'Holds for all files within the decoder; varint and zigzag decoding themselves are covered by the tests of the repository and assumed, as is the lookup inside of TagMap. Header blobs are only looked at as the code does (uncompressed).'),
P('O01', 'OSM profiles classify every way by its tags as documented',
  'For every combination of tags (present, absent, any value, in any order) the profile functions decide as follows, whether or not a log function is given, never dereference an absent tag and never leave a buffer. CARS may use a way if it has a junction tag, route=ferry or ferry=yes; otherwise not without highway, with motorcar=no, motor_vehicle=no or an access other than yes/permissive/delivery/designated/destination; then exactly highway = motorway, trunk, primary, secondary, tertiary (and their _link), motorway_junction, unclassified, residential, service, living_street, track, ferry, a bicycle_road with motorcar=yes, and unlisted highways with a maxspeed that are not oneway=reversible/alternating. BICYCLES: junction, route=ferry or ferry=ferry open a way; otherwise not without highway, with highway=proposed, an access outside the list of cars plus agricultural/forestry/public, or bicycle=no/use_sidepath; then any cycleway, cycleway:left, cycleway:right or cycleway:both tag, or highway = primary, secondary, tertiary (and _link), unclassified, residential, service, living_street, track, bicycle_road, path, footway, cycleway, bridleway, pedestrian, crossing, escape, steps, ferry. PEDESTRIANS: junction, route=ferry, ferry=ferry, public_transport = stop_position/platform/stop_area/station and railway = halt/platform/subway_entrance/station/tram_stop open a way; otherwise not without highway, with an access outside the list of bicycles or with crossing=no; then the highways of bicycles, without primary and primary_link but with escalator, elevator, platform; bicycle and cycleway tags do not matter. DIRECTION of cars: oneway = -1/reverse/backward backwards, yes/true/1 forwards, no/false/0 both, reversible/alternating closed; only without a oneway tag a roundabout, motorway or motorway_link is forwards, everything else both. DIRECTION of bicycles: oneway:bicycle first (-1/opposite backwards; 1/yes/true/no_planned forwards; 0/no/false/tolerated/permissive both; else closed); then oneway as for cars with unknown values closed, but open in both for cycleway = opposite, opposite_track, opposite_lane, opposite_share_busway, for any cycleway:both and for cycleway:left together with cycleway:right. SPEED: the maxspeed tag in lower case, the slowest of its parts: signals/variable and unknown words are ignored; none/unlimited 130; walk, foot, walking_pace, schritt, ??:walk 5; urban, ??:urban 40; living_street, ??:living_street 10; rural, national, ro:trunk and de/at/ro:rural 100; ru/ua/it/hu:rural 90; dk/ch/fr:rural 80; ru:motorway 110; ch:motorway 120; at/ro/de:motorway 130; de:zone:30, de:zone30, at:zone30 30; numbers (below 2^32) count as km/h (also with an unknown unit), mph times 1.609, knots times 1.852; never 0 but 1. Without a usable maxspeed by highway: motorway 90, motorway_link 45, trunk 85, trunk_link 40, primary 65, primary_link 30, secondary 55, secondary_link 25, tertiary 40, tertiary_link 20, unclassified and residential 25, living_street 10, service and track 8, ferry 5; then junction 20, ferries 5, else 50. NAME: name;ref, or the one that is present, or empty. COMFORT LEVEL of bicycles: highway=cycleway 4, cycleway=track 3, other cycleway 2, primary(_link) or bicycle=dismount 0, else 1, within the announced minimum and maximum.',
  ['inputs'], 'all combinations of tags and values', 'The tests do not touch the profiles, and the combinations of tags are endless.',
  ['src/osm_profile.cpp', 'include/routingkit/osm_profile.h'],
  [('decision functions', 'src/osm_profile.cpp'), ('maxspeed parser', 'parse_maxspeed_value, get_osm_way_speed in src/osm_profile.cpp')],
  'path-sensitive data flow over the flow graph of each profile function: facts about tags (absent, equal to or different from a literal) are propagated along all paths and the result on each compatible path is compared with the decision table',
  'All combinations of tags for each clause of the table. An unknown value of oneway for cars is left open (log and code disagree), as are blanks after a separator. Assumes the contract of TagMap::operator[].'),
P('O02', 'Turn restrictions are decoded from relations exactly as tagged',
  'For every relation, decode_osm_car_turn_restrictions reports something only if the restriction tag is only_ or no_ followed by left_turn, right_turn, straight_on or u_turn; only_ gives mandatory, no_ prohibitive, and the direction is the one named. It reports every pair of a from member and a to member once, in all positions of the member list, with the id of the relation and the ids of these members, and only members that are ways (others are left out before anything is counted). A mandatory restriction with several from or several to ways is not reported. The via node is the id of the one member of role via, which must be a node; without a via member it is -1; with several via members, or a way or relation as via, nothing is reported. Other roles are ignored. None of this depends on a log function, and an absent tag is never dereferenced.',
  ['inputs'], 'all relations: values of the tag, member lists of any length and order', 'No test decodes a turn restriction.',
  ['src/osm_profile.cpp', 'include/routingkit/osm_profile.h'],
  [('decode_osm_car_turn_restrictions', 'src/osm_profile.cpp')],
  'path-sensitive data flow of the value of the tag (character by character) to every report, provenance of the reported ids (list, role, type), facts on the edges that set the via member',
  'All paths. Assumes the contracts of TagMap::operator[], std::remove_if and std::vector.'),
P('U01', 'Memory, files, zlib streams and threads have one owner and are released exactly once',
  'For every sequence of constructions, copies, moves, assignments (also to itself), swaps, resizes, opens, closes and destructions of BitVector, FileDataSource (with and without POSIX) and BufferedAsynchronousReader, for the decoding of every blob, and for every place where an operation fails or throws: each block of memory, file descriptor or FILE, zlib stream and thread that was acquired has exactly one owner and is released exactly once, with the function that belongs to it, at the latest when its owner ends, is closed or takes another one. Nothing is used after its release, by a running thread either; an object that was moved from or closed holds nothing; nothing is released that was not acquired (descriptor 0 is a valid descriptor). A copy of a bit vector has memory of its own, and the size of a bit vector never exceeds the memory behind it (whole blocks of 512 bits). A thread is joined before its std::thread is destroyed or replaced, and only if it was started.',
  ['histories', 'faults', 'inputs'], 'all sequences of operations, all failing allocations, opens and thread starts, all exceptional exits', 'The tests never move or reopen a file, never let an allocation or the start of a thread fail and do not look for leaks.',
  ['src/bit_vector.cpp', 'include/routingkit/bit_vector.h', 'src/file_data_source.cpp', 'src/file_data_source.h', 'src/buffered_asynchronous_reader.cpp', 'src/buffered_asynchronous_reader.h', 'src/osm_decoder.cpp'],
  [('storage of bit vectors', 'src/bit_vector.cpp'), ('files', 'src/file_data_source.cpp'), ('worker thread and buffer', 'src/buffered_asynchronous_reader.cpp'), ('zlib stream', 'OsmPBFDecompressor in src/osm_decoder.cpp')],
  'path-sensitive ownership/typestate analysis over LLVM IR with exception edges: each operation is followed from every ownership state of the objects involved (held, empty, the same object) to all normal and exceptional exits',
  'All operations, states and exits. The size of a bit vector is compared with its memory at representative sizes. Assumes that the standard library releases what it owns, that C functions do not throw and that locking a mutex in a destructor does not fail.'),
]

NOT_APPLICABLE = [
P('X01', 'Shortest path queries return optimal distances',
  'For every graph with non-negative weights, the distance reported by a contraction hierarchy, a customizable contraction hierarchy and Dijkstra is the minimum length of all paths, or infinity if there is none.',
  ['inputs'], 'all graphs, weights, node orders and sources/targets', 'The tests sample a few random graphs.',
  ['src/contraction_hierarchy.cpp', 'src/customizable_contraction_hierarchy.cpp', 'include/routingkit/dijkstra.h'],
  [('contraction with witness search', 'src/contraction_hierarchy.cpp'), ('triangle relaxation', 'src/customizable_contraction_hierarchy.cpp')],
  reason='Optimality is a statement about the values computed over an unbounded search; no static argument in reach bounds them. Structural clauses of it (which numbering values are in, which values are updated together, overflow, state reset between queries) are claimed as properties of their own.'),
P('X02', 'Nearest neighbour queries return the exact nearest neighbours',
  'The geometric nearest-node and within-radius queries return exactly the input positions a linear scan with the same distance function would return.',
  ['inputs'], 'all point sets, query points and radii', 'The tests sample a few random point sets.',
  ['src/geo_position_to_node.cpp', 'include/routingkit/geo_position_to_node.h'], [('vantage point tree pruning with the triangle inequality', 'src/geo_position_to_node.cpp')],
  reason='Depends on floating point distances and the triangle inequality along data dependent search paths; not visible in the shape of the code.'),
P('X03', 'Computed node separators separate the graph',
  'Removing a computed separator from a graph fragment leaves components of the promised balance, and every computed cut is a cut of the flow network.',
  ['inputs'], 'all graph fragments', 'Tests use small fixed graphs.',
  ['src/nested_dissection.cpp', 'include/routingkit/nested_dissection.h'], [('flow based bisection', 'src/nested_dissection.cpp')],
  reason='Balance and cut validity are numerical facts about a data dependent flow computation.'),
]
