"""What each check compiles and what its evidence says about its cases."""
HARNESSES = {
    "P01": dict(units=["P01.cpp"],
                rule="A case is a buffer with a random prefix and 1-10 values of random types (26 types incl. nested containers) written one after another; non-trivial: non-empty prefix and at least two values (position test: written at a non-zero offset)."),
    "P02": dict(units=["P02.cpp"],
                rule="A case is a buffer with a random prefix and 1-10 values of random types (22 types) written in network order and compared with an independent big-endian encoder; non-trivial: non-empty prefix and at least two values."),
    "P03": dict(units=["P03.cpp"],
                rule="A case is a buffer with a random prefix and 1-8 Eigen values, containers of them or strings; non-trivial: non-empty prefix and at least two values."),
    "P04": dict(units=["P04.cpp"], repo=["src/arc_utilities/zlib_helpers.cpp"], libs=["-lz", "-lboost_filesystem", "-lboost_system"],
                rule="A case is a byte string (literal bytes, constant, random, runs or text up to 3 MB, sizes swept over internal buffer boundaries), a truncation point, up to three byte edits, arbitrary bytes, or a file scenario; non-trivial: more than one byte (truncation: more than the header kept; damage: integrity really broken)."),
    "P05": dict(units=["P05.cpp"], repo=["src/arc_utilities/base64_helpers.cpp"], libs=["-lz"],
                rule="A case is a byte string (0-3000 bytes) or a text over the full 8-bit range, base64 alphabet with or without '='; non-trivial: non-empty (arbitrary text: at least two characters)."),
    "P06": dict(units=["P06.cpp"],
                rule="A case is a sequence of up to 40 graph edits compared with a model after each, a set of (possibly damaged) node lists, a two-way graph or a random walk; non-trivial: at least two edges added (edits), one edge (linkage), two components, a walk of three nodes."),
    "P07": dict(units=["P07.cpp"],
                rule="A case is a directed graph (random, ring, grid; up to 60 nodes, weights multiples of 1/8, some infinite) and a start node; non-trivial: the path tree is at least two edges deep (serialization: an edge and a non-zero offset)."),
    "P08": dict(units=["P08.cpp"],
                rule="A case is a directed graph with invalid and infinite edges, end points, a consistent or admissible heuristic (0 to exact) and a queue mode; non-trivial: the optimal path has at least three nodes."),
    "P09": dict(units=["P09.cpp"],
                rule="A case is a sample list on an 8x8 lattice, symmetric or directed distance, walls and forbidden motions, K, duplicates on or off, followed by edge updates or up to three queries; non-trivial: at least four roadmap nodes (queries: a path of three states)."),
    "P10": dict(units=["P10.cpp"],
                rule="A case is an initial tree (or pair of trees), random nearest-neighbour answers, branching propagations, goal or connection predicates and a termination budget, with every state traceable by identity; non-trivial: a solution in a tree of at least four (two trees: five) states."),
    "P11": dict(units=["P11.cpp"], flags=["-fopenmp"], libs=["-fopenmp"],
                rule="A case is a list of up to 300 distances (many ties) or points with K from 0 to beyond their number, or one or two datasets of up to 20 items with a distance function; serial and parallel (OpenMP) forms are both run; non-trivial: 0 < K < N (matrices: at least three items, or two datasets of different sizes)."),
    "P12": dict(units=["P12.cpp"],
                rule="A case is a word of 8-64 bits with up to 12 bit writes, a value with three ordered thresholds of four types, maps with probes and key/value lists, strings over two letters, or an Eigen vector; non-trivial: a bit in the upper half written, a value changed, three map entries, two strings and a non-empty substring, two vector elements."),
    "P23": dict(units=["P23.cpp"],
                rule="A case is a seed with up to 12 draws, discards and reseedings of an engine, Gaussian parameters with evaluation points, or a distribution with 1500-2000 samples drawn from one of four engines; non-trivial: a discard or a draw after reseeding, an evaluation point inside the interval, one-sided or tail truncation, at least two dimensions with some spread."),
    "P24": dict(units=["P24.cpp"],
                rule="A case is a set of channel values inside and outside [0, 1] and 8-bit channels, a sequence of channel writes, a pair of colours and a ratio, a value with a range (quarter points included), or a number of unique colours; non-trivial: every construction, ratios and values strictly inside, at least two colours."),
    "P13": dict(units=["P13.cpp"],
                rule="A case is a grid of up to 6x6x6 cells (16 constructors, cell sizes exact or arbitrary, origin centred, translated or rotated) with up to 10 positions inside and outside near cell boundaries, or up to 30 writes, reads, resets, serializations, clones and raw accesses compared with a model after each; non-trivial: a position out of bounds, three writes, more than one slice."),
    "P14": dict(units=["P14.cpp"],
                rule="A case is a grid (cell and chunk sizes exact or arbitrary, origin identity, translated or rotated) with up to 30 cell and chunk writes, mutable accesses, copies and default changes, all earlier positions and three new ones read after each and compared with a two-level map; or a position on a cell border up to rounding; or a single chunk; non-trivial: a chunk expanded into cells, or at least two cell and one chunk writes; more than one cell per chunk; a negative chunk; a position outside the chunk."),
    "P15": dict(units=["P15.cpp"], flags=["-fopenmp"], libs=["-fopenmp"],
                rule="A case is a symmetric distance table of up to 20 items (distinct, tied, on a line, with infinite entries), a threshold (exact ties, infinite, negative) and a linkage, clustered by the serial or the OpenMP build from a function or a matrix; non-trivial: merges happened and at least two clusters remain."),
    "P16": dict(units=["P16.cpp"],
                rule="A case is up to 200 weighted or plain points with integer coordinates around up to 5 blobs (exact rational centres), starting centres or a number of clusters, the clock value that seeds the library, and preliminary clustering on or off; non-trivial: Lloyd's iteration needs more than two rounds without ties (given centres), or more items than clusters."),
    "P17": dict(units=["P17.cpp"], flags=["-fopenmp"], libs=["-fopenmp"],
                rule="A case is a table of costs (many ties, some infinite) between two sequences or sets of up to 40 items, or a history of up to 8 such pairs of different lengths given to one evaluator; non-trivial: both longer than one item (two for symmetries), the history grows in one length while shrinking in the other."),
    "P18": dict(units=["P18.cpp"],
                rule="A case is a 3-d path of up to 25 states (repeated states included) or 40 traceable states with a range, step size or point count, edge predicate, budget and seed; non-trivial: points are inserted in a path of several segments, or a shortcut was taken and another refused."),
    "P19": dict(units=["P19.cpp"],
                rule="A case is one to three angles (special values, near half a turn, several turns away) with a ratio or a range; non-trivial: the way between the angles or the arc crosses half a turn."),
    "P20": dict(units=["P20.cpp", "P20b.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is one or two vectors of numbers (int, int64, float, double; different sizes at times) of up to 12 elements with weights (zeros included), point sets, rotations close to each other or arbitrary with signs flipped, or an interpolation ratio inside or outside [0, 1]; non-trivial: more than one element (weighted for averages, a unique average for rotations)."),
    "P21": dict(units=["P21.cpp", "P21b.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is one or two rotations or transforms (quarter and half turns, tiny, nearly opposite, sign-flipped quaternions), twists with any rotation rate down to 2^-80 and zero, Euler angles including gimbal lock, or an interpolation ratio; non-trivial: proper rotation (and translation where there is one), ratio strictly inside."),
    "P22": dict(units=["P22.cpp", "P22b.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is a direction (axis-aligned, diagonal, zero at times) with vectors, points near or far from the origin, a plane with points on or near it, a cone, or a matrix of given singular values and shape; non-trivial: more than one dimension and off the line or plane (tall or wide and of rank above one for pseudo-inverses)."),
    "P25": dict(units=["P25.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is one of the four arms with a joint configuration (special and arbitrary angles, several turns), a base transform or none, joints in order or by name with some absent; or a change of one joint; non-trivial: with a base transform, a joint that moves."),
    "P26": dict(units=["P26.cpp", "P26b.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is a kinematic tree of up to 8 links (links and joints in any order, four joint types) with a history of positions (also its own, also refused ones), base transforms, clones and assignments; a link point; a model with up to three edits; joints with values outside their limits; or two configurations with weights; non-trivial: at least two active joints that are moved, a link that moves, at least two joints, a value beyond the limits, a positive distance."),
    "P27": dict(units=["P27.cpp", "P27b.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is a history of planar positions (angles of several turns), clones and self-assignments; two planar or spatial configurations (nearly opposite and equal rotations included) with weights, a ratio and a point; configurations written behind other bytes; or robots with geometry and allowed collisions; non-trivial: two positions, translation and rotation with a ratio strictly inside, a non-empty prefix, three links with an allowed collision."),
    "P28": dict(units=["P28.cpp"], repo=["src/arc_utilities/time_optimal_trajectory_parametrization.cpp"], flags=["-O2", "-fno-sanitize=undefined"],
                rule="A case is a waypoint path of 1-4 joints (lattice or arbitrary, corners up to 155 degrees), velocity and acceleration limits, a deviation and a time step; a straight line; a sequence of queries and copies; or positions along a path; non-trivial: a blended corner between two straight pieces; three waypoints and two joints; going back in time twice; four path segments."),
    "P29": dict(units=["P29.cpp"], repo=["src/arc_utilities/timing.cpp"],
                rule="A case is a history of up to 40 timer starts, records, values, resets and printed or written reports under six names (reports parsed back, elapsed times bracketed by the harness' own clock readings), or of reads and resets of several stop watches; non-trivial: four records, a report and a reset; three reads and a reset."),
    "P30": dict(units=["P30.cpp"], libs=["-lboost_filesystem"],
                rule="A case is a history of up to 25 steps on logs with relative, nested and absolute names (opening, messages of up to 20000 characters, copies, moves, assignments), the files being read back after every step; concurrent messages of 2-4 threads; or a directory layout with files and links in the way of a path given in four spellings; non-trivial: three messages and a copy; every thread case; two missing parents or a blocked path."),
    "P31": dict(units=["P31.cpp"], repo=["src/arc_utilities/first_order_deformation.cpp"],
                rule="A case is a grid of up to 14x14 cells (free, random obstacles of four densities, serpentine walls with or without a closed one, winding corridors carved in any direction) or up to 400x400 cells; non-trivial: the path is longer than the unobstructed one, or there is no path to a valid goal."),
    "P32": dict(units=["P32.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is up to 12 control points in general position (lattice or arbitrary, three sizes) in two or three dimensions with arbitrary or affine targets and query points (control points included), or a history of up to 14 setters, solves, copies and queries with missing and mismatched sets; non-trivial: more control points than an affine map fixes; three changes and a query."),
    "P33": dict(units=["P33.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is a value of one of 36 nested container, vector, matrix or transform types with or without decoration and one of five separators, compared with an independent recursive formatter; or a vector written to a stream; non-trivial: at least six characters of content, two elements."),
    "P34": dict(units=["P34.cpp"], flags=["-fno-sanitize=undefined"],
                rule="A case is a cell of a 2-d or 3-d grid (seven step sizes, bounds of 1-7 cells or open, three obstacle densities); a history of up to 40 insertions, removals and look-ups in a hash map of one of nine key types (signed zeros included); a grid of values; or a history of up to 25 operations on optional values; non-trivial: some but not all neighbours, two entries with an overwritten or removed one, two values and a copy."),
    "P35": dict(py="P35.py",
                rule="A case is one or two nested mappings of four kinds (leaves against mappings included), one to five sequences (lists, text, ranges, iterators, empty ones), a chunk size, numbers of five types to round, a call that returns or raises, or a plan of values, timeouts and errors; non-trivial: nested with shared and unshared keys, sequences of different lengths, a chunk left over, an error caught, a timeout among values."),
    "P36": dict(py="P36.py",
                rule="A case is a planning problem of 1-6 dimensions (scalars, vectors, columns, integer arrays, matrices) with a duration and up to four times within or outside it, compared with exact rational arithmetic; non-trivial: several dimensions, different ends, non-zero velocities."),
    "P37": dict(py="P37.py",
                rule="A case is a directory tree of up to three levels (hidden, glob-like, blank and non-ASCII names; files of given sizes, pipes, links to files, directories, ancestors, themselves and nothing) with a helper or clean-up script, a path in one of three spellings, a threshold and an answer to the question; or a history of up to ten proposed paths; non-trivial: directories and links in the tree, some but not all directories chosen or small, a second version needed.",
                assumptions=["ROS message classes are replaced by stand-ins", "the checks run as user nobody in a scratch directory"]),
    "P38": dict(py="P38.py",
                rule="A case is a polyline of 1-8 points in 1-4 dimensions (lattice or arbitrary, repeated vertices, ways straight back; lists, arrays, matrices, integers, tuples) with a query on, off or beyond it, a step or a signed distance, or a trajectory of up to 6 points; non-trivial: at least two pieces and the nearest point inside one, points inserted, a vertex passed from a unique start, three points with velocities.",
                assumptions=["ROS message classes, times and durations are replaced by stand-ins"]),
    "P39": dict(py="P39.py",
                rule="A case is one or two rigid motions (special, arbitrary, nearly no and nearly half a turn, scaled and sign-flipped quaternions) with a point, an axis and angle, link parameters, lists of points, poses in five spellings, or the text of a file size; non-trivial: proper translation and rotation, an angle away from none and half a turn, a fraction with a unit, malformed text with digits.",
                assumptions=["ROS message classes and tf.transformations are replaced by stand-ins", "quaternions are not zero"]),
    "P40": dict(py="P40.py",
                rule="A case is one or two linear colours (arbitrary, dark, grey, primaries), XYZ values about the CIE knee, Lab values of all quadrants and black, a ratio, or a value within or outside a range; non-trivial: three different channels, all components non-zero, a ratio strictly inside between saturated colours, a value strictly inside.",
                assumptions=["colours are linear RGB from 0 to 1 (the code applies no gamma)", "ROS messages and matplotlib's colour names are replaced by stand-ins"]),
    "P41": dict(py="P41.py",
                rule="A case is a history of messages, reads and new listeners on a simulated network (or one publisher with up to three reading threads); a condition that comes true at a time with shutdown and warning times; connection counts over time; a node context; controller states; a history of transforms sent and asked for; or a history of managed transforms with lookups that fail; non-trivial: two messages and a read, a wait of several polls, subscribers on several topics, some publishers missing, a body that raises, a button pressed later, two static transforms and a lookup, two managed transforms.",
                assumptions=["rospy, tf2_ros, rosgraph and the messages are stand-ins; the clock of the network moves when somebody sleeps", "broadcasters copy what they are given at once, as ROS serializes it"]),
    "P42": dict(units=["P42.cpp"],
                rule="A case is a history of up to 16 operations on three aligned vectors (float or double, magnitudes from 1e-10 to 1e10), compared with plain three-vectors after each; non-trivial: a vector changed in place, and norms, products and expressions asked for."),
    "P43": dict(units=["P43.cpp"], ros=True, flags=["-fno-sanitize=undefined"],
                rule="A case is three numbers of any kind (infinite, not-a-number and signed zeros included), a rigid motion (special, arbitrary, nearly no and nearly half a turn), a stretched one, or a list of up to 8 of them, taken through every conversion between ROS messages and Eigen; non-trivial: three different numbers, a proper translation and rotation, at least two elements.",
                assumptions=["ROS messages are structs with the fields of their definitions (ROS is not installed)", "quaternions of poses have norm one"]),
    "P44": dict(units=["P44.cpp"], ros=True,
                rule="A case is a sequence of up to 6 messages (or lists of messages) of 18 kinds with fields of any value behind up to 9 other bytes, or a message cut short; non-trivial: at least two messages, a cut inside.",
                assumptions=["ROS messages and their wire format are replaced by stand-ins with the layout of roscpp_serialization"]),
    "P45": dict(units=["P45.cpp"], repo=["src/roscpp_initializer.cpp"], ros=True,
                rule="A case is a parameter server with up to 5 values (numbers, truth values, text, lists, lists of mixed types) under three name spaces and up to 5 questions for one of ten types; or up to three nodes started from Python with any of the arguments; non-trivial: a parameter that is found, arguments or flags.",
                assumptions=["roscpp and pybind11 are replaced by stand-ins with roscpp's conversion rules (neither is installed)"]),
    "P46": dict(units=["P46.cpp"], repo=["src/arc_utilities/trajectory_utils.cpp"], ros=True,
                rule="A case is a history of up to five trajectories (of the same joints, fewer, more, others or none, with or without points, frames and numbers) appended to one, or it to itself; or a collision result with up to three pairs of bodies; non-trivial: points appended behind others, several contacts.",
                assumptions=["ROS messages and MoveIt's collision result are structs with the fields of their definitions"]),
    "P47": dict(units=["P47.cpp"], ros=True,
                rule="A case is a history of up to 12 messages, runs of the receiving thread, reads, waits (with messages, runs and shutdowns while waiting), stops and starts on one or two listeners that end with messages waiting; or a receiving thread, up to three readers and up to 12 messages; non-trivial: two messages and a read or wait, every threaded case.",
                assumptions=["roscpp is replaced by a stand-in whose spinning threads run when the harness says so (real threads in the second part)"]),
}
