# Executed by properties.py (names: prop, INC, SRC).
EXPL = "Random structured exploration with shrinking; finds counterexamples, never establishes absence. "

prop("P01", "Host-order serialization round-trips and reports exact byte counts",
     "Serializing any value (fixed-size scalars and structs, strings, vectors, vector-like containers, maps, pairs, arbitrarily nested) in the host-order format and deserializing at the position where it was written gives back an equal value, whatever bytes precede or follow it in the buffer. "
     "Serializing only appends, the count it returns is exactly the number of bytes appended, and the count deserialization returns is exactly the number of bytes of that value, so values written one after another can be read back one after another.",
     ["inputs", "histories"], "all values of the supported types, all sequences of values written to one buffer, and all surrounding bytes",
     "Tests serialize one hand-picked value per type into an empty buffer; they never mix types, start at a non-zero offset, nest containers, or check consumed byte counts on arbitrary data.",
     [INC + "serialization.hpp"], [("SerializeFixedSizePOD / SerializeString / SerializeVector / SerializeVectorLike / SerializeMap / SerializePair and the matching Deserialize functions", INC + "serialization.hpp")],
     EXPL + "Oracle: equality with the generated value and byte-exact accounting.")

prop("P02", "Network-order serialization round-trips in big-endian layout",
     "Serializing any scalar, string, vector, map or pair in the network-order format and deserializing where it was written gives back an equal value, with exact byte counts in both directions. "
     "On the wire every length and scalar is laid out most significant byte first, independent of the host, in element order.",
     ["inputs", "histories"], "all values of the supported types and all surrounding bytes",
     "Network functions have at most a smoke test; nothing checks the wire layout, non-zero offsets or nested containers.",
     [INC + "serialization.hpp"], [("SerializeNetwork* / DeserializeNetwork*", INC + "serialization.hpp")],
     EXPL + "Oracle: equality plus an independent big-endian encoder of the same value.")

prop("P03", "Eigen vectors, matrices and transforms survive serialization unchanged",
     "Any supported fixed or dynamically sized vector, matrix (including empty and rectangular ones) or rigid transform that is serialized and then deserialized at the position where it was written has the same dimensions and bit-identical entries. "
     "Written and consumed byte counts agree with the bytes actually appended, so such values can be interleaved in one buffer, also as elements of serialized containers.",
     ["inputs", "histories"], "all dimensions and entries (including NaN, infinities, denormals), all interleavings",
     "The tests cover a few random matrices of fixed shapes, one per buffer.",
     [INC + "serialization_eigen.hpp"], [("SerializeEigen / DeserializeEigen / SerializeEigenType families", INC + "serialization_eigen.hpp")],
     EXPL + "Oracle: bit-exact equality and byte accounting.")

prop("P04", "Compression is lossless and rejects damaged data",
     "Decompressing what was compressed gives back exactly the original bytes, for any content and any size, in memory and through files. "
     "Decompressing a truncated stream, a stream whose stored bytes were damaged so that its integrity check fails, or a file that does not exist raises an error instead of returning data, hanging or crashing; so does writing a file that could not be written completely.",
     ["inputs", "fault_sequences"], "all byte strings from empty to many internal buffers long, all truncation points and single-byte damages of a compressed stream",
     "The tests never truncate or damage a stream and use few sizes relative to the internal chunk size.",
     [INC + "zlib_helpers.hpp", SRC + "zlib_helpers.cpp"], [("ZlibHelpers::CompressBytes / DecompressBytes / LoadFromFileAndDecompress / CompressAndWriteToFile", SRC + "zlib_helpers.cpp")],
     EXPL + "Oracle: round trip, plus the system zlib as an independent codec in both directions.",
     technique="property-based testing and fault injection on generated streams (choice-sequence generators, ASan+UBSan)")

prop("P05", "Base64 encoding is standard and decoding inverts it on any input",
     "Encoding any byte string gives its standard padded base64 text, and decoding that text (padded, unpadded or with URL-safe characters) gives back exactly the original bytes. "
     "Decoding arbitrary text, valid or not, never reads or writes outside its buffers or crashes.",
     ["inputs"], "all byte strings, and all texts over the full 8-bit character range",
     "There is no stable test of base64; byte values with the high bit set and invalid texts are not sampled anywhere.",
     [INC + "base64_helpers.hpp", SRC + "base64_helpers.cpp"], [("Base64Helpers::Encode / Decode", SRC + "base64_helpers.cpp")],
     EXPL + "Oracle: an independent RFC 4648 encoder, round trip, and sanitizers.")

prop("P06", "A graph stays linked through every edit, and its queries match a model",
     "After any sequence of adding nodes and one- or two-way edges and editing edges in place, every added edge appears exactly once in the outgoing list of its source and once in the incoming list of its target, edge lookups return the edge asked for, and invalid edges (self loops, indices out of range) are rejected with the graph unchanged. "
     "The linkage check accepts exactly the node sets whose incoming and outgoing edges refer to each other, and a graph cannot be constructed from any other; copying, serializing and deserializing a graph preserve all nodes, values and edges. "
     "The connected components reported for a two-way graph are exactly its reachability classes, numbered from one, and a random walk is a loop-free path along edges from start to goal.",
     ["histories", "inputs"], "all sequences of graph edits and all node/edge sets",
     "Tests build one small graph by hand; component search, inconsistent input and random walks are not covered.",
     [INC + "graph.hpp"], [("Graph edge bookkeeping and CheckGraphLinkage", INC + "graph.hpp"), ("Graph serialization", INC + "graph.hpp"), ("getConnectedComponentsUndirected", INC + "graph.hpp"), ("GraphRandomWalk", INC + "dijkstras.hpp")],
     EXPL + "Oracle: an adjacency-multiset model, union-find for components.",
     technique="stateful model-based testing (choice-sequence generators, shrinking, ASan+UBSan)")

prop("P07", "Dijkstra's algorithm yields exact distances and a consistent path tree",
     "For any graph with non-negative edge weights, running Dijkstra from a node gives every node its exact shortest distance along edges leading to that node, infinity for nodes that cannot reach it, and a predecessor such that following predecessors walks along existing edges to the start with exactly that total cost. "
     "The result carries the original graph unchanged apart from distances, and survives serialization unchanged.",
     ["inputs"], "all directed graphs with non-negative weights, all start nodes, including disconnected graphs, zero and infinite weights and parallel edges",
     "Tests run A* on two hand-made graphs; Dijkstra distances on arbitrary graphs are not checked at all.",
     [INC + "dijkstras.hpp"], [("SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm", INC + "dijkstras.hpp"), ("DijkstrasResult serialization", INC + "dijkstras.hpp")],
     EXPL + "Oracle: Bellman-Ford on an edge list.")

prop("P08", "A* searches return valid optimal paths, and none only if none exists",
     "With non-negative costs and a consistent heuristic, every A* search (on a graph with stored or lazily evaluated edges, over an implicitly given state space, or the planner with a goal predicate and any hash function) terminates, returns a path from start to goal along valid edges whose true cost is minimal, and the cost it reports is that cost. The searches by node index (not the planner) also do so for a heuristic that is admissible (it never overestimates) without being consistent. "
     "It reports that there is no path exactly when the goal cannot be reached along valid edges of finite cost.",
     ["inputs", "configurations"], "all graphs, weights, edge-validity assignments and admissible heuristics (consistent ones for the planner), lazy and eager evaluation",
     "Two hand-made graphs are tested with a zero-knowledge choice of weights; optimality on arbitrary graphs, lazily invalidated edges and unreachable goals are not.",
     [INC + "dijkstras.hpp", INC + "simple_astar_planner.hpp", INC + "arc_helpers.hpp"],
     [("SimpleGraphAstar::PerformAstar / PerformLazyAstar / ExtractAstarResult", INC + "dijkstras.hpp"), ("SimpleAStarPlanner", INC + "simple_astar_planner.hpp"), ("GenericAstarSearch", INC + "arc_helpers.hpp")],
     EXPL + "Oracle: Bellman-Ford shortest distances and a path validity predicate.")

prop("P09", "PRM roadmaps contain only valid linked edges and answer queries optimally",
     "A roadmap grown from any sampler, distance and edge-validity functions has exactly the sampled valid states as nodes, stays linked, and every edge joins two states whose connecting motion was valid, weighted with their distance in that direction. "
     "Queries connect start and goal to their nearest roadmap nodes and return a valid minimum-cost path through the roadmap with its true cost, or no path when none exists, without altering the roadmap they were asked of unless that is requested.",
     ["inputs", "configurations", "histories"], "all sample sequences, obstacle sets, neighbourhood sizes, symmetric and asymmetric distances, repeated queries",
     "The only test is a demo program with visual output whose result is not checked.",
     [INC + "simple_prm_planner.hpp"], [("SimplePRMPlanner roadmap construction, update and query", INC + "simple_prm_planner.hpp")],
     EXPL + "Oracle: an independent roadmap model, Bellman-Ford on the returned graph, motion validity predicate.")

prop("P10", "RRT planners return only connected paths over propagated states",
     "Every path an RRT or bidirectional RRT planner returns starts at a start state, ends at a goal state (or joins the two trees where connection was confirmed), and each consecutive pair is a parent and a state propagated from it. "
     "The tree it grew stays linked parent-to-child and child-to-parent throughout, the search stops when its termination condition says so, and the reported statistics agree with what happened.",
     ["inputs", "configurations", "histories"], "all sampler, nearest-neighbour, propagation, goal-check and termination behaviours",
     "The header is not instantiated by any test.",
     [INC + "simple_rrt_planner.hpp"], [("SimpleHybridRRTPlanner::RRTPlanMultiPath / Plan, SimpleHybridBiRRTPlanner", INC + "simple_rrt_planner.hpp")],
     EXPL + "Oracle: recorded propagation log and path/tree validity predicates.")

prop("P11", "Nearest-neighbour search and distance matrices are exact",
     "The K-nearest-neighbour search returns, in the serial and the parallel form alike, min(K, N) distinct entries with their true distances such that no omitted item is closer than a returned one. "
     "Pairwise distance matrices hold in each cell exactly the distance of the corresponding row and column items, for one dataset (symmetric) and for two datasets of different sizes.",
     ["inputs"], "all datasets, query points, K from 0 to beyond the dataset size, ties, one and two datasets of any sizes",
     "Neither is covered by a stable test with arbitrary data.",
     [INC + "arc_helpers.hpp"], [("GetKNearestNeighbors*, BuildDistanceMatrix*", INC + "arc_helpers.hpp")],
     EXPL + "Oracle: brute force with full sort.")

prop("P12", "Bit, range, map and string helpers agree with their definitions",
     "Getting and setting single bits of a word touch exactly the addressed bit at any position of any supported type; clamping gives the nearest value of the range, and spreading moves exactly the values strictly between the thresholds to the threshold on their side of the midpoint. "
     "Looking up keys, values, defaults, elements and substrings in containers returns exactly what the container holds, and building, enumerating or converting maps, lists and vectors neither drops, duplicates, reorders nor invents entries.",
     ["inputs"], "all words and bit positions, ranges, containers and strings",
     "None of these helpers has a stable test.",
     [INC + "arc_helpers.hpp", INC + "stl_wrappers.hpp", INC + "enumerate.h", INC + "eigen_std_conversions.hpp"], [("GetBit/SetBit, ClampValue, SpreadValue, RetrieveOrDefault, GetKeys..., CheckAllStringsForSubstring", INC + "arc_helpers.hpp"), ("ConvertTo", INC + "eigen_std_conversions.hpp"), ("arc_std::find", INC + "stl_wrappers.hpp"), ("enumerate", INC + "enumerate.h")],
     EXPL + "Oracle: direct definitions over std containers.")

prop("P13", "A voxel grid behaves as a bounded array of cells addressed by position",
     "Every position inside the grid's extents belongs to exactly one cell (the one whose half-open box contains it), cell centres map back to their cell, and every position outside the extents, on either side and under any origin transform, is out of bounds. "
     "Through any sequence of writes and reads by index or position, each in-bounds cell holds the last value written to it or else the default, and out-of-bounds reads return the out-of-bounds value and out-of-bounds writes are refused and change nothing. "
     "Serializing and deserializing a grid gives back an equal grid.",
     ["histories", "inputs", "configurations"], "all grid sizes, resolutions, origin transforms, positions near cell and grid boundaries, and read/write sequences",
     "No stable test exercises voxel grids; boundary rounding and negative offsets need arbitrary positions.",
     [INC + "voxel_grid.hpp"], [("VoxelGrid cell addressing and bounds checks", INC + "voxel_grid.hpp"), ("VoxelGrid serialization", INC + "voxel_grid.hpp")],
     EXPL + "Oracle: a map from index to value and interval arithmetic on coordinates.",
     technique="stateful model-based testing (choice-sequence generators, shrinking, ASan+UBSan)")

prop("P14", "The hashed dynamic voxel grid behaves as a sparse infinite array",
     "Through any sequence of cell and chunk writes at arbitrary positions, every write succeeds and reading a position returns the value most recently written to its cell or its chunk, or, where nothing was written to the chunk, the default marked as not found; no write affects any other cell or chunk. "
     "A cell write after a chunk write expands the chunk so that its other cells keep the chunk's value, copies are independent, and the exposed chunks with their regions, sizes and cell values reflect exactly this content.",
     ["histories", "inputs", "configurations"], "all chunk and cell dimensions, origin transforms, positions of either sign including those on cell and chunk borders, and operation sequences",
     "No test exercises the dynamic grid.",
     [INC + "dynamic_spatial_hashed_voxel_grid.hpp"], [("DynamicSpatialHashedVoxelGridChunk and DynamicSpatialHashedVoxelGrid cell/chunk addressing", INC + "dynamic_spatial_hashed_voxel_grid.hpp")],
     EXPL + "Oracle: a two-level map keyed by floor-divided coordinates.",
     technique="stateful model-based testing (choice-sequence generators, shrinking, ASan+UBSan)")

prop("P15", "Hierarchical clustering partitions its items and stops at the right distance",
     "For any items, distance function and threshold, single-linkage or complete-linkage agglomerative clustering returns a partition of all item indices, where the result equals that of merging the closest pair of clusters first until the closest remaining pair is farther than the threshold, and reports the distance it stopped at. "
     "Consequently clusters that remain are farther apart than the threshold, and clusters merged under complete linkage have no member pair beyond it.",
     ["inputs"], "all symmetric distance matrices, thresholds and linkages, including coincident items",
     "The test prints clusters of a random point set and checks nothing about them.",
     [INC + "simple_hierarchical_clustering.hpp"], [("SimpleHierarchicalClustering::Cluster", INC + "simple_hierarchical_clustering.hpp")],
     EXPL + "Oracle: a naive agglomerative reference on distinct distances, partition and separation invariants always.")

prop("P16", "K-means labels every item with its nearest final cluster centre",
     "K-means clustering gives each item a label below the number of clusters and terminates, and on return each item's label is that of its nearest final centre and each non-empty cluster's centre is the (weighted) average of exactly its items; started from given centres it follows Lloyd's iteration from them. "
     "Every average taken on the way, also in preliminary clustering on a subset, is over distinct items of the data with their own weights.",
     ["inputs", "configurations"], "all datasets, weights, initial centres, numbers of clusters up to the dataset size, with and without preliminary clustering",
     "No stable test runs k-means.",
     [INC + "simple_kmeans_clustering.hpp"], [("SimpleKMeansClustering::Cluster / ClusterWeighted", INC + "simple_kmeans_clustering.hpp")],
     EXPL + "Oracle: fixpoint predicate on the result, reference Lloyd iteration in exact arithmetic, monitored averaging calls; the average function given accepts empty clusters.")

prop("P17", "Dynamic time warping and Hausdorff distances match their definitions",
     "The dynamic-time-warping cost of two sequences equals the minimum total cost over all monotone alignments from first pair to last pair (infinite when only one of them is empty), whatever other sequences the same evaluator was used on before. "
     "The (directed) Hausdorff distance of two sets equals the largest distance from an item of the first set to its nearest item of the second, in the serial and the parallel build alike.",
     ["inputs"], "all pairs of sequences and sets of any sizes, including ties and repeated use of one evaluator",
     "The tests compare a handful of fixed sequences, never with ties or with a reused evaluator.",
     [INC + "simple_dtw.hpp", INC + "simple_hausdorff_distance.hpp"], [("SimpleDTW::EvaluateWarpingCost, ComputeDTWDistance", INC + "simple_dtw.hpp"), ("SimpleHausdorffDistance::ComputeDistance", INC + "simple_hausdorff_distance.hpp")],
     EXPL + "Oracle: enumeration of all alignments of short sequences, memoized recursion on longer ones; brute-force max-min.")

prop("P18", "Path resampling and shortcutting keep endpoints, order and validity",
     "Resampling a path keeps every distinct state in order, with as few equally spaced interpolated states between neighbours as keep steps within the requested distance; upsampling gives exactly the requested number of points, keeps every state and splits the longest steps first. Working on part of a path gives what that part alone would give, and impossible ranges are rejected. "
     "Shortcut smoothing returns a path with the same endpoints in which every step was either present before or approved by the edge check, within its budgets and the allowed fraction of the path, and which is never longer than the original under a metric.",
     ["inputs", "configurations"], "all paths, step sizes, sub-ranges, seeds and edge-validity predicates",
     "No stable test covers these functions.",
     [INC + "path_utils.hpp"], [("ResamplePath, UpsamplePath, ShortcutSmoothPath and helpers", INC + "path_utils.hpp")],
     EXPL + "Oracle: geometric validity predicates, differential partial-vs-whole.")

prop("P19", "Angle arithmetic treats revolute coordinates modulo a full turn",
     "Wrapping an angle gives the equivalent angle in the canonical half-open turn; the signed distance between two continuous angles is the shortest rotation that takes one to the other, the distance is its magnitude and symmetric, and interpolating moves along that shortest rotation with exact endpoints. "
     "Tests whether an angle lies in a range or bounds agree with membership of the corresponding arc in the positive direction, which includes its end points.",
     ["inputs"], "all pairs of angles, including near plus or minus half a turn and many turns apart, and all interpolation ratios",
     "Tests check plain-number distance and interpolation only, with a few values.",
     [INC + "math_helpers.hpp"], [("EnforceContinuousRevoluteBounds, ContinuousRevoluteSignedDistance, InterpolateContinuousRevolute and range checks", INC + "math_helpers.hpp")],
     EXPL + "Oracle: exact modular arithmetic via remainder().")

prop("P20", "Vector and matrix averages, statistics and norms match their definitions",
     "Elementwise vector arithmetic, norms, distances, (weighted) averages, variances and standard deviations of numbers, vectors, transforms and quaternions agree with their mathematical definitions; averaging identical items returns that item, scaling all weights by a constant changes nothing, and item order does not matter. "
     "Interpolation clamps its ratio to [0, 1] and hits its end points, conversions between plain and Eigen vectors keep every element, and mismatched sizes are handled as documented rather than read out of bounds.",
     ["inputs"], "all value vectors, weights and sizes",
     "Tests check a few fixed numbers.",
     [INC + "eigen_helpers.hpp", INC + "vector_math.hpp", INC + "math_helpers.hpp"], [("Average* functions, vector arithmetic", INC + "eigen_helpers.hpp")],
     EXPL + "Oracle: straightforward long double definitions with tolerances.")

prop("P21", "Rotation, twist and transform functions obey rigid-motion algebra",
     "Exponentials of twists are rigid transforms that match the matrix exponential and are inverted by the logarithm, adjoints and skew forms satisfy their defining identities, and conversions between Euler angles, quaternions, matrices and transforms round-trip to the same motion. "
     "Interpolating between two transforms or quaternions yields rigid motions with exact endpoints and proportional angle, and the distance between two rotations is the angle of their relative rotation, always a finite number.",
     ["inputs"], "all rotations and transforms, including identical, opposite and nearly identical ones, all twists and time steps",
     "Tests sample a handful of transforms.",
     [INC + "eigen_helpers.hpp"], [("ExpMapTwist, TwistHat, AdjointFromTransform, Interpolate, Distance, conversions", INC + "eigen_helpers.hpp")],
     EXPL + "Oracle: Eigen's matrix functions and algebraic identities with tolerances.")

prop("P22", "Projections, distances to lines and planes, and least squares are exact",
     "Projecting onto or rejecting from a vector, line or plane splits a vector into parallel and orthogonal parts that add up to it; distances to lines and planes are attained and minimal; the pyramid inscribed in a cone contains the cone axis and has its four edges on the cone a quarter turn apart, for any axis. "
     "The (weighted, damped) pseudo-inverse and least-squares solvers satisfy their normal equations.",
     ["inputs"], "all points, directions including axis-aligned and diagonal ones, matrices of full or deficient rank, positive weights",
     "Only one or two of these functions are touched by a test, with fixed values.",
     [INC + "eigen_helpers.hpp"], [("VectorProjection/VectorRejection, DistanceToLine, ConvertConeToPyramid, Pinv, WeightedLeastSquaresSolver", INC + "eigen_helpers.hpp")],
     EXPL + "Oracle: optimality conditions and identities with tolerances.")

prop("P23", "Random generators are reproducible, in range and follow their distribution",
     "Each pseudo-random engine is a deterministic function of its seed: equal seeds, also through reseeding at any point of a stream, give equal streams matching the published algorithm, and discarding n values skips exactly n. "
     "Gaussian and truncated-Gaussian densities, cumulative probabilities and integrals match their definitions; distributions drawn from any engine return finite values inside their declared bounds (truncated normals inside the truncation interval, rotations as unit quaternions, multivariate samples of the right dimension) that follow the declared distribution.",
     ["inputs", "histories", "configurations"], "all seeds, interleavings of draw, discard and reseed, and distribution parameters including far-tail and one-sided truncation and singular covariances",
     "No stable test touches the generators.",
     [INC + "arc_helpers.hpp"], [("SplitMix64PRNG, XorShift128PlusPRNG, XorShift1024StarPRNG", INC + "arc_helpers.hpp"), ("TruncatedNormalDistribution, MultivariteGaussianDistribution, RandomRotationGenerator", INC + "arc_helpers.hpp"), ("EvaluateGaussianCDF/PDF, IntegrateTruncatedGaussian", INC + "arc_helpers.hpp")],
     EXPL + "Oracle: reference implementations of the published engines; bounds; Kolmogorov-Smirnov distance to the exact distribution with a limit of probability 3e-9.")

prop("P24", "Colour builders and interpolators stay in gamut and hit their endpoints",
     "Interpolating between two colours gives the first at zero, the second at one, and channel-wise the linear mixture in between; the hot-to-cold map gives valid channels for every value, clamps outside its range, is continuous and runs from blue through cyan, green and yellow to red. "
     "Colours built from float, 8-bit or mixed channels, converted between colour types or multiplied have exactly the given channels trimmed to [0, 1]; 8-bit channels round-trip; unique colours generated for the supported indices are valid and pairwise distinct.",
     ["inputs"], "all values, ranges, ratios and colours",
     "No stable test covers colours.",
     [INC + "arc_helpers.hpp"], [("RGBAColor, RGBAColorBuilder, InterpolateColor, InterpolateHotToCold, GenerateUniqueColor", INC + "arc_helpers.hpp")],
     EXPL + "Oracle: definitions with one-quantum tolerance.")

prop("P25", "Hard-coded manipulator kinematics match their joint chains",
     "For every joint configuration, each supported arm's link transforms are rigid, start at the given base transform, and equal the composition of its fixed link offsets and axis rotations, whether joints are given in order, by name (absent ones counting as zero) or with an explicit base. "
     "Moving one joint leaves all earlier links where they were and rotates all later links about that joint's axis by exactly the change in angle.",
     ["inputs"], "all joint configurations and base transforms of every supported arm",
     "A single configuration is printed by a demo test; its values are not compared.",
     [INC + "iiwa_7_fk_fast.hpp", INC + "iiwa_14_fk_fast.hpp", INC + "abb_irb1600_145_fk_fast.hpp", INC + "ur_10_fk_fast.hpp"], [("GetLinkTransforms overloads and Get_..._LinkTransform chains", INC + "iiwa_7_fk_fast.hpp")],
     EXPL + "Oracle: an independently written kinematic table and metamorphic relations.")

prop("P26", "Linked robot models keep kinematics, limits and Jacobians consistent",
     "For any tree of links and joints in any joint order and under any base transform, setting joint positions puts every link at the product of transforms along its chain, with positions brought inside joint limits, and the translational and full Jacobians of any point on any link agree with numerical differentiation. "
     "Models with cycles, several parents, dangling or out-of-range joints are rejected; copies, clones and serialized joints reproduce the original; distances and interpolation are consistent with per-joint revolute or linear arithmetic.",
     ["inputs", "histories", "configurations"], "all kinematic trees mixing fixed, prismatic, revolute and continuous joints, all configurations, base-transform updates interleaved with position updates",
     "No stable test builds a linked robot.",
     [INC + "simple_linked_robot_model.hpp"], [("SimpleLinkedRobot::UpdateTransforms / UpdateBaseTransform / ComputeLinkPointTranslationJacobian", INC + "simple_linked_robot_model.hpp"), ("SimpleJointModel limits and serialization", INC + "simple_linked_robot_model.hpp")],
     EXPL + "Oracle: recursive forward kinematics and central differences.",
     technique="stateful model-based testing (choice-sequence generators, shrinking, ASan+UBSan)")

prop("P27", "Planar and spatial rigid-body robot models are consistent metrics spaces",
     "For the planar and spatial rigid-body robots, setting a configuration and reading it back gives the same pose; configuration distance is zero exactly on equal poses, symmetric, and per-dimension distances agree with it; interpolation hits its endpoints and moves proportionally; "
     "link geometry is carried along by exactly the configured transform, Jacobians match numerical differentiation, and configurations serialize losslessly.",
     ["inputs", "histories"], "all configurations including wrapped angles and opposite quaternions, all points, all update sequences",
     "The headers are not compiled by any test.",
     [INC + "simple_se2_robot_model.hpp", INC + "simple_se3_robot_model.hpp", INC + "simple_robot_models.hpp"], [("SimpleSE2Robot, SimpleSE3Robot", INC + "simple_se2_robot_model.hpp")],
     EXPL + "Oracle: direct rigid-transform math, numerical differentiation.")

prop("P28", "Time-optimal trajectories respect limits, geometry and continuity",
     "A trajectory built from any waypoint path that does not turn back on itself and velocity and acceleration limits starts and ends at rest at the first and last waypoint, stays within the allowed deviation of the waypoint polyline, takes the time-optimal duration for its blended path, and never exceeds any joint's velocity or acceleration limit beyond numerical tolerance. "
     "Sampled positions are continuous and are the integral of sampled velocities, the state returned for a time does not depend on which times were queried before or on copies, and a path's configurations, tangents and curvatures belong together.",
     ["inputs", "histories"], "all waypoint sequences in any dimension, limits, deviations, and query orders",
     "No stable test builds a trajectory.",
     [INC + "time_optimal_trajectory_parametrization.hpp", SRC + "time_optimal_trajectory_parametrization.cpp"], [("Path blends and Trajectory forward/backward integration, cached segment lookup", SRC + "time_optimal_trajectory_parametrization.cpp")],
     EXPL + "Oracle: an independent blended path and reachability-based time-optimal parametrization, finite differences and polyline distance with tolerances.")

prop("P29", "The profiler records exactly what was recorded, in order and per name",
     "After any sequence of timer starts, measurements, value records, resets and queries under any names, the data stored under each name is exactly the values recorded for it in order since its last reset, names do not affect each other, and measuring a timer that was never started is an error. "
     "Printed and written reports contain each name once with statistics or values that agree with that data, for any selection of names, including unknown and empty ones, without crashing.",
     ["histories", "inputs"], "all operation sequences and name sets",
     "Tests run one fixed sequence and do not read the written files back.",
     [INC + "timing.hpp", SRC + "timing.cpp"], [("Profiler data store and report writers", SRC + "timing.cpp")],
     EXPL + "Oracle: a map of vectors replaying the same operations; parsed report files.",
     technique="stateful model-based testing (choice-sequence generators, shrinking, ASan+UBSan)")

prop("P30", "Logs hold exactly the logged lines, and directories are created as asked",
     "A log file contains its header and every logged line once, in order, each flushed to disk before the call returns, also through copies and moves of the logger, formatted arguments of any length, and when re-opening an existing file truncates or extends it as documented. "
     "Creating a directory makes all missing parents, is idempotent, tolerates trailing separators, and a log can be opened in a new nested directory or the current one.",
     ["histories", "inputs"], "all sequences of log operations, line contents and lengths, and directory layouts in a scratch folder",
     "No test writes a log.",
     [INC + "log.hpp", INC + "filesystem.hpp"], [("Log constructors and operator<< / Log::log; CreateDirectory", INC + "log.hpp")],
     EXPL + "Oracle: a list of lines compared to the file after every step.",
     technique="stateful model-based testing in a scratch directory (choice-sequence generators, ASan+UBSan)")

prop("P31", "First-order deformation search finds a path whenever one exists",
     "Given any grid size and validity check, the best-first deformation search returns an 8-connected sequence of distinct cells from the first to the last corner in which every cell after the first is valid, or nothing exactly when no such sequence exists. "
     "It always terminates, asks only about cells inside the grid, and crosses an unobstructed grid in the fewest steps.",
     ["inputs"], "all grid sizes and obstacle patterns",
     "No test calls it.",
     [INC + "first_order_deformation.h", SRC + "first_order_deformation.cpp"], [("GetFirstOrderDeformation best-first search", SRC + "first_order_deformation.cpp")],
     EXPL + "Oracle: reachability by flood fill, direct validation of the path.")

prop("P32", "Thin-plate splines interpolate their control points and reproduce affine maps",
     "For any non-degenerate matched control points in two or three dimensions, the spline maps each source point exactly to its target, reproduces affine maps everywhere, and depends only on the currently set points, whichever way and in whichever order they were set. "
     "Empty or mismatched point sets are rejected.",
     ["inputs", "histories"], "all control point sets in general position and setter sequences",
     "Its only test needs ROS and is not run.",
     [INC + "thin_plate_spline.hpp"], [("ThinPlateSpline::solveForCoeff / interpolate", INC + "thin_plate_spline.hpp")],
     EXPL + "Oracle: interpolation conditions and affine reproduction with condition-scaled tolerances.")

prop("P33", "Printed values show every element once, in order, with exact structure",
     "Pretty-printing any nested vectors, lists, sets, maps, pairs and matrices prints each element exactly once in iteration order with the documented delimiters and separators, adds type decoration only when asked, and equal values print equally. "
     "Stream operators for containers print the same content as the elements' own printing, and a printed graph shows every node and edge once, in order.",
     ["inputs"], "all nested containers and values",
     "Printing is used only incidentally by demo tests.",
     [INC + "pretty_print.hpp", INC + "ostream_operators.hpp"], [("PrettyPrint overloads", INC + "pretty_print.hpp")],
     EXPL + "Oracle: an independent recursive formatter.")

prop("P34", "Grid neighbours, hashes and optional values obey their contracts",
     "Neighbour enumeration of a grid cell returns exactly the in-bounds cells at the requested adjacency, each once, never the cell itself, in two and three dimensions. "
     "Hashes agree on equal values of pairs, complex numbers and vectors (signed zeros included), tell apart most distinct ones, and can key hash maps without losing entries; optional values hold exactly what was put in through any copies, moves and assignments, and reading an empty one is an error.",
     ["inputs", "histories"], "all cells, grid bounds, values and operation sequences",
     "None of these is covered by a stable test.",
     [INC + "get_neighbours.hpp", INC + "hash.hpp", INC + "maybe.hpp"], [("TwoDimensional8Connected, ThreeDimensional8Connected, std::hash specializations, Maybe", INC + "get_neighbours.hpp")],
     EXPL + "Oracle: direct enumeration; std::map; recorded value.")

PYT = "property-based testing (Hypothesis, shrinking)"
prop("P35", "Python container helpers neither lose nor invent elements",
     "Repeating, zipping with repetition, chunking (dropping the last partial chunk or reversed) and uniqueness tests of any sequences return exactly the elements their definitions prescribe, in order. "
     "Merging nested dictionaries keeps every key of both, lets the update win at each leaf (a mapping replaces a leaf too), changes only the base and never the update; rounding a dictionary keeps its keys and rounds each value. "
     "A guarded call runs exactly once and yields its result, or the given value on an exception; calls guarded by a timeout report whether it struck, leave no alarm behind and pass other errors on; guarded generators restart or skip after a timeout and otherwise yield every element once.",
     ["inputs", "histories"], "all sequences, chunk sizes, nesting depths, exception patterns and places of timeouts",
     "Tests use two or three literal examples per helper.",
     [SRC + "algorithms.py", SRC + "dict_tools.py", SRC + "conditional_try.py", SRC + "catches.py"], [("nested_dict_update, zip_repeat_shorter, chunked_drop_last, reversed_chunked", SRC + "algorithms.py")],
     EXPL + "Oracle: list and dict definitions.", technique=PYT)

prop("P36", "Polynomial trajectory planners meet every boundary condition exactly",
     "Linear, quadratic and cubic plans of any dimension and duration start and end at the requested positions and velocities, and velocity and acceleration samples are the derivatives of the position samples throughout. "
     "Each dimension is planned independently of the others.",
     ["inputs"], "all boundary values, durations and dimensions",
     "Tests use one duration and one set of boundary values per planner.",
     [SRC + "trajectory_planning.py"], [("linear, quadratic, cubic", SRC + "trajectory_planning.py")],
     EXPL + "Oracle: boundary values and exact polynomial differentiation.", technique=PYT)

prop("P37", "File-system helpers never clobber, miscount or delete the wrong files",
     "A proposed non-overwriting path never exists already, stays in the same directory and keeps name and extension; sizes and file counts equal those of an independent walk that follows no directory links. "
     "Removing a tree removes exactly that tree and nothing reachable only through links; confirmed removal deletes exactly the listed directories and refusal deletes nothing, for the helpers and the clean-up scripts alike.",
     ["inputs", "histories"], "all small directory trees including links, hidden names and nested directories, in a scratch folder",
     "One test checks one file name.",
     [SRC + "filesystem_utils.py", "scripts/remove_small_directories.py", "scripts/remove_directories_with_few_files.py"], [("no_overwrite_path, rm_tree, directory_size, ask_to_remove_directories", SRC + "filesystem_utils.py")],
     EXPL + "Oracle: os.walk snapshots before and after; runs inside a scratch directory as an unprivileged user.", technique=PYT + " on generated directory trees")

prop("P38", "Python path geometry is exact along polylines",
     "The closest point on a polyline is on it and no other point of it is closer; travelling a distance along it moves exactly that arc length, clamped at the ends and in either direction; densifying keeps endpoints, vertices and length while bounding the step; lengths equal the sum of segment lengths. "
     "A reversed trajectory visits the same positions backwards with mirrored times and opposite velocities, shares nothing with the original, and reversing it twice gives it back.",
     ["inputs"], "all polylines in any dimension, query points, distances and step sizes",
     "No test covers them.",
     [SRC + "path_utils.py"], [("closest_point, travel_along, densify, path_length, reverse_trajectory", SRC + "path_utils.py")],
     EXPL + "Oracle: dense independent projection; ROS message classes are replaced by stand-ins.", technique=PYT)

prop("P39", "Python pose, quaternion and unit conversions are faithful",
     "Poses, transforms, matrices, components, quaternions, axes with angles, Euler angles and link parameters convert into each other and back to the same rigid motion; composing, inverting and relative transforms satisfy the group laws; angles between quaternions equal the relative rotation angle, and built transforms match their textbook definition. "
     "Points, point lists and marker scales are converted component by component, and spherical coordinates convert back. Parsing file sizes scales by the right power for every unit and rejects malformed text.",
     ["inputs"], "all poses and quaternions, all size strings",
     "Its tests need ROS and are not run.",
     [SRC + "transformation_helper.py", SRC + "conversions.py", SRC + "numpy_conversions.py"], [("matrix/pose conversions, quaternion composition, parse_file_size", SRC + "transformation_helper.py")],
     EXPL + "Oracle: scipy rotations; ROS message classes are replaced by stand-ins.", technique=PYT)

prop("P40", "Python colour conversions invert each other and interpolate in gamut",
     "Converting a (linear) colour from RGB through XYZ and Lab to polar form and back gives the same colour, black and all quadrants of hue included, and agrees with the published sRGB matrix and CIE definitions. "
     "Hot-to-cold and jet interpolation follow their piecewise linear definitions, stay in gamut and clamp outside their range; diverging interpolation is continuous, the same from either side, hits its end colours and goes through white or the short way round the hues.",
     ["inputs"], "all colours and interpolation values",
     "No test covers them.",
     [SRC + "color.py"], [("rgb/xyz/lab/msh conversions, interpolate_hot_to_cold, diverging maps", SRC + "color.py")],
     EXPL + "Oracle: an independent sRGB/CIELAB implementation.", technique=PYT)

prop("P41", "Python ROS wrappers deliver the latest data and keep managed transforms alive",
     "A listener always returns a copy of the latest message on its topic, whose change by the caller does not affect the listener; it blocks until there is one when asked to, passes every message once and in order to its callback, and survives failing callbacks. "
     "Waiting returns only once the condition is true or ROS is down, and warns only when it takes too long; a publisher is only returned once all subscribers of its topic are connected, and publishers that stay unconnected are named; a node context shuts both nodes down however its body ends. "
     "Transforms are broadcast exactly as given under their frames and stamp, with every static transform (the latest of its frame, as it was given) sent again along with a new one, and looking one up at the latest or a given time gives the matrix from child to parent coordinates, waiting for it until ROS is down; managed transforms are there when starting them returns and go on being sent, and nothing else is, until they are replaced, stopped or closed. "
     "Controller states name every button and axis by its position, with a dead zone about zero.",
     ["inputs", "histories", "schedules", "faults"], "all message, transform and failure histories",
     "The unit tests of these need a ROS master and do not run here.",
     [SRC + f for f in ("listener.py", "ros_helpers.py", "tf2wrapper.py", "reliable_tf.py", "ros_init.py", "xbox.py")],
     [("Listener", SRC + "listener.py"), ("wait_for, get_connected_publisher, try_to_connect, joy_to_xbox", SRC + "ros_helpers.py"), ("TF2Wrapper", SRC + "tf2wrapper.py"), ("ReliableTF", SRC + "reliable_tf.py"), ("with_ros, RosContext", SRC + "ros_init.py"), ("Xbox", SRC + "xbox.py")],
     EXPL + "Oracle: the history of what was published and broadcast on a simulated ROS network with its own clock.", technique=PYT)

NOROS = "Nothing in the baseline builds this: ROS is not installed, and the one ROS test of it samples fixed messages."
prop("P42", "Aligned vectors behave like three-dimensional vectors",
     "The SIMD-aligned vector type agrees with an ordinary three-dimensional vector through any history of construction, assignment, element access, arithmetic (in place or not), scaling, negation, normalizing, products, norms, casts, comparison, matrix products and rigid motions, in single and double precision and at any magnitude; "
     "in-place operations change and return the vector itself, and no result depends on the padding coordinate.",
     ["inputs", "histories"], "all vectors and operation histories",
     "No test uses the type.",
     [INC + "aligned_eigen_types.hpp"], [("Eigen::Aligned4Vector3", INC + "aligned_eigen_types.hpp")],
     EXPL + "Oracle: plain Eigen three-vectors after every operation.")
prop("P43", "Conversions between ROS messages and Eigen keep every number",
     "Points, vectors, quaternions and wrenches converted between ROS messages and Eigen keep every number exactly and in its place (points get the homogeneous coordinate 1, vectors 0); the message builders fill in exactly their arguments. "
     "Poses and transforms become the rigid motion that rotates by their quaternion and then translates, and back the same position and rotation as a unit quaternion, also when the Eigen transform stretches; stamped messages carry the given frame. "
     "Lists and matrices keep length and order, and moving points, poses, translations and pairs of them by a pose applies the motion to each.",
     ["inputs"], "all numbers, rigid motions and lists",
     NOROS,
     [INC + f for f in ("eigen_helpers_conversions.hpp", "eigen_ros_conversions.hpp", "eigen_transforms.hpp", "geometry_msgs_builders.hpp", "shape_msgs_builders.hpp")],
     [("EigenHelpersConversions", INC + "eigen_helpers_conversions.hpp"), ("ConvertTo", INC + "eigen_ros_conversions.hpp"), ("Transform", INC + "eigen_transforms.hpp"), ("MakePoint ... MakePose", INC + "geometry_msgs_builders.hpp"), ("MakeMeshTriangle", INC + "shape_msgs_builders.hpp")],
     EXPL + "Oracle: field by field comparison, and the rotation matrix of a quaternion written out.")
prop("P44", "ROS messages survive serialization",
     "Any sequence of geometry messages, headers, lists of them and arbitrary wrapped ROS messages, written one after the other behind whatever is in a buffer, reads back bit by bit equal from the positions where they were written; each read reports exactly the bytes the write reported and appended, the bytes before are untouched, and the bytes written depend on the message alone. "
     "No memory outside the message is read, and a wrapped message cut short is reported as an error.",
     ["inputs", "histories", "faults"], "all messages, sequences of them and cuts",
     NOROS,
     [INC + "serialization_ros.hpp"], [("SerializeHeader ... DeserializeTransformStamped, RosMessageSerializationWrapper, RosMessageDeserializationWrapper", INC + "serialization_ros.hpp")],
     EXPL + "Oracle: round trip, with AddressSanitizer watching every access.")
prop("P45", "ROS parameters and node start-up do what the caller asked",
     "A parameter is the value the server has under the resolved name if it is of the type asked for, and otherwise the default, an empty optional, or (when required) an invalid_argument error that names it; this holds for numbers, truth values, text and lists of them, and a value of another type never leaks into the result. "
     "A C++ node started from Python has the given name, arguments, log level, anonymity, rosout and signal handling (with the documented defaults), serves its callbacks until it is shut down, and refuses log levels outside 0-4 before it starts anything.",
     ["inputs", "histories"], "all parameter servers, name spaces, types and start-up arguments",
     NOROS,
     [INC + "ros_helpers.hpp", "src/roscpp_initializer.cpp"], [("GetParam, GetParamOptional, GetParamRequired, GetVector*", INC + "ros_helpers.hpp"), ("init_node, shutdown", "src/roscpp_initializer.cpp")],
     EXPL + "Oracle: the contents of a simulated parameter server and the arguments of the call.")
prop("P46", "Joint trajectories append in time and collisions are described truly",
     "Appending a joint trajectory keeps all points of both in order and unchanged except that the appended ones start from the time of the last point; joint names and frame are taken over only where there were none, also when a trajectory is appended to itself; trajectories of other joints (fewer, more, none, renamed or reordered) are refused and change nothing, and the appended trajectory never changes. "
     "The text of a collision result says whether there is a collision, names two bodies that touch, and says whether there are other contacts.",
     ["inputs", "histories"], "all histories of appended trajectories and collision results",
     NOROS,
     ["src/arc_utilities/trajectory_utils.cpp", INC + "moveit_ostream_operators.hpp"], [("append", "src/arc_utilities/trajectory_utils.cpp"), ("operator<<", INC + "moveit_ostream_operators.hpp")],
     EXPL + "Oracle: a model of the trajectory after each step.")
prop("P47", "The C++ listener always has the latest message and ends safely",
     "A listener returns the latest message that its thread has received on its topic, or none before the first; waiting for a new one returns only a message received after the call, keeps waiting while ROS is up and none has come, and fails when ROS goes down. It receives only while started. "
     "Readers, the receiving thread and the end of the listener never touch the message at the same time, readers never see an older message after a newer one, and nothing is received or still subscribed once the listener has ended, whatever the schedule.",
     ["histories", "schedules"], "all histories of messages, reads, waits, starts and stops, and all schedules of the receiving thread",
     NOROS,
     [INC + "listener.hpp"], [("Listener", INC + "listener.hpp")],
     EXPL + "Oracle: a model of what was received, and message pointers that detect use after their end and by two threads at once.")

CLAIMED = ['P%02d' % i for i in range(1, 48)]
NOT_APPLICABLE = []
