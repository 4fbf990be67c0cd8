#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

# ---------------------------------------------------------------- NDT model
prop("C01", "Map likelihoods are finite probabilities, zero where nothing is known",
 "However scans are accumulated (coincident or collinear points, points far from the map origin or outside the modelled area), the likelihood the map reports for any point is a finite number between 0 and 1, and exactly 0 outside the modelled area and in cells that hold fewer than five points. "
 "The likelihood of a set of points is the sum of the likelihoods of its points, and the likelihood of a scan is that of its points placed at the scan's pose.",
 ["inputs", "histories"], "every finite set of scans with every geometry, every order of add/compute, every finite query point, point set and scan",
 "The tests score a handful of hand-picked points against one well-spread cell; coincident points, collinear points, negative-rounding covariances and far coordinates are never tried.",
 ["src/ndt_model.cpp", "include/ndt_2d/ndt_model.hpp", "include/ndt_2d/conversions.hpp"],
 [("Cell::compute limits the covariance eigenvalues before inverting", "src/ndt_model.cpp:65"), ("Cell::score needs five points", "src/ndt_model.cpp:105"), ("NDT::getIndex bounds test", "src/ndt_model.cpp:203")],
 ["NDT::likelihood (all four overloads)", "Cell::score"],
 [("cells_", "per-cell running statistics", "include/ndt_2d/ndt_model.hpp")])

prop("C02", "Cell statistics are the sample mean and covariance of the cell's points",
 "A map cell's mean and covariance are the mean and the unbiased sample covariance of exactly the points that fell into it, independent of the order of the points, of how they are split over scans, and of how often statistics are recomputed in between. "
 "With five or more well-spread points a point's likelihood is exp(-d^2/2) for its Mahalanobis distance d from that Gaussian; when the points are nearly collinear the variance across the line is taken as one thousandth of the variance along it.",
 ["inputs", "histories"], "all multisets of points, all insertion orders, all splits into scans, all interleavings of add and compute",
 "Tests check three fixed point lists inserted once; incremental accumulation errors show only for other orders, recomputations and spreads.",
 ["src/ndt_model.cpp", "include/ndt_2d/ndt_model.hpp"],
 [("incremental mean/correlation update", "src/ndt_model.cpp:50"), ("covariance from correlation", "src/ndt_model.cpp:65"), ("dirty flag `valid`", "src/ndt_model.cpp:62")],
 ["Cell::mean", "Cell::covariance", "NDT::likelihood"])

prop("C03", "Every point belongs to exactly one map cell; the map is shift-invariant",
 "The modelled area runs from the given origin over the given size, every point inside it contributes to exactly the one square cell that contains it, and a point outside contributes to none. "
 "A query outside the area, arbitrarily far away or not finite yields 0 and is never confused with some cell inside. "
 "Moving the map origin, the scans and the queries by the same offset leaves all likelihoods unchanged up to rounding.",
 ["inputs", "configurations"], "all cell sizes, extents (also non-multiples of the cell size), origins, points and queries, including huge and non-finite coordinates",
 "One 10x10 grid with one occupied cell is tested; index wrap-around, edge rows, non-square extents and non-finite coordinates are not.",
 ["src/ndt_model.cpp"],
 [("NDT::getIndex", "src/ndt_model.cpp:203"), ("grid dimensions", "src/ndt_model.cpp:118"), ("pose transform in addScan", "src/ndt_model.cpp:132")],
 ["NDT::likelihood"])

prop("C04", "A scan always reports its current pose, points and barycenter",
 "After any sequence of pose and point updates interleaved with reads, a scan reports the last pose and points it was given, and its barycenter is the mean of the points transformed by the current pose, with the orientation of the pose; a scan without points has its pose as barycenter. "
 "The identifier never changes.",
 ["histories", "inputs"], "every sequence of setPose/setPoints/get* operations on any number of scans",
 "The tests set each scan up once before reading; stale cached values appear only when updates follow reads.",
 ["src/scan.cpp", "include/ndt_2d/scan.hpp"],
 [("dirty flag and lazy update", "src/scan.cpp:44"), ("barycenter computation", "src/scan.cpp:72")],
 ["Scan::getBarycenterPose", "Scan::getPose", "Scan::getPoints"],
 [("dirty_", "cached barycenter is stale", "include/ndt_2d/scan.hpp")])

prop("C05", "A constraint encodes the relative pose and the inverse of its covariance",
 "A constraint made between two scans names them in order, carries the pose of the second in the frame of the first (so composing it with the first pose gives back the second, angles modulo a full turn), carries an information matrix that inverts the given covariance, and is not switchable. "
 "For every symmetric positive semi-definite covariance, singular ones included, the information matrix is finite, symmetric and positive definite.",
 ["inputs"], "all pairs of poses and all symmetric positive semi-definite covariances (well-conditioned, badly scaled, singular, zero)",
 "No test creates a constraint from scans at all.",
 ["src/constraint.cpp", "include/ndt_2d/constraint.hpp"],
 [("makeConstraint", "src/constraint.cpp:35")], ["makeConstraint"])

prop("C06", "Graph optimization minimizes the information-weighted constraint error",
 "A successful optimization leaves the scan poses at a minimum of the sum over all constraints of e^T * information * e, where e is the difference between the actual and the constrained relative pose (angle wrapped): never worse than the poses it started from, and recovering the exact poses when all constraints agree. "
 "The first scan stays where it was, and optimizing repeatedly while scans and constraints are appended gives the same result as optimizing the whole graph at once.",
 ["inputs", "histories"], "all connected pose graphs (chains, loops, stars, parallel edges), full non-diagonal information matrices, and all ways of growing the graph between optimizations",
 "The only solver test calls it with no scans, so nothing is ever solved.",
 ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver.hpp", "include/ndt_2d/ceres_solver_pose.hpp"],
 [("PoseGraph2dErrorTerm residual", "include/ndt_2d/ceres_solver_pose.hpp:97"), ("incremental constraint tracking", "src/ceres_solver.cpp:80"), ("first pose held constant", "src/ceres_solver.cpp:88"), ("square root of the information", "src/ceres_solver.cpp:132")],
 ["CeresSolver::optimize", "Scan::getPose"],
 [("nodes_", "solver's private copy of the poses", "include/ndt_2d/ceres_solver.hpp"), ("num_constraints_", "constraints already in the problem", "include/ndt_2d/ceres_solver.hpp")])

prop("C07", "A failed optimization changes nothing and any graph is handled",
 "When optimization reports failure no scan pose has changed, and it reports failure for an empty graph and when constraints, or the poses they mention, are not finite. "
 "It never aborts or corrupts memory for a graph whose constraints refer to existing scans, including graphs with no constraints, with scans no constraint mentions, or with identifiers unrelated to their position; scans no constraint mentions keep their pose.",
 ["inputs", "fault_sequences", "histories"], "all graphs with in-range constraints, finite or not, and all sequences of failing and succeeding optimizations on one solver",
 "The only solver test covers the empty graph.",
 ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver.hpp"],
 [("poses are copied into nodes_ and copied back only when usable", "src/ceres_solver.cpp:94")],
 ["CeresSolver::optimize return value", "Scan::getPose", "process exit status"])

# ---------------------------------------------------------------- particle filter
prop("C08", "The adaptive-sampling tree counts the distinct pose bins",
 "After any sequence of insertions the leaf count equals the number of distinct bins hit since the last clear, where a bin is a box of the configured size in x, y and angle, bins tile space evenly (also across zero), and insertion order, duplicates, and the reserved capacity do not matter.",
 ["inputs", "histories"], "all bin sizes, reservations, pose multisets (also negative and sorted ones), insertion orders and clears",
 "The test inserts five poses.",
 ["include/ndt_2d/kd_tree.hpp"],
 [("discretization of the key", "include/ndt_2d/kd_tree.hpp:98"), ("leaf split", "include/ndt_2d/kd_tree.hpp:133")],
 ["KDTree::getLeafCount"], [("leaf_count_", "number of leaves", "include/ndt_2d/kd_tree.hpp")])

prop("C09", "Motion sampling follows the commanded motion with the configured noise",
 "With all noise parameters zero, every pose is advanced by the commanded robot-centric motion (exactly for motions longer than one centimetre, within two centimetres below that), headings staying in [-pi, pi]. "
 "With noise, the first rotation, translation and second rotation of the samples are normally distributed about the decomposition of the motion with variances a1*rot1^2+a2*trans^2, a3*trans^2+a4*(rot1^2+rot2^2) and a1*rot2^2+a2*trans^2, where a rotation counts by its distance from the nearer of 0 and pi so that driving backwards is not penalized.",
 ["inputs", "configurations"], "all motions (forward, backward, sideways, in-place), headings, and noise parameters; statistical claims over large samples",
 "The test only bounds means of 50 samples within 0.3 for a few motions and one noise setting, and is not even built here.",
 ["src/motion_model.cpp", "include/ndt_2d/motion_model.hpp"],
 [("MotionModel::sample", "src/motion_model.cpp:45")], ["poses passed to MotionModel::sample"])

prop("C10", "The filter's mean and covariance are those of its weighted particles",
 "After every initialization, control update, measurement and resampling the reported mean is the weighted mean of the current particles (circular for the angle), and the reported covariance is their weighted covariance in x and y and weighted angular variance about the mean, symmetric and independent of what happened before. "
 "Initialization spreads the particles normally about the given pose with the given spread, and every particle heading stays in [-pi, pi].",
 ["histories", "inputs"], "every sequence of init/update/measure/resample, any weights, particle counts and headings, including across +-pi",
 "The test checks loose bounds after single steps; drift of statistics over repeated updates is not checked, and the test is not built here.",
 ["src/particle_filter.cpp", "include/ndt_2d/particle_filter.hpp"],
 [("updateStatistics", "src/particle_filter.cpp:163")], ["getMean", "getCovariance", "getMsg"],
 [("cov_", "covariance carried between updates", "include/ndt_2d/particle_filter.hpp")])

prop("C11", "Resampling preserves the weighted distribution and respects the KLD bounds",
 "Resampling draws particles only from the current set with probability proportional to their weights, so the distribution the filter represents (mean and spread) is unchanged in expectation and particles of zero weight disappear. "
 "The number of particles afterwards lies between the configured minimum and maximum and is the first count that satisfies the KLD bound for the number of occupied bins, or the maximum.",
 ["inputs", "configurations"], "all weight vectors, particle sets, min/max counts, and KLD parameters",
 "The test resamples once and checks the mean within 0.4.",
 ["src/particle_filter.cpp", "include/ndt_2d/kd_tree.hpp"],
 [("resample", "src/particle_filter.cpp:91")], ["getMsg", "getMean", "getCovariance"])

prop("C12", "Localization survives any measurement and can recover",
 "Whatever a measurement scores (no points, no overlap with the map, all particles scoring zero or not a number), the filter's particles, mean and covariance stay finite, the particle count stays within bounds, and a later informative measurement again concentrates the estimate on the well-scoring particles.",
 ["fault_sequences", "histories", "inputs"], "every interleaving of degenerate and informative measurements with controls, resamplings and initializations",
 "The test never takes a measurement.",
 ["src/particle_filter.cpp", "src/scan_matcher_ndt.cpp"],
 [("weight normalization", "src/particle_filter.cpp:163"), ("measure", "src/particle_filter.cpp:78")], ["getMean", "getCovariance", "getMsg"])

# ---------------------------------------------------------------- scan matcher
prop("C13", "Scan matching returns the best correction in the configured search window",
 "Matching returns a correction whose x, y and angle lie within the configured search sizes, such that no pose of the search grid centred on the scan's pose scores better than the corrected pose, and the score returned is the score of the scan placed at the corrected pose. "
 "When nothing overlaps, or no map or points exist, the correction is zero, the score is 0, and the scan itself is never modified.",
 ["inputs", "configurations"], "all maps, scans, poses, window sizes and resolutions, beam limits, and histories of map building and reset",
 "There is no test of the scan matcher.",
 ["src/scan_matcher_ndt.cpp", "include/ndt_2d/scan_matcher_ndt.hpp"],
 [("three nested search loops", "src/scan_matcher_ndt.cpp:103"), ("best score update", "src/scan_matcher_ndt.cpp:128")],
 ["ScanMatcherNDT::matchScan", "ScanMatcherNDT::scorePoints"])

prop("C14", "The match covariance is the score-weighted spread of the search",
 "The covariance reported with a match is the covariance of the searched corrections weighted by their scores: symmetric, positive semi-definite, finite for every input, and not dependent on where the scan lies. "
 "When nothing overlaps it is that of the uniform distribution over the search window.",
 ["inputs", "configurations"], "all maps, scans, search windows and degrees of overlap, including none",
 "There is no test of the scan matcher.",
 ["src/scan_matcher_ndt.cpp"],
 [("accumulators k, u, s", "src/scan_matcher_ndt.cpp:85"), ("covariance formula (Olson 2009)", "src/scan_matcher_ndt.cpp:145")],
 ["ScanMatcherNDT::matchScan covariance output"])

prop("C15", "Scan scores use the whole local map, bounded beams, and any placement",
 "The score of a scan or point set is minus the mean map likelihood over at most the configured number of evenly spaced beams placed at the given pose, lies in [-1, 0], is 0 without points or map, and scoring a scan equals scoring its points at its pose. "
 "The map covers every point within the maximum range of any scan it was built from, wherever in the world those scans lie, including all-negative coordinates, with a size set by the extent of the scans and not by their distance from the origin.",
 ["inputs", "configurations", "histories"], "all scan sets, ranges, placements, beam limits, and sequences of reset and rebuild",
 "There is no test of the scan matcher.",
 ["src/scan_matcher_ndt.cpp", "src/ndt_model.cpp"],
 [("bounding box in addScans", "src/scan_matcher_ndt.cpp:49"), ("subsampling in scorePoints", "src/scan_matcher_ndt.cpp:164")],
 ["scoreScan", "scorePoints", "allocation size during addScans"])

# ---------------------------------------------------------------- occupancy grid
prop("C16", "The occupancy map always covers everything drawn into it",
 "For every history of scans being added, moved or replaced between renderings, the rendered map's area contains every scan pose and every scan point, its size and data length agree, its origin is placed so, and rendering never touches memory outside it. "
 "The rendering depends only on the current scans and settings, not on earlier renderings.",
 ["histories", "inputs"], "all sequences of add, move (as optimization does), replace (as map loading does) and render, all poses, fields of view and resolutions",
 "There is no test of the occupancy grid.",
 ["src/occupancy_grid.cpp", "include/ndt_2d/occupancy_grid.hpp"],
 [("updateBounds", "src/occupancy_grid.cpp:154"), ("grid metadata", "src/occupancy_grid.cpp:59")], ["OccupancyGrid::getMsg"],
 [("min_x_..max_y_, num_scans_", "bounds carried between renderings", "include/ndt_2d/occupancy_grid.hpp")])

prop("C17", "Obstacles are drawn where beams end and free space along beams only",
 "Every beam marks exactly the cell in which its point lies as hit and the cells on the straight line before it as passed; a cell is occupied when hits make up more than the threshold share of its touches, free when touched otherwise, and unknown when no beam touched it.",
 ["inputs", "configurations"], "all beam directions and lengths, poses, resolutions and thresholds",
 "There is no test of the occupancy grid.",
 ["src/occupancy_grid.cpp"],
 [("ray tracing loop", "src/occupancy_grid.cpp:92"), ("classification", "src/occupancy_grid.cpp:135")], ["OccupancyGrid::getMsg data"])

# ---------------------------------------------------------------- graph
prop("C18", "Saving and loading a map loses nothing",
 "Loading a saved map yields the same scans in the same order (identifier, pose including heading, every point) and the same constraints (end points, transform, full information matrix, switchable flag), bit for bit, for every graph, and saving leaves the graph unchanged.",
 ["inputs"], "all graphs: any number of scans, points and constraints, empty ones, extreme but finite values, asymmetric matrices",
 "The one test uses two scans and one diagonal constraint, checks neither poses nor point values, and is not built here.",
 ["src/graph.cpp", "msg/Scan.msg", "msg/Constraint.msg"],
 [("Graph::save", "src/graph.cpp:107"), ("loading constructor", "src/graph.cpp:49")], ["Graph(…, filename)", "Graph::save"])

prop("C19", "Nearest-scan search returns exactly the scans within the distance, nearest first",
 "The search returns exactly the indices of the scans (only among the first N when limited) whose reference position lies within the given distance of the query's, in metres, ordered by increasing distance. "
 "The reference position is the barycenter or the pose as configured, always the current one even after scans moved.",
 ["inputs", "histories", "configurations"], "all graphs, distances, limits and both reference modes, interleaved with pose changes",
 "The one test has two scans both in range, and is not built here.",
 ["src/graph.cpp", "include/ndt_2d/graph.hpp"],
 [("KD-tree radius search", "src/graph.cpp:167"), ("GraphAdapter", "include/ndt_2d/graph.hpp:59")], ["Graph::findNearest"])

prop("C20", "The published graph shows every scan and constraint",
 "The graph visualization contains exactly one node marker per scan at its current position and one edge marker per constraint joining the current positions of its two scans, each with a distinct namespace/id pair, in the map frame with the given stamp, and loop-closure edges coloured apart from odometry edges.",
 ["inputs", "histories"], "all graphs",
 "No test renders a graph.",
 ["src/graph.cpp"], [("Graph::getMsg", "src/graph.cpp:191")], ["Graph::getMsg"])

# ---------------------------------------------------------------- mapper
prop("C21", "The mapper's threads never race, corrupt memory or crash",
 "With scan processing, initial poses, configuration requests (enabling, disabling, loading, saving), loop closure and publishing running at the same time in any interleaving, there is no data race, invalid memory access, deadlock or crash, and shutdown completes.",
 ["schedules", "histories"], "all interleavings of the three threads with all callback sequences, with maps loaded at start-up or at run time, in all modes",
 "No test runs the node; its file is not even compiled here.",
 ["src/ndt_mapper.cpp", "include/ndt_2d/ndt_mapper.hpp", "README.md"],
 [("graph_mutex_", "include/ndt_2d/ndt_mapper.hpp"), ("prev_pose_mutex_", "include/ndt_2d/ndt_mapper.hpp"), ("Threading Notes", "README.md")],
 ["ThreadSanitizer and AddressSanitizer reports", "process exit"],
 [("graph_", "map shared by three threads", "include/ndt_2d/ndt_mapper.hpp"), ("prev_odom_pose_/prev_robot_pose_", "localization shared by two threads", "include/ndt_2d/ndt_mapper.hpp")])

prop("C22", "Scan points are where the beams hit, whatever the mounting and motion",
 "For a static world every valid range reading becomes one point which, placed at the robot's pose at the start of the scan, coincides with the place the beam hit, for any laser position, heading and upside-down mounting, any direction of travel and rotation during the scan, and any odometry heading. "
 "Readings that are not finite or exceed the maximum range (the configured one, or else the sensor's) produce no point.",
 ["inputs", "configurations"], "all laser mountings, motions during a scan, headings including across +-pi, and range contents",
 "No test runs the node.",
 ["src/ndt_mapper.cpp"],
 [("point projection and motion compensation", "src/ndt_mapper.cpp:385"), ("range filter", "src/ndt_mapper.cpp:413")], ["points in the saved map"])

prop("C23", "The robot pose follows odometry plus corrections, and the transform agrees",
 "A scan is used only once the robot has moved at least the minimum distance or turned at least the minimum angle since the last used scan; its initial pose is the previous corrected pose advanced by the odometry motion expressed in the map, and its final pose adds the matcher's correction. "
 "Every published map-to-odometry transform equals corrected pose times inverse odometry pose of one and the same localization event, never a mixture of two; while there is a map it is published at least twice a second, with the time of publication.",
 ["histories", "schedules", "inputs"], "all odometry trajectories, corrections, initial poses and thread interleavings",
 "No test runs the node.",
 ["src/ndt_mapper.cpp"],
 [("travel gate and odometry composition", "src/ndt_mapper.cpp:343"), ("prev pose update under lock", "src/ndt_mapper.cpp:541"), ("TF publication", "src/ndt_mapper.cpp:717")],
 ["saved map", "published transforms", "scans passed to the matcher"])

prop("C24", "The map graph is well-formed and connected at every moment",
 "At every moment another thread or a save can observe it, scan identifiers equal their positions, every constraint joins two existing scans, and every scan added by scan matching is joined to its predecessor by a fixed constraint equal to their relative pose and carrying the inverse of the matcher's covariance when it was added (a scan added by an initial pose is joined to the nearest scan instead). "
 "Each new scan is matched against exactly the most recent scans up to the configured rolling depth.",
 ["histories", "schedules", "configurations"], "all scan sequences, rolling depths, save points and interleavings with the background threads",
 "No test runs the node.",
 ["src/ndt_mapper.cpp", "src/constraint.cpp"],
 [("graph append under lock", "src/ndt_mapper.cpp:526"), ("rolling window", "src/ndt_mapper.cpp:503")],
 ["saved map", "published graph", "scans passed to the matcher"])

prop("C25", "Loop closures respect their limits and optimization its pacing",
 "Each mapped scan beyond the initial rolling window is considered for loop closure exactly once, only against scans older than its rolling window, within the global search distance and having points, nearest first and at most the configured number; each candidate is matched against a region made of itself and its neighbours older than that window, and exactly the finite scores better than the running typical score add one switchable constraint joining candidate and scan. "
 "The graph is optimized only after new closures and only when more than the configured number of scans were added since the last optimization, and a scan without usable points never disables later loop closures.",
 ["histories", "configurations", "schedules"], "all trajectories, search distances, limits, depths, score sequences",
 "No test runs the node.",
 ["src/ndt_mapper.cpp"],
 [("loopClosureThread", "src/ndt_mapper.cpp:569"), ("typical_matcher_response_", "src/ndt_mapper.cpp:518")],
 ["scans passed to the matcher", "saved map", "published graph"])

prop("C26", "Localization uses the whole map and never changes it",
 "While localizing (particle filter, or mapping disabled), scans are matched against a map built from all scans of the current graph, which nothing else disturbs: whether the graph came from a file at start-up, was loaded at run time, or was mapped before mapping was disabled. "
 "Localizing never adds, removes or moves scans or constraints.",
 ["histories", "schedules", "configurations"], "all sequences of mapping, disabling, loading and localizing in both localization modes, with the loop-closure thread running",
 "No test runs the node.",
 ["src/ndt_mapper.cpp", "README.md"],
 [("global scan matcher construction", "src/ndt_mapper.cpp:295"), ("loop closure reuses the global matcher", "src/ndt_mapper.cpp:633")],
 ["scans passed to the matcher", "saved map"])

prop("C27", "Scans are refused until localized; requests do exactly what they say",
 "After loading a map or disabling mapping, no scan is used until an initial pose in the map frame is accepted; an initial pose is ignored while mapping is under way, when given in another frame, when odometry is unavailable, or (when mapping) when no scan of the map is within reach, and then changes nothing. "
 "An accepted pose becomes the robot's pose (with the particle filter, the particles are spread about it with the given covariance) and, when mapping, is tied to the nearest scan by a constraint with the given covariance; a save writes the current graph, and a load replaces it entirely, nothing of the former map affecting later results. A load or save that fails changes nothing and does not end the node.",
 ["histories", "fault_sequences", "configurations"], "all sequences of configure requests, initial poses, scans, and transform failures",
 "No test runs the node.",
 ["src/ndt_mapper.cpp", "srv/Configure.srv"],
 [("configure", "src/ndt_mapper.cpp:155"), ("poseCallback", "src/ndt_mapper.cpp:188"), ("localization gate", "src/ndt_mapper.cpp:315")],
 ["saved map", "published transforms", "particle cloud"])

prop("C28", "Published maps catch up with every change",
 "After any change to the map (a scan added, a loop closure, an optimization, a load), within one publishing cycle the occupancy map and the graph are published for the graph as it is after the change, in the map frame and with the time of publication; a change made while a publication is in progress is not lost, and a viewer that starts later is given the latest occupancy map.",
 ["schedules", "histories"], "all interleavings of map changes and publishing cycles",
 "No test runs the node.",
 ["src/ndt_mapper.cpp"],
 [("map_update_available_ flag", "src/ndt_mapper.cpp:691")], ["published map and graph"])

prop("C29", "No laser message can crash the node or damage later results",
 "Any sequence of laser messages (no readings, no finite readings, all readings out of range or zero, missing transforms) neither crashes the node nor puts non-finite values into the map, the pose, the transform or the particles, and once good scans resume mapping, optimization, loop closure and localization work as they would have otherwise.",
 ["fault_sequences", "inputs"], "all interleavings of degenerate and normal laser messages and transform failures, in every mode and mounting",
 "No test runs the node.",
 ["src/ndt_mapper.cpp", "src/scan_matcher_ndt.cpp", "src/particle_filter.cpp", "src/constraint.cpp"],
 [("range filter", "src/ndt_mapper.cpp:413"), ("transform error handling", "src/ndt_mapper.cpp:327")],
 ["saved map", "published transforms, map and particles", "process exit"])

prop("C30", "The operator scripts request exactly the action they are named after",
 "Each command-line script sends exactly one request to the configuration service: enabling mapping, disabling mapping, loading the named file, or saving to the named file, with the action code the service defines and no other action bit set, waiting until the service is available and until the reply arrives.",
 ["inputs", "fault_sequences"], "all file names and service start-up delays",
 "The scripts are only parsed, never run.",
 ["scripts/enable_mapping.py", "scripts/disable_mapping.py", "scripts/load_map.py", "scripts/save_map.py", "srv/Configure.srv"],
 [("request construction", "scripts/load_map.py")], ["requests received by the service"])

prop("C31", "Filter, matcher and timeout parameters act on exactly what they name",
 "With the particle filter, the spread of the particles after a motion is that of the odometry noise configured (odom_alpha1 to odom_alpha4, each in its own role), and their number stays within min_particles and max_particles and follows the sampling bound of kld_err and kld_z. "
 "Mapping matches scans by a matcher set up from the local_scan_matcher parameters, localization and loop closure by one set up from the global_scan_matcher parameters, each unaffected by the parameters of the other and both given max_range (the range of the sensor's message when negative) as range. "
 "A scan is used if its transform becomes available within transform_timeout, and refused otherwise. With no parameter set at all the node maps with the NDT matcher, publishing map, graph and the map to odom transform.",
 ["configurations", "inputs"], "all combinations of parameter values, motions, transform delays, and modes",
 "No test runs the node, and parameters read under a wrong name or handed on in a wrong place go unnoticed whenever values are equal.",
 ["src/ndt_mapper.cpp", "src/scan_matcher_ndt.cpp", "src/motion_model.cpp", "src/particle_filter.cpp"],
 [("parameter declarations", "src/ndt_mapper.cpp:63"), ("matcher set-up", "src/ndt_mapper.cpp:300"), ("matcher parameters", "src/scan_matcher_ndt.cpp:36"), ("waiting for transforms", "src/ndt_mapper.cpp:325")],
 ["particle cloud", "calls to the matchers", "saved map", "published transforms"])

prop("C32", "A robot maps its surroundings, and finds itself in the saved map",
 "With noisy, slowly drifting odometry and noisy laser readings of a static room rich in structure, the pose given by the published transform stays near the true one while mapping; the published occupancy map shows the walls where they are, the space the beams crossed as free, and nothing of places never seen; scans sent after sufficient travel are all mapped. "
 "A fresh node that loads the saved map publishes the same occupancy map, and from an approximate initial pose anywhere in it tracks the true pose whether it matches scans, filters particles, or continues to map (which adds its scans to the map loaded; the others leave it as it is).",
 ["inputs", "histories", "configurations"], "all rooms with structure in every direction, laser mountings, directions of travel, odometry frames, and places to start from",
 "Tests look at single classes with hand-made points; whether the parts work together is visible only in whole runs.",
 ["src/ndt_mapper.cpp", "src/scan_matcher_ndt.cpp", "src/ndt_model.cpp", "src/graph.cpp", "src/ceres_solver.cpp", "src/occupancy_grid.cpp", "src/particle_filter.cpp"],
 [("laserCallback", "src/ndt_mapper.cpp:270"), ("loopClosureThread", "src/ndt_mapper.cpp:640"), ("mapPublishThread", "src/ndt_mapper.cpp:800")],
 ["published transforms", "published map", "saved map"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
