"""The properties: text for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (see gen.py)."""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, design, state=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, design=design, state=list(state), observe=list(observe), na=na))


P("C02", "Map bookkeeping: matches, candidates and features are accounted for",
  "Whatever sequence of frames a map is given (detections, no detection, indistinguishable detections, failed updates, "
  "outlier matches, failed tracking, refused covariances, moving features, resets), every detection is matched to map "
  "features only by a search that was allowed to use it, an outlier match never updates a feature, every usable detection "
  "that no feature used becomes exactly one new candidate, and no identifier is ever given to two features. "
  "Candidates take part in the pose only while the validated map gives fewer than three times the matches asked for, and the "
  "features reported as tracked are exactly the visible ones that the last frame really matched. "
  "A feature leaves a map only by being lost, promoted, upgraded or reset; a refused or failed operation changes nothing "
  "in the other features, and every operation ends.",
  ["histories", "fault_sequences"],
  "every sequence of up to 5 (thorough: 6) frames over an alphabet of 18 frame kinds on one map, every continuation of up to "
  "4 (5) frames of 5 populated maps, of up to 3 (4) frames when 2 or 3 matches are asked for, and every sequence of up to 4 (5) of 12 frame kinds on two composed maps from 3 starting points",
  "No test of the repository instantiates a map: the 58 tests cover the pose optimiser, filters, polygons and coordinates only.",
  ["src/map_management/feature_map.hpp", "src/map_management/local_map.hpp", "src/matches_containers.hpp"],
  [("two pass matching, validated features before candidates", "feature_map.hpp get_matches"),
   ("outliers reset the match flags before the update", "feature_map.hpp mark_outliers_as_unmatched"),
   ("update, loss, promotion, staging", "feature_map.hpp update_map / update_local_map / update_staged_map / add_features_to_staged_map"),
   ("upgrade of 2D features", "local_map.hpp update / feature_map.hpp get_upgraded_features")],
  "explicit-state exploration of all bounded frame histories on the real map templates against a reference model",
  "Exhaustive within the bounds on the real templates compiled from /repo with synthetic feature types that follow the "
  "documented interface of a map feature; the reference model is checked against the code on every step of every history.",
  "The real map templates (one map; two maps composed in a local map) are instantiated with synthetic features whose "
  "answers (search result, update result, visibility, moving, promotion refused, upgradable) are chosen by the letter of the "
  "frame.  A reference model in the harness predicts the set of candidates and validated features with their counters; "
  "after every frame the match list, the calls that the map made on the features, the created candidates, the sizes, the "
  "tracked and drawn features are compared with the model.  Every word over the alphabet up to the bound is run. "
  "A hang is a violation (this is how the infinite loop repaired by 'fix: do not loop forever...' was found).",
  observe=["match list", "features created / updated / written", "map sizes", "tracked and drawn features"])

P("C03", "Exported map files are well formed and hold every feature once",
  "For every sequence of exported points, lines and polygons, the OBJ file contains exactly one element per exported feature, in order, "
  "each referring only to vertices already defined in the file and reproducing the exported geometry; XYZ and PCD files list "
  "exactly the exported points. "
  "Over any session history each validated static feature is exported exactly once, when it leaves the map or at the end of "
  "the session; candidates and features found to be moving are never exported.",
  ["histories", "inputs"],
  "every sequence of up to 4 (thorough: 6) export calls out of 10 kinds for OBJ, 3 (5) for XYZ and PCD; every bounded frame history of C02 with the real file read back",
  "No test writes or reads a map file.",
  ["src/outputs/map_writer.cpp", "src/outputs/map_writer.hpp", "src/map_management/local_map.hpp", "src/map_management/feature_map.hpp"],
  [("vertex counter of the writer", "map_writer.cpp OBJ_Map_Writer"), ("features written when lost and at destruction", "feature_map.hpp update_local_map, destroy")],
  "exhaustive enumeration of export call sequences and frame histories, files parsed by an independent reader",
  "Exhaustive within the bounds; the file is parsed by a reader of the harness that resolves vertex references.",
  "Every sequence of export calls up to the bound is sent to the real writers; the resulting file is read back by a small "
  "independent parser that resolves indices and compares the geometry.  The history half replays the histories of C02 on two "
  "composed maps with the real writer and counts each feature in the file.",
  observe=["map file"])

P("C10", "Coordinate frames: points, poses and motions convert back and forth consistently",
  "For every camera pose and camera configuration, converting a point between screen, camera and world frames follows the "
  "documented pinhole model and axes, and going there and back returns the same point with its depth. A point is given a valid "
  "screen position only if it is finite. Rotations, quaternions and Euler angles "
  "describe the same orientation both ways, transformation matrices are rigid and their inverse undoes them, and composing or "
  "moving poses is exact and never leaves a pose with a non unit orientation.",
  ["inputs", "configurations"],
  "every point of a pixel x depth grid (image borders, sub pixel, depth limits) for 66 rotations x 8 positions x 5 camera configurations; "
  "every pair of the 66 rotations; every Euler triple of the angle grid; every sequence of up to 4 (thorough: 5) out of 10 pose motions",
  "The tests convert a handful of points for a few poses; a sign or axis slip for one octant, or at one border, is invisible to them.",
  ["src/coordinates/point_coordinates.cpp", "src/coordinates/basis_changes.cpp", "src/utils/camera_transformation.cpp", "src/utils/pose.cpp", "src/utils/angle_utils.cpp"],
  [("camera to world and back", "camera_transformation.cpp get_camera_to_world_transform / get_world_to_camera_transform"),
   ("pinhole projection", "point_coordinates.cpp to_screen_coordinates / to_camera_coordinates"),
   ("pose algebra", "pose.cpp Pose, PoseBase")],
  "exhaustive enumeration of a lattice of poses, points and configurations on the real code against an independent reference",
  "Exhaustive on the stated lattice of inputs (all 24 axis aligned orientations and 42 others, all octants, all borders), real code, independent closed form oracle; inputs between lattice points are not executed.",
  "The harness recomputes each conversion from the documented axes (x right, y down, z forward in the camera; x forward, y left, z up in the world) "
  "and the pinhole formulas with the parameters it wrote in the configuration file, and compares every point of the grid; round trips are compared "
  "with the input.  Pose motions are explored as operation sequences against a reference pose held as matrices.",
  observe=["coordinates returned", "validity flags", "matrices"])

P("C11", "Planes and polygons keep their geometry in every frame",
  "For every plane, polygon and camera pose, moving a plane between camera and world keeps its unit normal and the set of points on it; "
  "point to plane distances agree in both frames. Moving a polygon between frames and back keeps its shape, area, centre and "
  "supporting plane, and a polygon is reported as visible exactly if it is in front of the camera and its projection meets the image (one wholly behind the camera never is). Any "
  "unit normal, however obtained, is accepted; none of these operations ends the program.",
  ["inputs", "configurations"],
  "every normal of the lattice [-2,2]^3 x 66 rotations x 8 positions, 3 polygon shapes each; about 120000 unit directions from a lattice [-k,k]^3; every placement of a polygon of a 3D grid in front of, around and behind 5 camera configurations",
  "The tests use a few fixed planes and one polygon; the failing normals are one in tens of thousands.",
  ["src/coordinates/plane_coordinates.cpp", "src/coordinates/polygon_coordinates.cpp", "src/utils/polygon.cpp", "src/utils/distance_utils.hpp"],
  [("plane frame change", "plane_coordinates.cpp to_world_coordinates / to_camera_coordinates"),
   ("polygon frame change", "polygon_coordinates.cpp"), ("unit normal checks", "distance_utils.hpp unitNormTolerance")],
  "exhaustive enumeration of a lattice of planes, polygons and poses on the real code against an independent reference",
  "Exhaustive on the stated lattice, real code, independent oracle (points on the plane are moved one by one by the reference transformation).",
  "Points of each plane are moved by the reference transformation of C10 and must satisfy the equation of the moved plane; polygons are compared vertex by vertex in 3D.",
  observe=["plane parameters", "polygon vertices", "area", "visibility"])

P("C15", "Lines and segments: distances, clamping to the image and intersections are exact",
  "For every line or segment and every point, the distance and the closest point are those of the line that carries it, and the distance "
  "between two lines (crossing, skew, parallel or equal up to rounding) is the geometric one. Clamping a segment to the image succeeds exactly when a part of it is in the image and returns that "
  "part: inside the image, on the segment, nothing visible lost. Two segments intersect exactly when they cross, at the crossing point.",
  ["inputs"],
  "every line and segment with ends on a 2D lattice and a 3D lattice against every point of the lattice, every pair of 3D lines, every segment between the points of a grid in and around the image, every pair of segments of a 5x5 lattice",
  "The tests check a few lines; clamping and intersections have no test at all.",
  ["src/utils/line.cpp", "src/utils/line.hpp"],
  [("distance to a line or segment", "line.hpp ILine / Line / Segment distance"), ("clamping", "line.cpp clamp_to_screen"), ("intersection", "line.cpp intersects")],
  "exhaustive enumeration of lattice segments on the real code against an exact reference",
  "Exhaustive on the stated lattices, real code; the oracle clips and intersects by its own exact parametrisation.",
  "All pairs within the lattices; reference clipping of the segment against the image rectangle (Liang-Barsky), reference closest points by projection.",
  observe=["distances", "clamped segment", "intersection point"])

P("C07", "The Kalman filter is the textbook filter and refuses impossible input",
  "For every system (state and measure sizes, dynamics, observation, noise) and every sequence of measurements, the state and covariance after "
  "each update are those of the textbook linear Kalman filter, the covariance stays symmetric and positive, and whether state is kept in "
  "the filter or passed in makes no difference. A measurement with an invalid covariance (asymmetric, negative, not finite) is refused "
  "with an error and leaves the filter exactly as it was; a filter that was not initialised refuses to work.",
  ["histories", "inputs"],
  "every sequence of up to 4 (thorough: 5) measurements out of 9 valid and 3 invalid kinds and one that changes the dynamics, for 5 state/measure sizes x 18 systems, and every combination of 6 certainty levels of state, measure and process",
  "The tests of the filter run a few noisy series and only check that the result converges.",
  ["src/tracking/kalman_filter.hpp"],
  [("prediction and correction", "kalman_filter.hpp SharedKalmanFilter::get_new_state"), ("state keeping", "kalman_filter.hpp KalmanFilter")],
  "exhaustive enumeration of measurement sequences on the real filter in lock step with an extended precision reference",
  "Exhaustive within the bounds, real code, reference in long double with the Joseph form and its own matrix inversion.",
  "The reference filter runs beside the real one on every word; after each letter state and covariance must agree to 1e-7, refused letters must "
  "leave bit identical state.  A certain measurement (variance more than 1e9 smaller than the state's) may be refused because of rounding; it "
  "may never produce an invalid covariance.",
  observe=["state", "covariance", "exceptions"])

P("C09", "The motion model predicts the next pose from the motions it was shown",
  "For every sequence of poses, the motion model predicts the current pose moved by half the last motion plus half the previous velocity, "
  "in position and in rotation, in the world frame in which the motion was observed; it never returns a non unit orientation, and it adds "
  "its uncertainty only when asked. A constant motion is learnt from any starting orientation: the prediction converges to the next pose. "
  "Before the first pose and after a reset it predicts the current pose.",
  ["histories", "inputs"],
  "every sequence of up to 4 (thorough: 6) motions out of 6, resets and resets to a pose, from 8 orientations in 4 modes; 40 repetitions of every motion, in the frame of the camera and of the world, from every one of 66 orientations",
  "The tests of the motion model cover a still camera, a constant translation and one rotation from the identity.",
  ["src/tracking/motion_model.cpp", "src/tracking/motion_model.hpp"],
  [("prediction", "motion_model.cpp predict_next_pose"), ("velocity", "motion_model.cpp update_model")],
  "exhaustive enumeration of motion sequences on the real model in lock step with a matrix reference",
  "Exhaustive within the bounds, real code; the reference keeps rotations as matrices and uses its own logarithm and half rotation.",
  "Each word of motions and resets is given to the real model and to the reference; prediction, velocities and variance are compared after each.",
  observe=["predicted pose", "velocities"])

P("C12", "Points of unknown depth stay on the ray on which they were seen",
  "For every camera configuration, pose and pixel, a point observed without depth is represented by the ray that leaves the camera through "
  "that pixel: the estimate, the closest and the furthest bound all lie on it, in this order, at the inverse of the inverse "
  "depth and of its three sigma bounds (never behind the camera, never infinite). With a depth it is the observed point, and conversion to inverse depth form and back, from "
  "any origin, returns it with consistent first order derivatives. Its distance to a pixel of any other "
  "view is the distance to the projection of the segment between its bounds, and to another ray the distance between lines.",
  ["inputs", "configurations"],
  "every pixel x depth x deviation of a grid for 5 configurations x 66 rotations x 8 positions; every pair of 20 x 20 observations; derivatives on 216 points x 8 origins; every combination of 378 constructor arguments",
  "The tests check a few conversions with a fixed set of poses.",
  ["src/coordinates/inverse_depth_coordinates.cpp", "src/coordinates/inverse_depth_coordinates.hpp", "src/utils/line.hpp"],
  [("angles and bearing", "inverse_depth_coordinates.cpp compute_bearing_vector, from_cartesian"), ("bounds", "get_closest_estimation, get_furthest_estimation"),
   ("distances", "compute_signed_screen_distance, compute_signed_distance")],
  "exhaustive enumeration of a lattice of observations on the real code against an independent reference",
  "Exhaustive on the stated lattice, real code, closed form oracle computed from the camera model; derivatives against central differences.",
  "The harness computes the ray from the pinhole formulas and the pose matrix, and the distance of each returned point to it. Projections of both bounds into a second view are compared with the reference projection.",
  observe=["estimates", "bounds", "screen segments", "distances", "jacobians"])

P("C13", "Uncertainties are propagated to first order and are always valid covariances",
  "For every point, plane, pose and camera configuration, the covariance given to an observation in screen, camera or world frame is the first order "
  "propagation of the covariances it derives from (camera correlations up to their sign), is symmetric and positive, and grows with depth. The validity test accepts a matrix "
  "exactly if it is finite, symmetric and positive semi-definite up to rounding; invalid arguments of the plane covariance functions are refused.",
  ["inputs", "configurations"],
  "every pixel x depth x covariance of a grid for 5 configurations x 66 rotations x 2 positions; every normal of a lattice of 125 x 66 rotations x distances; 42875 symmetric 3x3 matrices with all one entry corruptions; 20001 depths",
  "The tests check that two or three covariances have positive diagonals.",
  ["src/utils/covariances.cpp", "src/utils/covariances.hpp"],
  [("propagation", "covariances.cpp get_world_point_covariance, get_camera_point_covariance, get_screen_point_covariance, get_world_plane_covariance"), ("validity", "covariances.hpp is_covariance_valid"),
   ("depth noise", "covariances.cpp get_depth_quantization")],
  "exhaustive enumeration of a lattice of points, planes, poses and matrices on the real code against reference jacobians",
  "Exhaustive on the stated lattice, real code; reference derived from analytic jacobians of the camera model in the harness.",
  "Reference J S J^T with jacobians of the harness; magnitudes of camera correlations only (the code drops their sign); every matrix of the validity lattice is judged by its smallest eigenvalue (a margin around zero is not judged).",
  observe=["covariances", "validity"])

P("C14", "Planar polygons behave as the sets of points that they bound",
  "For every pair of polygons in a plane, in whatever frames they are expressed, the areas of intersection and union, the intersection over union and the "
  "containment of points are those of the sets of points they bound, the same in both orders. Merging an observation in a polygon gives their union (the biggest part if it is in several "
  "parts), in the frame of the first and valid. A boundary fitted to points has its corners "
  "within their convex hull and an area no larger, it covers points in convex position exactly, and fewer than three points make no polygon.",
  ["inputs", "histories"],
  "every pair of the simply connected polyominoes of a 3x3 grid, in 4 frames, aligned and shifted; every sequence of 3 (thorough: 4) merges of 3x2 polyominoes; every subset of a 4x3 (5x3, 4x4) lattice of points",
  "The tests use a few squares; coincident edges, holes, several parts and opposite normals are not covered.",
  ["src/utils/polygon.cpp", "src/utils/polygon.hpp", "third_party/concave_fitting.cpp"],
  [("set operations", "polygon.cpp merge, union, inter_area, inter_over_union"), ("fit", "polygon.cpp compute_convex_hull, compute_concave_hull")],
  "exhaustive enumeration of small polygons, merge sequences and point sets against exact cell sets",
  "Exhaustive within the bounds, real code; the oracle represents the polygons as exact sets of cells.",
  "Polygons are unions of cells of two lattices, so that intersections, unions and their connected parts are exact sets of rectangles; the real operations are compared on area and on the containment of the centre of each cell.",
  observe=["areas", "containment", "boundary"])

P("C08", "Landmarks are the optimal fusion of their observations; refusals leave no trace",
  "For every sequence of observations, a tracked point, inverse depth point or plane is at the position (and has the covariance) "
  "that a textbook Kalman filter gives for these observations, whatever happens to the other landmarks, and the returned score "
  "is the distance by which it moved. An observation that cannot be used (invalid depth, invalid covariance) is reported as "
  "refused and changes nothing. A landmark is declared moving exactly when its last observation is further than the "
  "observation's uncertainty along some axis, in either direction. An inverse depth point keeps the pose and the pose "
  "uncertainty of its first observation for ever and starts with the documented uncertainty; a plane keeps a unit normal and a "
  "boundary that lies in the plane and covers the previous boundary and the observed one. A copy of a landmark is the same landmark.",
  ["histories", "inputs"],
  "every sequence of up to 3 (thorough: 4) observations out of 17 kinds for points (4 starts), 3 (4) out of 16 for inverse depth points "
  "(7 starts), 3 (5) out of 10 for planes (6 starts)",
  "The tests of the repository never update a landmark twice, and never give one an invalid observation.",
  ["src/tracking/point_with_tracking.cpp", "src/tracking/inverse_depth_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp"],
  [("fusion of a point", "point_with_tracking.cpp Point::track"), ("fusion of an inverse depth point", "inverse_depth_with_tracking.cpp track / update_with_cartesian"),
   ("fusion of a plane and of its boundary", "plane_with_tracking.cpp Plane::track / update_boundary_polygon")],
  "exhaustive enumeration of bounded observation sequences on the real classes against a reference filter, step by step",
  "Exhaustive within the bounds on the real classes; the reference (long double, Joseph form, own linear algebra) is compared "
  "with the implementation after every observation of every sequence. A point exactly above the first camera of an inverse depth "
  "point (no derivative there) is only checked for refusals.",
  "Every sequence over the alphabet of observations (same place, within the noise, beyond it along each sign of each axis, without depth, "
  "wrong depth, invalid depth, invalid covariances, no descriptor, from several camera poses) is applied to the real objects; "
  "two points advance in lock step on different words to see that the shared filter carries nothing over.  After every "
  "observation position, covariance, score, moving flag, descriptor, first observation, boundary, derived covariances and the "
  "linearity score are compared with the reference.",
  observe=["coordinates", "covariance", "score", "moving flag", "boundary polygon"])

P("C21", "Keypoint matching finds what an exhaustive search would find",
  "For every arrangement of detected keypoints, image size and query position (including next to and outside the image borders), the match "
  "of a map point is the one that a search over all detected keypoints gives: among the keypoints that are not matched yet and "
  "within the requested radius (normal or enlarged), the one with the closest descriptor, refused when a second one is too similar "
  "(ratio test). Tracked keypoints are found by the identifier of their map point, each keypoint has the depth of its pixel, and a new "
  "frame forgets everything of the previous ones.",
  ["inputs", "histories"],
  "5 image sizes x 10 queries x every pair (thorough: triple) of 104 keypoint kinds x 2 radii; dense grids of keypoints with 25 x 41 queries; "
  "every sequence of up to 4 (6) frames out of 6 kinds",
  "The keypoint code is not even built by the tests of this environment.",
  ["src/features/keypoints/keypoint_handler.cpp", "src/features/keypoints/keypoint_handler.hpp"],
  [("search space of cells and mask", "keypoint_handler.cpp compute_key_point_mask / fill_keypoint_mask"), ("ratio test", "keypoint_handler.cpp get_match_indexes"),
   ("tracking identifiers", "keypoint_handler.cpp get_tracking_match_index")],
  "exhaustive enumeration of small keypoint arrangements and frame histories on the real container against a brute force search",
  "Exhaustive within the bounds on the real class with the real OpenCV matcher.",
  "Keypoints are placed on every offset of a set that surrounds the radii (just inside, just outside, diagonal, other cells of the search "
  "space), with descriptors at distances around the ratio, free or already matched; the answer of the real search is compared with a "
  "loop over all keypoints.",
  observe=["match indexes", "keypoints", "tracking indexes"])

P("C05", "The pose search gives the best consensus whatever the threads do",
  "For every schedule of the threads that search the pose: no data race, no deadlock, every wanted candidate is tried (unless one "
  "already agrees with more than the documented share of the matches), and the result is the one of the candidate with the most inliers among "
  "those that were evaluated; the returned inliers are exactly those of this candidate, inliers and outliers share the matches "
  "without overlap, the pose is the optimum for the inliers, and the search fails exactly when no candidate has enough inliers. "
  "The covariance of a pose is the sample covariance of the poses found for the random variations of its matches, whatever the order in which "
  "they end and in whatever turn the angles are expressed, and it is refused when too few variations have a pose.",
  ["schedules", "inputs"],
  "9 patterns of agreeing matches x 2 scores x 2-3 workers x 3 ways of sharing the iterations, every schedule with 1 delay; "
  "covariance: every set of failing variations of 2 to 6 variations, every schedule with 1-2 (thorough: 3) delays, 6 orientations",
  "The tests run the search once per case on whatever schedule comes, and ignore the inliers and the covariance.",
  ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp", "src/utils/pose.cpp", "src/utils/random.cpp"],
  [("consensus search", "pose_optimization.cpp compute_pose_with_ransac"), ("covariance by variations", "pose_optimization.cpp compute_pose_variance"),
   ("inliers and outliers", "pose_optimization.cpp get_features_inliers_outliers")],
  "stateless exploration of the real code under a controlled scheduler (delay-bounded, exhaustive within the bound) with happens-before race detection",
  "The code of the repository is compiled with the access hooks of -fsanitize=thread (the hooks are ours) and runs on real threads of which one "
  "advances at a time; tbb::parallel_for is replaced by an equivalent whose workers and sharing of the iterations are enumerated. "
  "Bounded number of delays: schedules that need more preemptions than the bound are not explored, but the race detection covers "
  "them when the accesses are reached.",
  "Matches are stand-ins that vote for a camera pose, so that the consensus of each candidate is known; they also record which candidates were "
  "evaluated and with which inliers.  Every schedule within the delay bound is executed on the real compute_optimized_pose and compute_pose_variance.",
  observe=["pose", "inlier set", "outlier set", "covariance", "return value"])

P("C06", "The pose optimisation recovers the pose of the camera from its matches",
  "For every pose of the camera (any rotation, half turns included) and every start in its neighbourhood, exact matches "
  "(points, points of unknown depth, planes, or mixtures that reach the minimum score) give back this pose, the outliers are exactly the wrong matches, and the "
  "covariance of the pose is valid and grows in proportion to the uncertainty of the matches. Too few matches, an invalid match or an "
  "invalid start are refused. Rotations survive the conversion to optimisation coefficients and back, and the derivative of that "
  "conversion is the true one.",
  ["inputs"],
  "66 rotations x 2 positions x 6 starts x 6 kinds of scene; every set of 1-2 (thorough: 3) wrong matches out of 10, 2 kinds of scene, 4 rotations; "
  "every truncation of a scene, an invalid match in every place, every invalid component of the start; 39000 rotations for the conversion",
  "The tests optimise a few fixed poses and accept large errors; the wrong matches they add are never looked for in the result.",
  ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp", "src/map_management/map_features/"],
  [("pose search", "pose_optimization.cpp compute_optimized_pose"), ("parametrisation of rotations", "levenberg_marquardt_functors.cpp get_optimization_coefficients_from_quaternion")],
  "exhaustive enumeration of poses, starts, scenes and sets of wrong matches on the real optimisation",
  "Exhaustive over the grid, real code compiled with MAKE_DETERMINISTIC (the schedules of the parallel version are the subject of C05); each "
  "execution starts from the initial state of the random generator. The scenes are well conditioned; the convergence from starts far away is not claimed.",
  "The scene is given by points and planes in front of the camera that has to be found; matches are computed by an independent projection. "
  "After each optimisation the pose, the two sets and the covariance are compared with the truth.",
  observe=["pose", "inliers", "outliers", "covariance", "return value"])

P("C25", "Matches given to the optimisation measure the true reprojection error",
  "For every camera pose, map feature and observation: the residual of a match is the difference between the observation and the projection of the map "
  "feature (pixels for a point, pixels to the projected segment of a point of unknown depth, difference of the closest points to the camera for a "
  "plane); a match is an inlier exactly when its error is within the documented limits on every side (3 pixels in sum of both axes "
  "for a point in front of the camera, 3 per axis for a point of unknown depth, 0.2 on each "
  "normal component and 50 mm for a plane). A random variation is the same match, moved only where the map feature is uncertain and in proportion, and the documented minimum of "
  "features of a kind (5, 5, 3), and no less, is enough for an optimisation. Values that are not numbers or negative deviations are reported as invalid.",
  ["inputs"],
  "66 rotations x 3 positions x 12 points (6 behind the camera) x 196 offsets, x 60 pairs of views x 48 offsets, x 25 planes x 168 differences; every set of null "
  "deviations; every invalid component; every count up to 8, 8, 5",
  "The tests only use these classes through an optimisation that averages over their errors.",
  ["src/map_management/map_features/map_point.cpp", "src/map_management/map_features/map_point2d.cpp", "src/map_management/map_features/map_primitive.cpp", "src/coordinates/"],
  [("point", "map_point.cpp PointOptimizationFeature"), ("point of unknown depth", "map_point2d.cpp Point2dOptimizationFeature"), ("plane", "map_primitive.cpp PlaneOptimizationFeature")],
  "exhaustive enumeration of a grid of poses, features and offsets against an independent projection",
  "Exhaustive over the grid, real classes. Views from which the ray of a point of unknown depth is seen as a single pixel are left out.",
  "The observations are placed at offsets that surround each limit on both sides of each axis; the residuals, the inlier decision, the identifiers, "
  "the validity and the variations of the real objects are compared with the reference.",
  observe=["residuals", "inlier decision", "variations", "validity", "score"])

P("C01", "The map follows the life of its landmarks",
  "For every history of frames (landmarks seen or not in any order, with or without depth, displaced, tracked, wrong matches, frames without a pose, resets): a landmark "
  "that is seen is matched with its own map feature and no other, each detection and each map feature is used at most once, and established features are preferred to candidates. "
  "An unmatched detection becomes a candidate; a candidate is established after the documented number of matches (net count 3 for points, 4 for planes) and only on frames "
  "with a pose, and leaves when it is not seen again (points: net count back to 0, planes: 2 misses in a row); an established feature leaves after more than 10 misses "
  "in a row for points, 10 for planes, and is then written, once, where it is; at the end all established features are written (those found moving are never written). "
  "Identifiers are never reused, wrong matches do not count, a pose without valid covariance or a frame without pose adds nothing, a landmark that moved is not matched. "
  "Only landmarks in front of the camera and inside the image are matched or tracked. A landmark of unknown depth whose position becomes known becomes a point at that place.",
  ["histories", "inputs"],
  "all words of up to 3 (thorough: 4) frames over 13 kinds of frames after 6 prefixes, still or moving camera; planes: 11 kinds of frames after 4 prefixes; "
  "whole map: 9 kinds of frames, 4 (thorough: 5) frames, 2 prefixes; 66 rotations x 3 positions x 6 offsets of views; 4096 sets of detections around one landmark, 8192 pairs of planes",
  "The tests never build a map: the features, their matching and the life of the map have no test.",
  ["src/map_management/", "src/features/keypoints/keypoint_handler.cpp", "src/tracking/", "src/matches_containers.hpp"],
  [("life of the features", "feature_map.hpp Feature_Map"), ("all maps", "local_map.hpp Local_Map::update"), ("matching", "map_point.cpp, map_point2d.cpp, map_primitive.cpp find_matches"),
   ("promotion and loss", "StagedMapPoint::should_add_to_local_map, LocalMapPoint::is_lost and the equivalents of the other kinds")],
  "explicit-state model of the life of the landmarks, run in lockstep with the real maps on every bounded history",
  "Exhaustive over the histories within the bound; every transition is executed on the real classes and compared with the model (sizes, matches, identifiers, written landmarks, tracked points). "
  "Left unspecified (the execution stops there, and is counted): a candidate promoted by an observation at another place, a displaced observation without depth, two candidates of the same plane whose identifiers are unknown.",
  "A model with one counter pair per landmark is advanced by the same letters as the real localPointMap, localPoint2DMap, localPlaneMap and Local_Map; detections are "
  "computed by an independent projection. After each frame the observable state of both is compared.",
  observe=["map sizes", "matches", "identifiers", "tracked points", "written landmarks"])

P("C16", "The planes of a depth image are found, once each, with their true limits",
  "For every arrangement of planar regions of enough cells (at least 6 cells and 1 percent of the grid) with measurement noise within the sensor model: the detector returns exactly one plane per connected region of a same "
  "plane, none where there is no planar region, with the normal, distance and covariance of the fit of the points of that region; its limits lie on the plane and on the "
  "border cells of the region. Neighbour cells that differ by more than 18 degrees or 50 mm are separate planes, regions in contact that are one plane as a whole are merged once, cells that lack "
  "depth take no part, and the result for an image does not depend on the images treated before.",
  ["inputs", "histories"],
  "every rectangle of cells of a 12 x 8 grid for 4 planes; 4096 arrangements of 4 planes on 3 x 2 blocks in 2 (thorough: 4) sets; 40 x 40 (thorough: 95 x 95) pairs of directions; "
  "steps at 7 heights, 4 pictures of merges in every mirror; every count of missing pixels in 4 orders; all words of 3 (thorough: 4) frames over 7 images; 4-step histories of the histogram of directions",
  "There is no test of the detection of primitives at all; the arrangements, the seeds that grow through borders and the memory of the detector from frame to frame are combinatorial.",
  ["src/features/primitives/primitive_detection.cpp", "src/features/primitives/histogram.hpp", "src/features/primitives/plane_segment.cpp", "src/features/primitives/shape_primitives.cpp"],
  [("growing of regions", "primitive_detection.cpp grow_planes_and_cylinders, region_growing"), ("merge", "primitive_detection.cpp merge_planes"),
   ("limits", "primitive_detection.cpp compute_plane_segment_boundary"), ("choice of the seeds", "histogram.hpp Histogram")],
  "exhaustive enumeration of bounded depth scenes and of frame histories on the real detector, against an independent plane fit and an explicit model of the histogram",
  "Exhaustive within the bounds, real detector compiled with MAKE_DETERMINISTIC. Not specified: walls exactly facing the camera without any noise, regions reachable only through a third "
  "one merged later, the area of hollow limits.",
  "Scenes are rendered from plane equations with deterministic noise and quantisation as the sensor model; the planes that must be found are the connected components of the layout; the expected parameters are "
  "those of an independent fit, in extended precision, of the points of these cells.",
  observe=["planes found", "parameters", "covariance", "limits", "histogram bins"])

P("C26", "Cylinders of a depth image are found with their axis and radius",
  "For every cylinder seen with enough of its side: the detector finds exactly one cylinder, its axis is the true one (within 1.5 degrees) and its radius is the true one (within 6 percent, 12 percent from the inside). "
  "Each cell belongs to at most one segment of the cylinder, the error of a segment is the mean error of its cells, the distance of a point is its distance to the surface, and the copy of a cylinder is this cylinder.",
  ["inputs", "histories"],
  "4 radii, 12 directions of the axis, 3 distances, 3 offsets, from outside and inside, 2 (thorough: 8) noise patterns; whole detector and fit alone",
  "No test contains a cylinder; every detected cylinder had no radius at all until this check was written.",
  ["src/features/primitives/cylinder_segment.cpp", "src/features/primitives/primitive_detection.cpp", "src/features/primitives/shape_primitives.cpp"],
  [("fit", "cylinder_segment.cpp Cylinder_Segment"), ("detection", "primitive_detection.cpp cylinder_fitting"), ("result", "shape_primitives.cpp Cylinder")],
  "exhaustive enumeration of a grid of cylinders on the real detector, against the rendered cylinder",
  "Exhaustive over the grid, real code with MAKE_DETERMINISTIC. Several cylinders in one image, and the radii of the parts of one that was split, are not claimed.",
  "Depth images of cylinders are rendered by intersecting rays; the detector, and the segment alone on the cells of the cylinder, are compared with the cylinder.",
  observe=["cylinders found", "axis", "radius", "inlier cells", "distances"])

P("C27", "A plane segment is the plane of its points, and only of planar cells",
  "For every cell: it is a plane exactly when at least 70 percent of its points have a depth, its middle row and column have no depth step beyond the noise of the sensor, and its mean squared error is within that noise; "
  "the parameters (normal towards the camera, distance, centroid, error, score, covariance, count) are those of the least square plane of its points, also after segments were put together in any order "
  "or the object was cleared and used again. Two segments can be merged exactly when their normals differ by less than 18 degrees and the centre of the other is closer than the given distance.",
  ["inputs", "histories"],
  "all directions x every cell of the image x every count of missing points, step height and thickness around the limits; all orders of up to 3 (thorough: 4) cells; 378 pairs around each limit per direction",
  "No test builds a plane segment; sums of squares lose the digits that decide only at some depths and orders.",
  ["src/features/primitives/plane_segment.cpp", "src/features/primitives/plane_segment.hpp"],
  [("cell", "plane_segment.cpp Plane_Segment::init_plane_segment"), ("fit", "plane_segment.cpp fit_plane"), ("growth", "plane_segment.cpp expand_segment"), ("merge", "plane_segment.cpp can_be_merged")],
  "exhaustive enumeration of cells, defects around each limit, and orders of growth, against an independent least square fit",
  "Exhaustive over the grid on the real class. Values within the rounding of a limit are left out.",
  "Cells are rendered at every place of the image with one defect at a time; the decision and the parameters are compared with the documented limits and with a fit in extended precision.",
  observe=["planar or not", "parameters", "covariance", "merge decision"])

P("C17", "The depth image becomes the cloud of its points, aligned with the colour image",
  "For every pair of cameras, image and cell size: the aligned image holds, at each pixel, the depth (seen from the colour camera) of the closest of the points whose projection is nearest to that pixel, and nothing where no "
  "point projects, borders included; points behind the colour camera are ignored. The organized cloud holds, cell after cell and row by row in a cell, the point of each pixel with a positive depth and zero for the others, "
  "for any size of the image, complete cells or not, whatever was treated before.",
  ["inputs"],
  "11 pairs of cameras (same, other intrinsics, displaced, turned, opposite) x 7 images x 4 mirrors and every single pixel; 7 widths x 5 heights x 4 cell sizes x 5 cameras x 25 pairs of successive images",
  "No test uses the alignment or the cloud.",
  ["src/features/primitives/depth_map_transformation.cpp", "src/features/primitives/depth_map_transformation.hpp"],
  [("alignment", "depth_map_transformation.cpp rectify_depth"), ("cloud", "depth_map_transformation.cpp get_organized_cloud_array"), ("grid of cells", "depth_map_transformation.cpp init_matrices")],
  "exhaustive enumeration of camera pairs, images and sizes on the real code, against an independent projection",
  "Exhaustive over the grid, compiled with MAKE_DETERMINISTIC (sequential loops; the schedules of the parallel loops are not explored here). Points that project within 0.002 pixel of the limit of two pixels may go to either.",
  "The expected image keeps the closest of all projected points; every pixel of the results is compared.",
  observe=["aligned depth", "cloud of points"])

P("C04", "Frame after frame, the tracker follows the camera in a known room",
  "For every sequence of frames of a static room, from any starting pose: the pose returned for each frame stays within the stated drift of the true pose (15 mm + 35 percent of the path travelled, in proportion for rotations), "
  "has a valid covariance, and the map is aligned with the starting pose. A frame without anything to match leaves the pose where it was (or follows the motion so far); after more than "
  "3 consecutive such frames the tracking is lost and the map is restarted from the last pose, and the tracking follows again from there as soon as there is something to "
  "see. A tracker remembers nothing of the trackers created before it, and the same frames give the same poses, bit for bit, in the deterministic mode.",
  ["histories", "inputs"],
  "all words of up to 3 (thorough: 4) frames over 12 kinds (moves along and around each axis, no texture, no depth, nothing); losses of 0-6 frames x every continuation of 2 (thorough: 4) frames; 66 rotations x 3 (thorough: 7) "
  "positions as a start; 4 image sizes; a second tracker after every word of 2 (3) frames; every word of up to 2 (3) frames executed twice",
  "No test executes RGBD_SLAM at all: it is not even part of the test build.",
  ["src/rgbd_slam.cpp", "src/rgbd_slam.hpp", "src/map_management/", "src/features/", "src/pose_optimization/"],
  [("frame", "rgbd_slam.cpp RGBD_SLAM::track, compute_new_pose"), ("detection", "rgbd_slam.cpp detect_features"), ("map", "map_management/feature_map.hpp"), ("pose", "pose_optimization.cpp")],
  "exhaustive enumeration of bounded histories of rendered frames on the whole real system, against the true trajectory and an explicit model of tracking, loss and restart",
  "Exhaustive within the bounds on the real code compiled with MAKE_DETERMINISTIC (with a stand-in for the ORB/BRIEF class of OpenCV's contrib, absent here). The optimisation uses random subsets: an execution whose pose is "
  "outside of the bound is decided by the majority of 5 random streams, so that another order of random numbers is no alarm. Frames with texture but without depth, and a map begun on a frame without texture, are not specified.",
  "Frames are rendered from a room of textured panels at the true poses; the harness keeps an explicit model (followed or not, consecutive failures, pose at which the map was restarted) and compares each returned pose to it.",
  observe=["pose of every frame", "its covariance", "tracking lost or not", "two runs, bit for bit"])

P("C22", "What is detected in a frame does not depend on the schedule of the threads",
  "For every interleaving of the worker threads: the aligned depth image keeps the closest point of each pixel, the cloud holds each point once, the planes and their limits, and the set of "
  "keypoints with their descriptors and depths, are those found without threads; there is no data race and no deadlock inside a frame, between the loops over rows, cells and windows, nor between the concurrent detections "
  "of points, planes and lines of a frame.",
  ["schedules"],
  "5 ways to share the rows of images of 6 rows with every order of the depths that meet in a pixel, 1-2 (thorough: 2-3) interventions; 4 x 16 clouds; 4 scenes of planes, 3 ways, 1 (2) interventions; 6 kinds of images with 9 windows "
  "of keypoints, 1-2 (2-3) interventions; whole frames with 1 intervention at every synchronisation, and frames 2 and 3 in 4 ways of sharing",
  "The tests never start two threads; a lost update needs two rows that meet in one pixel between a read and a write.",
  ["src/features/primitives/depth_map_transformation.cpp", "src/features/primitives/primitive_detection.cpp", "src/features/keypoints/keypoint_detection.cpp", "src/rgbd_slam.cpp"],
  [("alignment and cloud", "depth_map_transformation.cpp rectify_depth, get_organized_cloud_array"), ("limits of planes", "primitive_detection.cpp compute_plane_segment_boundary"),
   ("windows of keypoints", "keypoint_detection.cpp perform_keypoint_detection"), ("concurrent detections", "rgbd_slam.cpp detect_features")],
  "stateless exploration of all the schedules with a bounded number of interventions, on the real code under a controlled scheduler, with a happens-before race detector",
  "Exhaustive within the bound on interventions. Code inside OpenCV is not instrumented: its accesses are only judged by their results. The pose search has its own check (C05).",
  "The sources are compiled with the calls of the thread sanitizer, answered by the scheduler of the harness (as for C05): mutexes, atomics, thread starts and ends are scheduling points, "
  "all accesses are checked with vector clocks; results are compared with an independent computation or with the execution without threads.",
  observe=["aligned depth", "cloud", "planes and limits", "keypoints and descriptors", "races", "deadlocks"])

P("C18", "Keypoints of a frame: tracked points keep their identity, new ones are the best",
  "Frame after frame, a point of the last frame that is still visible is tracked to its true place with its own identifier, a point that "
  "disappeared or that has nothing to follow around it is not tracked, and no other identifier appears; nothing is tracked in the first frame. New keypoints are "
  "looked for when fewer than the maximum of points are tracked, or when it is asked: they are, in each of the nine windows of the image, the best corners "
  "(faint ones included when there are not enough strong ones) in the room that its tracked points leave, never closer to a tracked "
  "point than the mask radius, each once, at the centre of the corner, with its own descriptor and the depth of its pixel. The keypoints given "
  "for a frame do not change when other frames are processed, by the same extractor or another one.",
  ["inputs", "histories"],
  "9 windows x 7 numbers of corners x 6 numbers of tracked points x 4 kinds of corners x detection asked or not; corners at 6 distances in 8 directions of a tracked "
  "point at 6 places; 7 numbers of tracked points around the maximum; every sequence of up to 4 (thorough: 5) of 9 kinds of frames, alone or "
  "alternating with a second camera",
  "The keypoint code is not even built by the tests of this environment.",
  ["src/features/keypoints/keypoint_detection.cpp", "src/features/keypoints/keypoint_detection.hpp", "src/features/keypoints/keypoint_handler.cpp"],
  [("optical flow, forward and back", "keypoint_detection.cpp get_keypoints_from_optical_flow"), ("windows, mask and quota", "keypoint_detection.cpp perform_keypoint_detection / compute_key_point_mask"),
   ("when to detect", "keypoint_detection.cpp compute_keypoints")],
  "exhaustive enumeration of small scenes and frame sequences on the real extractor against the known corners of the scenes",
  "Exhaustive within the bounds on the real class with the real OpenCV detector, flow and refinement; the BRIEF descriptor of opencv_contrib is not installed, the stub hands out ORB.",
  "The images are made of round spots: each is exactly one corner, at a known place, whose score grows with its brightness. The expected "
  "set of keypoints is computed from the list of spots; spots are kept off the distances where rounding decides.",
  observe=["keypoints", "tracking indexes", "descriptors"])

P("C19", "The configuration is the one of the last file, or the default one",
  "A configuration file is accepted exactly when it describes two cameras: positive image sizes and focal lengths, centres that are not negative. "
  "Then every value given by the program is the one of the file, whatever the order of its lines, and the offset between the cameras is the "
  "rotation around the axes of their names followed by the translation. A file that is missing, empty, cut or that is not a configuration gives the documented default "
  "parameters, which are always valid, and never ends the program. What was loaded before leaves no trace.",
  ["inputs", "histories"],
  "every pair of the 18 fields with 7 values each (absent, null, negative, not a number) in 2 configurations and 2 orders; every sequence of up to 3 (thorough: 4) of 9 loads",
  "The tests only use the default parameters.",
  ["src/parameters.cpp", "src/parameters.hpp", "src/utils/angle_utils.cpp", "src/utils/camera_transformation.cpp"],
  [("reading", "parameters.cpp parse_file"), ("validity", "parameters.cpp check_parameters_validity"), ("default", "parameters.cpp load_defaut"), ("camera matrices", "parameters.hpp get_camera_1_intrinsics")],
  "exhaustive enumeration of configuration files and of sequences of loads on the real class, each sequence in a new process",
  "Exhaustive within the bounds on the real class with the real parser.",
  "Files are generated from lists of values, and the expected verdict and values are computed from the same lists.",
  observe=["values of the parameters", "validity"])

P("C24", "Random choices: uniform draws in their limits, subsets without repetition",
  "Whatever the generator gives: a random real is in [0, 1[ and a random integer in [min, max[, with all values of the interval equally drawn; normal draws are finite and have the moments "
  "of the normal distribution. A random subset of a set of matches holds elements of that set, each at most once; by count it has exactly this count and all subsets are drawn equally; "
  "by score it reaches the score, with no more than needed, and matches of equal score are taken equally often. What cannot be drawn "
  "(more elements or a greater score than there is) is refused with an error. In the deterministic mode each thread draws the same sequence, whatever the other threads do.",
  ["inputs"],
  "every sequence of generator outputs of a lattice (12 values for each draw, all permutations included) for 8 sets of up to 4 elements, 3 functions, 5 arguments and 2 containers; 5 x 4n+4 outputs for 24 intervals; grids of 40x40 and 64x64 (thorough: 96x96) of the unit square",
  "Tests see the few values of their seed.",
  ["src/utils/random.hpp", "src/pose_optimization/ransac.hpp"],
  [("numbers", "random.hpp get_random_double / get_random_uint / get_normal_double"), ("subsets", "ransac.hpp get_random_subset / get_random_subset_with_score / get_random_subset_with_duplicates")],
  "exhaustive enumeration of the outputs of the random generator under the real functions",
  "Exhaustive within the lattice of outputs: the random choices are an input like the others, none is sampled.",
  "The state of the real generator is overwritten such that its next outputs are those of the enumeration; counts over the whole lattice give the distributions exactly.",
  observe=["drawn values", "subsets", "refusals"])
