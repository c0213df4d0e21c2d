#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "All representations of a rotation describe the same rotation",
 "Converting a rotation between unit quaternion, rotation matrix, axis-angle, Euler angles (every supported sequence), rotation vector and logarithm/exponential yields the same rotation, for every angle including zero, tiny angles and half turns, and never yields a non-finite value. Quaternion product, conjugate, inverse, normalisation and vector rotation obey the group laws and agree with the corresponding 3x3 matrices, whichever of the two signs of a quaternion is used. Angular velocities integrate to the rotation they describe and are recovered from it.",
 ["inputs"], "all unit quaternions (both signs), all axes, all angles from 0 through tiny to pi and beyond, all Euler sequences (in gimbal lock the angles describe the rotation approximately), float and double",
 "TestQuaternion/TestRotationCast sample random rotations, which almost never are near 0 or 180 degrees, on axes or with negative real part, where the branches of the conversions differ",
 ["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/RotationVelocity.h", "src/utMath/Util/RotationCast.h"],
 [("Quaternion constructors, toMatrix, toAxisAngle, toLogarithm/fromLogarithm, getEulerAngles", "src/utMath/Quaternion.h, Quaternion.cpp"), ("RotationCast conversions", "src/utMath/Util/RotationCast.h"), ("RotationVelocity integrate/angularVelocity", "src/utMath/RotationVelocity.h")],
 ["return values of the conversions and of the quaternion operators"])

prop("C02", "Rigid poses compose, invert and act on points as one group",
 "Composition of poses is associative and equals applying one after the other to any point; the inverse undoes a pose on both sides; the identity changes nothing. The homogeneous matrix, 7-vector and 6-vector forms of a pose convert back to the same rigid motion and act on points in the same way. Scaling, point lists and distance helpers of poses follow the same motion.",
 ["inputs"], "all rotations and translations (over many magnitudes), all points, both quaternion signs, chains of any length",
 "tests multiply a few fixed poses; cancellations, quaternion sign and chains of operations are not covered",
 ["src/utMath/Pose.h", "src/utMath/Pose.cpp"],
 [("Pose operators, inverse, matrix/vector constructors and conversions", "src/utMath/Pose.h, Pose.cpp")],
 ["pose products, inverses, transformed points, matrices and vectors"])

prop("C03", "Interpolated rotations and poses stay on the shortest arc",
 "Interpolating between two rotations or poses reproduces the end points at 0 and 1, always returns a unit rotation, moves along the shorter arc at constant angular speed and moves the translation linearly. The result does not depend on which of the two signs either quaternion carries. This holds for nearly equal and for opposite orientations as well, where no non-finite value may appear.",
 ["inputs"], "all pairs of orientations incl. equal, nearly equal, antipodal sign and 180 degrees apart; all parameters in [0,1]",
 "the tests interpolate a few generic pairs; the small-angle and sign branches need specific inputs",
 ["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/Pose.h", "src/utMath/Pose.cpp"],
 [("slerp / linearInterpolate", "src/utMath/Quaternion.cpp, src/utMath/Pose.cpp")],
 ["return value of the interpolation functions"])

prop("C04", "Uncertainty propagates to first order and stays a covariance",
 "When poses or vectors with covariance are composed, inverted, converted, interpolated or passed through a differentiable function, the reported covariance equals the first-order propagation of the input covariances, as obtained by differentiating the same operation numerically. It is symmetric, positive semi-definite and scales linearly with the inputs. The mean equals the operation applied to the means.",
 ["inputs"], "all poses, all positive semi-definite covariances incl. singular ones, all differentiable maps and dimension pairs; interpolated covariances are those of the interpolation with its parameter, and at the end points those of the end points",
 "tests propagate one or two fixed covariances with loose Monte-Carlo bounds",
 ["src/utMath/ErrorPose.h", "src/utMath/ErrorPose.cpp", "src/utMath/ErrorVector.h", "src/utMath/Stochastic/CovarianceTransform.h", "src/utMath/Stochastic/BackwardPropagation.h", "src/utTracking/Function"],
 [("ErrorPose product/inverse and additive covariance conversion", "src/utMath/ErrorPose.cpp"), ("transformRangeInternalWithCovariance & co", "src/utMath/Stochastic/CovarianceTransform.h"), ("backwardPropagation", "src/utMath/Stochastic/BackwardPropagation.h")],
 ["covariance() and value of the results"])

prop("C05", "Analytic derivatives match the functions they belong to",
 "Every function object that offers both a value and a Jacobian returns, at every point of its domain, the matrix of partial derivatives of exactly that value with respect to the parameters it documents (rotations in the local parametrisation it documents). Evaluating value and Jacobian together gives the same results as evaluating them separately. The sizes it reports are those of the vectors and matrices it fills.",
 ["inputs"], "all function objects (projection, distortion, rotation, quaternion, dehomogenisation, motion models, camera bundles ...) and all parameter vectors away from documented singularities, in double precision; where a motion model documents a linearisation for small time steps, for small steps",
 "no test differentiates the functions; optimisers and filters converge (slowly or to a wrong covariance) with a wrong derivative, so end-result tests stay green",
 ["src/utAlgorithm/Function", "src/utMath/Optimization/Function", "src/utTracking/Function", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h", "src/utAlgorithm/CameraLens/Distortion.h", "src/utAlgorithm/ToolTip/Optimization.h"],
 [("evaluate / jacobian / evaluateWithJacobian members", "src/utAlgorithm/Function/*.h, src/utTracking/Function/*.h, src/utMath/Optimization/Function/*.h")],
 ["result vectors and Jacobian matrices"])

prop("C06", "Serialising and reading back a value reproduces it exactly",
 "For every measurement and math type, writing to text, binary or message-pack form and reading it back gives a value equal to the original, with the same timestamp, for finite values of any magnitude. A sequence of differently typed values written to one stream is read back in the same order, consuming exactly what was written. This includes matrices of any shape, dynamic vectors, lists of any length (also empty), camera intrinsics with any number of coefficients and button/scalar values.",
 ["inputs", "histories"], "all types and values (subnormal to maximal, negative zero), all list lengths, all sequences of writes and reads, three encodings",
 "tests write a handful of fixed or random square/small values one at a time",
 ["src/utSerialization", "src/utMeasurement/Measurement.h", "src/utMath/CameraIntrinsics.h", "src/utMath/Pose.h", "src/utMath/Quaternion.h", "src/utMath/Vector.h", "src/utMath/Matrix.h"],
 [("boost serialize members", "src/utMath/*.h, src/utMeasurement/Measurement.h"), ("msgpack adaptors", "src/utSerialization/Msgpack*"), ("Serializer front ends", "src/utSerialization/BoostArchiveSerializer.h, MsgpackSerializer.h")],
 ["objects before writing and after reading, stream position"])

prop("C07", "Damaged or truncated serialised data never corrupts memory",
 "Reading truncated, bit-flipped or arbitrary bytes into any measurement or calibration type either yields some value or reports an error by exception. It never reads or writes outside its buffers, never leaves undefined behaviour behind, never loops forever, and the stream objects stay usable for further independent reads. An incomplete message leaves the target value as it was.",
 ["inputs", "fault_sequences"], "all truncation points, bit flips and byte strings, all encodings and types",
 "no test reads anything but its own well-formed output",
 ["src/utSerialization", "src/utMath/CameraIntrinsics.h", "src/utMeasurement/Measurement.h", "src/utUtil/SimpleStringIArchive.h"],
 [("bounds and type checks while decoding", "src/utSerialization/Msgpack*, src/utMath/CameraIntrinsics.h")],
 ["sanitizer reports, exceptions, termination"])

prop("C08", "Calibration files round-trip and faults are reported as errors",
 "Writing any supported value to a calibration file and reading it back gives the same value and timestamp, replacing any earlier content. A missing, unreadable or truncated file, or one that is not an archive, is reported through the library's exception type and leaves the caller's previous value unchanged. The plain string archives used for calibration text reproduce the sequence of numbers and strings written to them.",
 ["inputs", "fault_sequences", "histories"], "all values of the file-backed types, all truncation points (whole tokens for text), rewrites of one file, unwritable targets; the string archives reproduce numbers to their printed six significant digits",
 "no test reads or writes a calibration file",
 ["src/utUtil/CalibFile.h", "src/utUtil/SimpleStringIArchive.h", "src/utUtil/SimpleStringOArchive.h", "src/utUtil/Exception.h"],
 [("readCalibFile / writeCalibFile", "src/utUtil/CalibFile.h"), ("SimpleString archives", "src/utUtil/SimpleStringIArchive.h, SimpleStringOArchive.h")],
 ["values read back, exception types, previous value of the output argument"])

prop("C09", "Clock synchronisation maps event times consistently",
 "For any stream of (remote tick, local time) events with bounded jitter and any start offset, the clock converters return local times within the jitter of the true time once settled, follow the configured tick frequency and its drift, and recover after long gaps, steps of either clock or a restart of the remote counter. A pair of exact linear clocks is reproduced exactly. Time formatting and conversion between representations denote the same instant, readings of the library clock lie between readings of the system clock taken before and after, and the high-resolution counter advances with monotonic time whatever is done to the system time.",
 ["histories", "inputs"], "all event histories: frequencies, drifts, jitter, drop-outs, clock steps, restarts; all instants",
 "TestTimestampSync replays one generated stream",
 ["src/utMeasurement/TimestampSync.h", "src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSyncLS.h", "src/utMeasurement/Timestamp.h", "src/utMeasurement/Timestamp.cpp"],
 [("TimestampSync::convertNativeToLocal, TimestampSyncLS", "src/utMeasurement/TimestampSync.cpp, TimestampSyncLS.h"), ("now, timestampToString, timestampToShortString", "src/utMeasurement/Timestamp.cpp")],
 ["converted timestamps per event, strings"])

prop("C10", "Linear-algebra building blocks agree with exact arithmetic definitions",
 "Inner and outer products, norms, distances, matrix-vector and matrix-matrix products, determinant, inverse, pseudo-inverse, the cross product, normalisation, element-wise and range helpers, and the constructors and casts of vectors and matrices return what their mathematical definition gives, for every supported dimension, element type and operand shape. Inverses satisfy their defining equations whenever the matrix is well conditioned, pseudo-inverses also for rank-deficient ones. Operands are never modified unless the operation is documented to be in place.",
 ["inputs"], "all fixed and dynamic sizes, all conditioning up to a bound, zero and rank-deficient operands, float and double",
 "tests use single random square cases per routine",
 ["src/utMath/Blas1.h", "src/utMath/Blas2.h", "src/utMath/Blas3.h", "src/utMath/MatrixOperations.h", "src/utMath/VectorFunctions.h", "src/utMath/MatrixFunctors.h", "src/utMath/Functors", "src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/Scalar.h"],
 [("functor families", "src/utMath/Blas1.h, Blas2.h, Blas3.h, VectorFunctions.h, MatrixOperations.h")],
 ["return values, operands after the call"])

prop("C11", "Least-squares optimisers never worsen and do converge",
 "For any differentiable residual and any start point the optimisers return parameters whose residual, as reported, is that of the returned parameters and is not larger than at the start; from a start near a regular, well-conditioned minimum they converge to it. Weights, covariances and stop criteria given by the caller are honoured: an iteration limit is never exceeded and linear problems are solved to the normal-equation solution. The start values are otherwise left to the problem's own normalisation and no evaluation uses out-of-range sizes.",
 ["inputs"], "all residual functions and dimensions tried by the workload, start points, stop rules, weights and linear solvers; for the undamped Gauss-Newton method linear problems and starts near the minimum",
 "tests optimise one fixed problem each and look at convergence only",
 ["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/GaussNewton.h", "src/utMath/Optimization/Optimization.h"],
 [("levenbergMarquardt / weightedLevenbergMarquardt", "src/utMath/Optimization/LevenbergMarquardt.h"), ("gaussNewton", "src/utMath/Optimization/GaussNewton.h")],
 ["recorded evaluation history of an instrumented residual, returned residual and parameters"])

prop("C12", "Robust estimation keeps its sample and inlier contract",
 "Robust (random sample) estimation only ever hands subsets of the requested size of distinct observations to the estimator, counts as inliers exactly the observations within the threshold of a hypothesis, never reports more than it counted, honours the run limit, and fails rather than returning a model supported by fewer than the minimum number of inliers. With a majority of exact observations and gross outliers it recovers the model of the exact ones. The number of runs derived from the wanted probability is sufficient for it.",
 ["inputs", "histories"], "all mixtures of inliers and outliers (outlier ratio in [0,1), wanted success in (0,1)), thresholds, set sizes, set counts and random histories; the range forms may return the first hypothesis with enough support",
 "outcome is random: tests run one seed and only look at the final model",
 ["src/utMath/Optimization/Ransac.h", "src/utAlgorithm/PoseEstimation3D3D", "src/utAlgorithm/ToolTip"],
 [("ransac, RansacParameter", "src/utMath/Optimization/Ransac.h")],
 ["instrumented estimator/evaluator call history, returned inlier count and model"])

prop("C13", "Absolute orientation recovers the rigid motion between point sets",
 "Given corresponding 3-D points related by a rigid motion, at least three and not collinear, the estimated pose maps one set onto the other, whatever the motion (half turns included), the point scale, the order or the number of points, for planar and spatial sets; with noise it is at least as good in the least-squares sense as the true motion. Refinement never increases the residual and scale estimation returns the true ratio. Residual and covariance reported for the pose are those of the correspondences; fewer than three points or lists of different length are reported as failure.",
 ["inputs"], "all rigid motions, point configurations (planar, symmetric, far from origin), noise levels, float and double",
 "TestAbsoluteOrientation uses random generic sets with tight tolerances and fails in this sandbox, so nothing pins it",
 ["src/utAlgorithm/PoseEstimation3D3D"],
 [("calculateAbsoluteOrientation, estimatePose6D_3D3D, covariance estimation", "src/utAlgorithm/PoseEstimation3D3D/*")],
 ["estimated pose, residual, covariance"])

prop("C14", "Camera pose from 2D-3D correspondences reproduces the observations",
 "Given exact image observations of known planar or spatial points in front of the camera, pose estimation returns the pose that reprojects them exactly, for every camera matrix, distance, orientation and point order; refinement with noise never increases the reprojection error. The reported residual is the reprojection error of the returned pose and the reported covariance is the first-order one. Too few correspondences are reported as an error.",
 ["inputs"], "all camera intrinsics, poses with the object in front of the camera (which looks along -z), planar and non-planar layouts (spatial ones of at least six points; the first four of a planar one in general position), initialisation methods, noise; covariance is total squared image error times the inverse normal matrix",
 "Test2D3DPoseEstimation samples generic layouts and fails in this sandbox, so nothing pins it",
 ["src/utAlgorithm/PoseEstimation2D3D"],
 [("computePose, optimizePose, planar/non-planar initialisation, error functions", "src/utAlgorithm/PoseEstimation2D3D/*")],
 ["returned pose, residual, covariance, exceptions"])

prop("C15", "Hand-eye and tool-tip calibration recover the hidden transformation",
 "From motions that determine it, hand-eye calibration returns the fixed transformation between hand and eye and tool-tip calibration returns the tip in both frames, whichever method, pair selection, number, order or quaternion sign of the input poses is used. The online rotation calibration converges to the same rotation as the batch one. Too few poses, or lists of different length, are reported as failure instead of a made-up pose.",
 ["inputs", "histories"], "all hidden transformations other than half turns, motion sets with rotations about at least two axes (incl. large rotations other than half turns between poses and sign flips), set sizes, selection options; motions about a single axis are reported by the dual-quaternion method only",
 "tests use one random motion set per method",
 ["src/utAlgorithm/PoseEstimation6D6D", "src/utAlgorithm/ToolTip", "src/utAlgorithm/OnlineRotHec.h", "src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.h", "src/utAlgorithm/RotationHecKalmanFilter.cpp"],
 [("TsaiLenz, DualQuaternion, DataSelection", "src/utAlgorithm/PoseEstimation6D6D/*"), ("TipCalibration", "src/utAlgorithm/ToolTip/*"), ("OnlineRotHec, RotationHecKalmanFilter", "src/utAlgorithm/OnlineRotHec.cpp, RotationHecKalmanFilter.cpp")],
 ["estimated transformation, exceptions, return flags"])

prop("C16", "Homographies and projection matrices are recovered and decomposed",
 "A homography or 3x4 projection matrix estimated from exact correspondences maps every source point to its target, independent of point order, scale and offset of the coordinates. Decomposing a projection matrix yields an upper-triangular calibration, a proper rotation and a translation whose product is the matrix again up to the documented scale. Conversion to render matrices maps points inside the viewing volume to the same pixels and depth order as the camera model, for any image origin convention.",
 ["inputs"], "all non-degenerate homographies, cameras (looking along -z, with the lower right element of the calibration -1 in the decomposition), point sets of any admissible size, near/far planes, image sizes",
 "tests use a few generic random matrices",
 ["src/utAlgorithm/Homography.h", "src/utAlgorithm/Homography.cpp", "src/utAlgorithm/Projection.h", "src/utAlgorithm/Projection.cpp"],
 [("homographyDLT, squareHomography", "src/utAlgorithm/Homography.cpp"), ("projectionDLT, decomposeProjection, projectionMatrixToOpenGL, offAxisProjectionMatrix", "src/utAlgorithm/Projection.cpp")],
 ["returned matrices applied to points"])

prop("C17", "Multi-view geometry recovers points, epipolar geometry and camera poses",
 "From exact observations in two or more calibrated views, triangulation returns the observed points, the fundamental matrix annihilates all corresponding points and yields the relative camera motion, correspondence search pairs the right observations, and bundle adjustment or multi-camera refinement started near the truth reaches it and never ends with a larger reprojection error. Fundamental matrices from poses and from points agree. Insufficient inputs are reported as errors or, by multi-camera estimation, by a negative weight.",
 ["inputs"], "all camera pairs and arrays with a baseline (looking along -z, poses mapping world to camera), all points in front of them, all admissible numbers of views and points; start-free multi-camera estimation for planar targets, refinement from near the truth with moderate noise",
 "tests cover one generic two-camera case per routine",
 ["src/utAlgorithm/FundamentalMatrix.h", "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/3DPointReconstruction.h", "src/utAlgorithm/3DPointReconstruction.cpp", "src/utAlgorithm/BundleAdjustment.h", "src/utAlgorithm/BundleAdjustment.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.h", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"],
 [("getFundamentalMatrix, poseFromFundamentalMatrix", "src/utAlgorithm/FundamentalMatrix.cpp"), ("get3DPosition, reconstruct3DPoints", "src/utAlgorithm/3DPointReconstruction.cpp"), ("simpleBundleAdjustment", "src/utAlgorithm/BundleAdjustment.cpp"), ("multipleCameraPoseEstimation", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp")],
 ["reconstructed points, matrices, poses, exceptions"])

prop("C18", "Lens distortion and its removal are inverse to each other",
 "Distorting an undistorted image point and removing the distortion again returns the point, and the other way round, for every moderate set of radial and tangential coefficients and every point in the image. With zero coefficients both are the identity, the principal point is fixed, and the single-point, list and alternative coefficient-form variants agree with each other and with the documented polynomial model.",
 ["inputs"], "all camera matrices, moderate coefficient sets of every supported length, all image points, lists of any length (the list forms resize the result)",
 "tests check one coefficient set on a few points",
 ["src/utAlgorithm/CameraLens", "src/utAlgorithm/LensDistortion.h", "src/utAlgorithm/LensDistortion.cpp", "src/utMath/CameraIntrinsics.h"],
 [("CameraLens distort/undistort", "src/utAlgorithm/CameraLens/*"), ("lensDistort, lensUnDistort, projectWithDistortion", "src/utAlgorithm/LensDistortion.cpp")],
 ["distorted and undistorted points"])

prop("C19", "Tracking filters follow the motion and keep a valid uncertainty",
 "For any time-ordered stream of pose, orientation or angular-velocity measurements of a motion the model describes, the filters converge to the true state and predict it at later times; after every step the orientation is a unit rotation and the covariance is symmetric positive semi-definite, shrinking with informative measurements and growing with prediction. The result does not depend on the sign of measured quaternions, equal-time measurements are fused and measurements older than the state do not corrupt it. Predicting with the pose filter before initialisation is an error.",
 ["histories", "inputs"], "all measurement histories (order, spacing, mixes of kinds, sign flips), motion-model orders (inside-out measurements for position order up to one and orientation order one), noise settings, angular velocities below 10 rad/s",
 "tests run one synthetic track",
 ["src/utTracking", "src/utMath/Stochastic/Kalman.h", "src/utAlgorithm/RotationHecKalmanFilter.cpp"],
 [("PoseKalmanFilter, RotationOnlyKF, motion models", "src/utTracking/*"), ("kalmanMeasurementUpdate*, kalmanTimeUpdate", "src/utMath/Stochastic/Kalman.h")],
 ["state and covariance after each event, predicted poses"])

prop("C20", "Averages, clustering and random generators match their definitions",
 "Sample means, covariances, correlation and averaged rotations and poses equal their textbook values for every sample, independent of order of the input and of quaternion sign; clustering and mixture estimation assign each sample to its nearest or most likely centre and separate well-separated groups. Random generators return only values inside the requested range, follow the requested distribution and produce unit rotations. Accumulating incrementally equals computing in one batch.",
 ["inputs", "histories"], "all sample sets (incl. size 1, identical, collinear; averaged rotations within a spread of about a quarter turn), dimensions, cluster counts with starts near separated groups, seeds",
 "tests use a random sample each and generous thresholds",
 ["src/utMath/Stochastic", "src/utMath/Random", "src/utAlgorithm/Correlation.h", "src/utAlgorithm/Correlation.cpp"],
 [("Average, Correlation, k_means, expectation maximisation", "src/utMath/Stochastic/*"), ("Random distributions", "src/utMath/Random/*"), ("computeCorrelation", "src/utAlgorithm/Correlation.cpp")],
 ["returned statistics, labels, drawn samples"])

prop("C21", "The assignment solver returns an optimal one-to-one assignment",
 "For every cost matrix, square or rectangular, the assignment solver terminates and returns a one-to-one assignment of the smaller side whose total cost is minimal. The answer is unaffected by adding a constant to a row or column, and reusing or resetting the solver for another matrix gives the same result as a fresh one.",
 ["inputs", "histories"], "all finite cost matrices (ties, zeros, negative, degenerate, rectangular), all sequences of reuse; in match lists of the larger dimension an entry beyond the other dimension means unmatched",
 "only one small fixed matrix is tested",
 ["src/utMath/Graph/Munkres.h"],
 [("Munkres::solve and its steps", "src/utMath/Graph/Munkres.h")],
 ["assignment matrix / lists returned"])

prop("C22", "Point mappings and conic/quadric geometry describe the same objects",
 "Applying a pose, homogeneous matrix or projection to points, point ranges or their homogeneous forms gives the same points; conics and quadrics transformed, projected or inverted contain exactly the images of the points they contained. Centre, axes, area, angle and eccentricity computed for a conic are those of the ellipse it was built from, for circles as well as elongated ellipses at any orientation. A conic without centre and inputs of mismatched size are reported as an error rather than by a made-up value.",
 ["inputs"], "all points (2-D points given homogeneously lie in the plane z=0), matrices, ellipses (circles included; any nonzero multiple of a conic is the same conic), ellipsoids and cameras, all container types",
 "tests use random generic ellipses and do not test circles, signs and the homogeneous variants",
 ["src/utMath/Geometry"],
 [("TransformPoint, ProjectPoint, conic and quadric functors", "src/utMath/Geometry/*")],
 ["returned points and parameters"])

prop("C23", "Every log record reaches its destinations once, whole and in order",
 "A record logged at an enabled priority is delivered exactly once to every appender of its category and, where additive, of its ancestors, unbroken by records of other threads and in the order in which each thread logged it; a record below the effective priority or an appender's threshold is never delivered. Adding, removing or closing appenders and changing priorities while other threads log does not lose, duplicate or corrupt other records. No interleaving causes a data race or deadlock.",
 ["schedules", "histories", "configurations"], "all interleavings of logging, configuration and context calls of several threads (reopening or closing all appenders excluded while appenders are created or destroyed), all category trees",
 "no test exercises logging at all",
 ["3rd/log4cpp/src", "3rd/log4cpp/include/log4cpp", "src/utUtil/Logging.h", "src/utUtil/Logging.cpp"],
 [("appender set mutex, HierarchyMaintainer mutex", "3rd/log4cpp/src/Category.cpp, HierarchyMaintainer.cpp"), ("appender write lock", "3rd/log4cpp/src/AppenderSkeleton.cpp, OstreamAppender.cpp")],
 ["records seen by memory, stream and file appenders"])

prop("C24", "XML documents survive printing and parsing; bad XML is rejected safely",
 "Printing any document tree and parsing the text gives an equal tree: same elements, attributes, text (including markup characters, entities and non-ASCII text), comments and order. Parsing arbitrary bytes terminates with a tree or a reported error with a location, never touching memory outside the input. Editing a tree (insert, replace, remove, clone, attribute changes) keeps parent, sibling and attribute links consistent and typed attribute queries return what was set.",
 ["inputs", "histories"], "all trees (comments and CDATA without their terminators; adjacent texts merge; with white-space condensing, texts without leading, trailing or repeated blanks; nesting of more than 1000 elements is reported as an error), all strings of allowed characters (complete hexadecimal character references in text pass through unescaped), all byte strings, all sequences of edits; floating-point attributes to six decimals",
 "no test touches the XML code",
 ["3rd/tinyxml"],
 [("parser, printer, node links", "3rd/tinyxml/tinyxmlparser.cpp, tinyxml.cpp")],
 ["printed text, parsed trees, error flags"])

prop("C25", "Independent computations in different threads do not interfere",
 "Calling any algorithm or conversion of the library from several threads on unrelated objects gives each thread exactly the result it gets when running alone (randomised routines: a result within their contract), under every interleaving, without data races; const inputs may be read by several threads. Shared measurements may be copied, read and released from several threads; the payload stays alive until the last holder is gone and is destroyed exactly once.",
 ["schedules"], "all interleavings of threads running different library calls, and copying/releasing shared measurements",
 "tests are single-threaded",
 ["src/utAlgorithm", "src/utMath", "src/utMeasurement", "src/utTracking", "src/utUtil"],
 [("absence of hidden mutable state; reference counting", "src/utMath, src/utAlgorithm, src/utMeasurement/Measurement.h")],
 ["race detector, result of each call compared with the single-threaded result"])

prop("C26", "Degenerate inputs end in a result or an error, never in corruption",
 "Calling the estimation, statistics and geometry routines with empty, too short, mismatched, duplicated, collinear, zero, huge or non-finite inputs terminates and either returns or throws; it never accesses memory out of bounds, never exhibits undefined behaviour and never grows memory from call to call. Estimation routines given fewer observations than their documented minimum or lists of different length report failure. Caller-owned inputs are left unmodified.",
 ["inputs", "histories"], "all list lengths incl. 0..minimum, mismatched lengths, special values, repeated calls; an optimisation given neither an iteration limit nor a precision is endless by request",
 "tests call with good inputs only",
 ["src/utAlgorithm", "src/utMath"],
 [("size checks and exceptions at the entry of the algorithms", "src/utAlgorithm/*, src/utMath/Stochastic/*")],
 ["sanitizers, exceptions, allocation balance"])

prop("C27", "Measurements keep their time and value and are shared, not copied",
 "A measurement returns the payload and timestamp it was created with; copies share the payload and releasing one holder does not affect others; re-timing a copy leaves the original untouched, while a value assigned through one holder is seen by all (clone() makes an independent copy). The payload is destroyed exactly once, when its last holder is gone; empty and invalid measurements are recognisable as such and printed as INVALID, others print their value and local time of day with microseconds. Reading a measurement from an archive or a message gives a new value and leaves other holders of the old one untouched; writing one without a value is reported.",
 ["inputs", "histories"], "all payload types, timestamps and sequences of copy, assign, reset and re-time",
 "no test follows the ownership of a payload through a sequence of operations",
 ["src/utMeasurement/Measurement.h", "src/utMeasurement/Timestamp.h"],
 [("Measurement handle", "src/utMeasurement/Measurement.h")],
 ["payload identity and destruction counts, timestamps"])

prop("C28", "Serial ports, file search and timers report what really happened",
 "Bytes sent to or received from a serial line arrive complete and in order; the line is set to the requested speed, data bits, parity, stop bits and timing and to its former settings when closed; unsupported speeds, missing devices, lines that are gone and use of a closed port are reported, a read from an idle line returns no bytes after the timeout, and opening and closing any number of times neither leaks nor closes foreign descriptors. File search returns exactly the files of the directory that match, sorted, and nothing else, skipping entries that cannot be resolved; an invalid path and an empty result are reported. Block timers count every start/end pair once and accumulate the elapsed time, also when nested or left by exception or when the system time is changed meanwhile, and log their result once; sleeping lasts at least the requested time, signals notwithstanding.",
 ["histories", "inputs", "fault_sequences"], "all sequences of open/send/receive/close on a pseudo terminal, all directory contents and patterns, all nestings of timed blocks",
 "no test covers these utilities",
 ["src/utUtil/SerialPort.h", "src/utUtil/SerialPort.cpp", "src/utUtil/GlobFiles.h", "src/utUtil/GlobFiles.cpp", "src/utUtil/BlockTimer.h", "src/utUtil/BlockTimer.cpp", "src/utUtil/OS.cpp"],
 [("SerialPort, globFiles, BlockTimer", "src/utUtil/*")],
 ["bytes at the far end, descriptor table, returned file lists, timer counters"])

prop("C29", "Log layout, thresholds and file rotation lose no record",
 "Formatting a record with any valid pattern places exactly the message, category, priority, context and time requested; invalid patterns are rejected and leave the old one in force. Rotating log files keeps the configured number of backups, the newest records in the newest file, and drops only the oldest whole files. Categories inherit priority and appenders from their nearest configured ancestor, for configuration by call or by property file.",
 ["inputs", "histories", "configurations"], "all pattern strings (width limits apply to the text of a specifier, dates in braces belong to %d), messages, rotation sizes, one or more backups, category trees and property files (# starts a comment, the first assignment of a property wins)",
 "no test exercises the logging library",
 ["3rd/log4cpp/src", "src/utUtil/Logging.cpp"],
 [("PatternLayout, RollingFileAppender, Category, PropertyConfigurator", "3rd/log4cpp/src/*")],
 ["formatted strings, files in a scratch directory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
