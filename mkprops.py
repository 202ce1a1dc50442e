#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or [], hook_needed=None))
    P.append(d)
WHY = 'The existing tests print results for one scene per run under a fixed seed and assert nothing about them, so they pass for any output that does not crash; '

prop('C01', 'Minimal absolute-pose solvers return the true pose and only consistent poses',
 'For exact correspondences of any non-degenerate scene, the pose list returned by each minimal absolute-pose solver (two-point with known rotation, both central three-point solvers, the generalized three-point solver) contains the true viewpoint pose (position in the world, viewpoint-to-world rotation). The list is never longer than the number of solutions of the problem and every finite pose in it has a proper rotation. The two central three-point solvers find the same set of poses consistent with the three bearings.',
 ['inputs'], 'all poses, all viewing directions (omnidirectional bearings), all point triples in general position, all camera rigs (for the generalized solver), every choice and order of the used indices',
 WHY + 'a missing root, a swapped sign in one branch of the closed-form solution or a wrong permutation only shows for some scenes.',
 ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules/main.cpp', 'src/absolute_pose/modules/gp3p', 'src/math/roots.cpp', 'src/math/arun.cpp'],
 [('p2p / p3p_kneip / p3p_gao closed forms', 'src/absolute_pose/methods.cpp, src/absolute_pose/modules/main.cpp'), ('gp3p Groebner basis template', 'src/absolute_pose/modules/gp3p/*.cpp')],
 observe=['absolute_pose::p2p', 'absolute_pose::p3p_kneip', 'absolute_pose::p3p_gao', 'absolute_pose::gp3p'])

prop('C02', 'n-point absolute-pose solvers recover the pose for any number of points',
 'For exact correspondences of a generic scene with any admissible number of points (also when only five, for gPnP four, of them are different), the central and generalized n-point solvers (EPnP, gPnP) return the true pose and the list returned by UPnP contains it (for only three or four points, where another elimination template is used: in the large majority of scenes); every returned pose has a proper rotation. With bearing noise the error of the returned (for UPnP: best) pose stays proportional to the noise, and for five or more points the UPnP list contains the minimiser of its object-space error.',
 ['inputs'], 'all poses, camera rigs (single camera or many), point counts from the documented minimum upwards, bearing noise levels, index subsets',
 WHY + 'the n-point solvers switch between internal cases (dimension of the null space, number of points, root pruning) that a single scene does not exercise.',
 ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules/Epnp.cpp', 'src/absolute_pose/modules/main.cpp', 'src/absolute_pose/modules/upnp2.cpp', 'src/absolute_pose/modules/upnp4.cpp', 'src/absolute_pose/modules/gpnp1', 'src/absolute_pose/modules/gpnp2', 'src/absolute_pose/modules/gpnp3', 'src/absolute_pose/modules/gpnp4', 'src/absolute_pose/modules/gpnp5'],
 [('control points, null-space case selection by reprojection error', 'src/absolute_pose/modules/Epnp.cpp'), ('gpnp null-space cases 1-5 and reprojection-based selection', 'src/absolute_pose/modules/main.cpp'), ('upnp Groebner template, symmetry, first/second-order optimality pruning', 'src/absolute_pose/methods.cpp')],
 observe=['absolute_pose::epnp', 'absolute_pose::gpnp', 'absolute_pose::upnp'])

prop('C03', 'Essential-matrix solvers return exactly the matrices consistent with the data',
 'For exact bearing-vector pairs of a generic two-view scene, the result of each essential-matrix solver (Stewenius and Nister five-point, seven-point, eight-point) contains, up to scale, the matrix [t]x R of the true motion, with the bearing of view 1 on the left. Every real candidate annihilates all used correspondences, and satisfies the internal constraints of its solver: rank two for all, two equal singular values for the five-point solvers.',
 ['inputs'], 'all relative poses with non-zero translation, all viewing directions, generic point sets, 5/7/8 up to many correspondences, index subsets, bearing noise for the linear solver',
 WHY + 'coefficients of the large polynomial systems and root selection are only visible through the algebraic constraints on many different inputs.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/fivept_nister', 'src/relative_pose/modules/fivept_stewenius', 'src/math/Sturm.cpp'],
 [('null space + degree-10 polynomial / action matrix', 'src/relative_pose/modules/main.cpp'), ('cubic determinant constraint (7pt), singular value projection (8pt)', 'src/relative_pose/methods.cpp')],
 observe=['relative_pose::fivept_stewenius', 'relative_pose::fivept_nister', 'relative_pose::sevenpt', 'relative_pose::eightpt'])

prop('C04', 'Direct rotation and translation solvers for central relative pose are exact',
 'With the true relative rotation as prior the two-point solver returns the true direction of translation; for pure rotations the two-point and n-point rotation solvers return the true rotation and the n-point one the least-squares optimum under noise. The rotation list of the five-point rotation solver contains the true rotation, and the eigenvalue-based solver started near it returns it with a zero smallest eigenvalue, a translation along the true one, and eigenvalues in descending order with matching eigenvectors; weightless correspondences have no influence. All returned matrices are proper rotations (five-point solver: up to its numerical accuracy, and the truth in the large majority of scenes).',
 ['inputs'], 'all rotations and translations, viewing directions, point counts, weights, starting values in the convergence basin, index subsets, unrotate flag',
 WHY + 'sign disambiguation and root handling depend on the motion and scene.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/eigensolver', 'src/relative_pose/modules/fivept_kneip'],
 [('twopt / twopt_rotationOnly / rotationOnly', 'src/relative_pose/methods.cpp'), ('eigenvalue minimisation', 'src/relative_pose/modules/main.cpp, src/relative_pose/modules/eigensolver/modules.cpp'), ('Groebner basis over rotation entries', 'src/relative_pose/modules/fivept_kneip')],
 observe=['relative_pose::twopt', 'relative_pose::twopt_rotationOnly', 'relative_pose::rotationOnly', 'relative_pose::fivept_kneip', 'relative_pose::eigensolver'])

prop('C05', 'Generalized relative-pose solvers recover the full-scale motion of a camera rig',
 'For exact bearing-vector pairs seen by a multi-camera rig in general position, the 17-point solver returns the true relative pose of the rig including metric translation, the rotation list of the six-point solver contains the true rotation (in the large majority of scenes), and the generalized eigenvalue solver finds, for moderate rotations, the true rotation with a vanishing smallest eigenvalue and the true metric translation to its stopping accuracy (again in the large majority of scenes). All returned rotations are proper.',
 ['inputs'], 'all rig poses, rig geometries, assignments of correspondences to cameras (same or different cameras in the two views), numbers of correspondences, index subsets',
 WHY + 'they use one rig and one motion per run.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/ge', 'src/relative_pose/modules/sixpt'],
 [('17-point linear system and decomposition', 'src/relative_pose/methods.cpp'), ('6-point action matrix', 'src/relative_pose/modules/sixpt'), ('4x4 eigenvalue minimisation', 'src/relative_pose/modules/ge')],
 observe=['relative_pose::seventeenpt', 'relative_pose::sixpt', 'relative_pose::ge'])

prop('C06', 'Nonlinear refinement converges to the optimum and never worsens the estimate',
 'Non-linear refinement of an absolute pose, a central or generalized relative pose, or a point-cloud transformation, started from the pose stored in the adapter, returns a proper rigid transformation whose summed residual over the given correspondences is not larger than that of the start. From a start in the neighbourhood of the truth on exact data it returns the truth (for central relative pose: up to the length of the translation), and on noisy data it returns a local minimum.',
 ['inputs'], 'all poses, scenes, camera rigs, noise levels, perturbed starting values, correspondence subsets',
 WHY + 'convergence and monotonicity are statements about all starting values.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/math/cayley.cpp'],
 [('Levenberg-Marquardt over translation and Cayley parameters', 'optimize_nonlinear in the three methods.cpp files')],
 observe=['absolute_pose::optimize_nonlinear', 'relative_pose::optimize_nonlinear', 'point_cloud::optimize_nonlinear'])

prop('C07', 'Point-cloud registration is the least-squares optimal rigid transformation',
 'For two point sets the closed-form registration returns the proper rigid transformation that maps points of frame 2 to frame 1 with the minimal sum of squared distances: exactly the true one on exact data, a global minimiser under any noise or gross mismatch, never a reflection. It commutes with rigid changes of either frame and ignores the order of the points.',
 ['inputs'], 'all point sets with at least three non-collinear points, planar sets included, all transformations, noise, reflected sets, index subsets',
 WHY + 'optimality, the reflection branch and planar sets are not exercised.',
 ['src/point_cloud/methods.cpp', 'src/math/arun.cpp'],
 [('centroid removal, cross-covariance SVD, determinant correction', 'src/math/arun.cpp, src/point_cloud/methods.cpp')],
 observe=['point_cloud::threept_arun', 'math::arun', 'math::arun_complete'])

prop('C08', 'Triangulation returns the scene point in the frame of the first view',
 'For a bearing pair and the relative pose stored in the adapter, both triangulation methods return, for exact data, the scene point expressed in the frame of view 1. The mid-point method returns, for arbitrary non-parallel bearings, the middle of the shortest segment between the two viewing lines; both methods are invariant to the order and values of all other correspondences.',
 ['inputs'], 'all relative poses with non-zero translation, all points off the baseline in every direction, non-intersecting rays, every index',
 WHY + 'omnidirectional bearings, non-intersecting rays and anisotropic poses are not compared with any reference.',
 ['src/triangulation/methods.cpp'],
 [('linear DLT triangulation', 'triangulate'), ('mid-point triangulation', 'triangulate2')],
 observe=['triangulation::triangulate', 'triangulation::triangulate2'])

prop('C09', 'Rotation parametrisations describe the same rotation and invert each other',
 'Converting unit quaternions or Cayley parameters to a rotation matrix yields the proper rotation they denote (the same active rotation convention everywhere), and converting any rotation matrix back yields finite parameters which denote that matrix, for all rotations (Cayley: all but half turns), structured ones such as the identity, quarter and half turns included.',
 ['inputs'], 'all unit quaternions, Cayley vectors and rotation matrices',
 'No existing test calls the quaternion conversions directly or looks at the results; branch selection and signs depend on which component dominates, and exact zeros occur only for structured rotations.',
 ['src/math/quaternion.cpp', 'src/math/cayley.cpp'],
 [('four-branch sign recovery', 'rot2quaternion'), ('C = (R-I)(R+I)^-1', 'rot2cayley')],
 observe=['math::quaternion2rot', 'math::rot2quaternion', 'math::cayley2rot', 'math::cayley2rot_reduced', 'math::rot2cayley'])

prop('C10', 'Polynomial root finders and linear elimination agree with the algebra',
 'For polynomials with separated roots the cubic and quartic formulas return the real parts of all roots with multiplicity, Sturm chains count the distinct real roots between any two bounds, the root bound encloses all real roots, and Sturm-based root finding returns every real root once and nothing else to the requested accuracy. Gauss-Jordan elimination turns any non-singular system into the equivalent reduced one from the requested row on, using row operations only.',
 ['inputs'], 'all polynomials up to degree ten with separated roots (any mixture of real roots and complex pairs, any leading coefficient), all brackets and tolerances; all matrices of full row rank, all exit rows',
 'The Sturm test prints roots of one fixed polynomial; the closed forms and the elimination are only used inside solvers.',
 ['src/math/roots.cpp', 'src/math/Sturm.cpp', 'src/math/gauss_jordan.cpp'],
 [('Cardano / Ferrari closed forms', 'src/math/roots.cpp'), ('Sturm chain, Lagrange bound, bisection with Newton polishing', 'src/math/Sturm.cpp'), ('pivoted forward elimination and back substitution up to exitCondition', 'src/math/gauss_jordan.cpp')],
 observe=['math::o3_roots', 'math::o4_roots', 'math::Sturm', 'math::Bracket', 'math::gauss_jordan'])

prop('C11', 'Adapters expose exactly the user data under every indexing scheme',
 'Every adapter returns for each index the bearing vector, point, weight, camera offset and camera rotation the user supplied for that correspondence (identity / zero / one where the type has none), the correct number of correspondences, and the prior pose given at construction or set last. For multi-camera adapters the serialised index and the (camera, correspondence) pair are inverse bijections, for any numbers of correspondences per camera including empty cameras, and both views of the data agree.',
 ['inputs', 'configurations', 'histories'], 'all adapter types and constructors, all data sizes including empty cameras, all indices, all sequences of prior updates',
 'Tests use equal numbers of correspondences in every camera and never read the data back.',
 ['src/absolute_pose', 'src/relative_pose', 'src/point_cloud', 'include/opengv/absolute_pose', 'include/opengv/relative_pose', 'include/opengv/point_cloud'],
 [('index tables filled in the constructors', '*MultiAdapter.cpp, MANoncentralRelativeMulti.cpp'), ('array strides 3 and 6', 'MA*.cpp')],
 state=[dict(name='prior pose', meaning='starting value / known part of the pose', where='AbsoluteAdapterBase, RelativeAdapterBase, PointCloudAdapterBase')],
 observe=['all adapter getters'])

prop('C12', 'Index lists only select correspondences; order and frame do not matter',
 'Calling any algorithm with an index list gives the same result as calling it on an adapter holding only those correspondences in that order, and calling it without a list equals passing all indices in order. On well-conditioned data the set of results does not depend on the order of the correspondences (gPnP: on exact data), and results transform covariantly when the world frame or a viewpoint frame is changed by a rigid motion or the scene is uniformly scaled (under noise only where the minimised error does not depend on the frame).',
 ['inputs'], 'every index-taking algorithm, all index lists (subsets, permutations, offsets), all rigid changes of frame and scalings, noisy data',
 WHY + 'they only use the identity index list.',
 ['include/opengv/Indices.hpp', 'src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp'],
 [('Indices wrapper', 'include/opengv/Indices.hpp'), ('overload delegation', 'methods.cpp files')],
 observe=['every function taking an index vector'])

prop('C13', 'Hypothesis samples are valid, uniformly drawn subsets of the allowed indices',
 'Each sample drawn by a sample-consensus problem has exactly the declared size (per camera for multi-camera problems), consists of distinct members of the current index set, and over many draws every member and every pair is drawn equally often, also after the index set is replaced. A request that can not be met, or that the sample validator rejects persistently, yields an empty sample instead of an invalid one, and runs with a fixed seed are reproducible.',
 ['inputs', 'histories'], 'all index sets and sizes, all sample sizes, all histories of draws and index-set changes, all validators',
 'Tests draw a few samples inside Ransac from the full set and never look at them; uniformity is a property of the distribution.',
 ['include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp', 'src/sac_problems'],
 [('partial Fisher-Yates shuffle of a persistent permutation', 'drawIndexSample'), ('sample size distribution over cameras', 'getSampleSizes')],
 state=[dict(name='shuffled index permutation', meaning='current permutation of the index set', where='shuffled_indices_')],
 observe=['getSamples', 'drawIndexSample', 'setIndices', 'setUniformIndices', 'getSampleSize(s)'])

prop('C14', 'Robust estimators report the best hypothesis and exactly its inliers',
 'A successful run of the single- or multi-camera random sample consensus returns the hypothesis with the most inliers among those it tried (least median of squares: the smallest median squared distance), the sample that produced it, and exactly the allowed indices whose distance is below the threshold (least median: not above), in order. The number of iterations respects the configured maximum and the adaptive stopping rule for the requested probability, failing hypotheses are skipped without counting, and a run without any hypothesis, also a repeated run on the same object, reports failure with no inliers.',
 ['inputs', 'histories', 'fault_sequences'], 'all problems (distances, failing hypotheses), thresholds, probabilities, iteration limits, index sets, repeated runs',
 'Tests run each estimator once on one easy scene and print the result.',
 ['include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/Lmeds.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp', 'include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'],
 [('main loop with adaptive k', 'computeModel'), ('selectWithinDistance / countWithinDistance', 'SampleConsensusProblem')],
 state=[dict(name='result members', meaning='model, coefficients, inliers, iterations of the last run', where='SampleConsensus, MultiSampleConsensus')],
 observe=['Ransac', 'MultiRansac', 'Lmeds'])

prop('C15', 'Hypothesis scores are the documented geometric residuals for every problem type',
 'For every sample-consensus problem the distances of a hypothesis to the selected correspondences are, one per requested index and in that order, the documented ones: one minus the cosine between measured and reprojected bearing (absolute pose), the sum of both such errors after mid-point triangulation with the proper camera extrinsics (relative pose), the rotated-bearing error (rotation only), or the Euclidean distance (point clouds).',
 ['inputs', 'configurations'], 'all problem types and algorithms, arbitrary (also wrong) hypotheses, single and multi-camera rigs, all index subsets and orders',
 'Tests only score full index sets and never compare scores with anything.',
 ['src/sac_problems'],
 [('getSelectedDistancesToModel', 'src/sac_problems/*/*SacProblem.cpp')],
 observe=['getSelectedDistancesToModel', 'getDistancesToModel', 'countWithinDistance', 'selectWithinDistance'])

prop('C16', 'Outlier-free samples produce the true model; optimisation improves it',
 'For every sample-consensus problem and algorithm, computing a hypothesis from an outlier-free sample of the declared size returns success and the true model with a proper rotation (central relative pose: the true direction of translation with the points in front of both views), whatever the order of the sample; for the iterative and the six-point rig algorithms in the large majority of well-posed scenes and after a few random starts. From any sample, however noisy or wrong, the hypothesis is the solution of the minimal solver that fits the additional correspondences of the sample best. Optimising a hypothesis over an inlier set returns the true model on exact data, stays near it on noisy data, and (where it minimises the residuals of the problem, i.e. for all but the eigenvalue and rotation-only problems) never increases the summed squared residual.',
 ['inputs', 'configurations'], 'all problem types and algorithms, poses, rigs, samples and sample orders, hypotheses near the truth, inlier subsets',
 WHY + 'the disambiguation code for each algorithm sees one scene per run.',
 ['src/sac_problems'],
 [('computeModelCoefficients with disambiguation by extra points', 'src/sac_problems/*/*SacProblem.cpp'), ('optimizeModelCoefficients', 'src/sac_problems/*/*SacProblem.cpp')],
 observe=['computeModelCoefficients', 'optimizeModelCoefficients', 'getSampleSize(s)'])

prop('C17', 'Robust estimation recovers pose and inlier set despite gross outliers',
 'With exact inliers and a moderate share of gross outliers, robust estimation with any of the supported problem types and algorithms recovers the true model and marks exactly the true inliers (up to outliers that happen to be consistent), for single- and multi-camera problems and restricted index sets; refining on the inliers keeps it.',
 ['inputs', 'configurations'], 'all problem types and algorithms, scenes, outlier patterns and shares, rigs, index restrictions',
 WHY + 'success of the whole pipeline is only visible when pose and inliers are compared with the truth over many scenes.',
 ['include/opengv/sac', 'src/sac_problems', 'src/absolute_pose', 'src/relative_pose', 'src/point_cloud'],
 [('Ransac / Lmeds / MultiRansac over the problem types', 'include/opengv/sac/implementation')],
 observe=['computeModel', 'optimizeModelCoefficients'])

prop('C18', 'Calls are pure: results depend only on the arguments, inputs stay untouched',
 'No algorithm changes the user data (bearings, points, weights, index lists, rig geometry), and algorithms that take the adapter read-only leave its prior pose unchanged. Repeating a call, or interleaving it with other calls on the same or other adapters, or running calls on different adapters concurrently in several threads, gives bit-identical results for identical data and prior; scoring hypotheses does not change later hypotheses, scores or optimisation results.',
 ['histories', 'inputs', 'schedules'], 'all sequences of calls of all algorithms and sample-consensus problem methods on shared adapters, concurrent calls on different adapters, generic and degenerate data',
 'Each test calls every algorithm in one fixed order on fresh adapters.',
 ['src', 'include/opengv'],
 [('const adapters; explicit priors', 'methods.hpp'), ('save / restore of the prior around scoring', 'src/sac_problems/relative_pose/EigensolverSacProblem.cpp')],
 state=[dict(name='prior pose', meaning='mutable part of the adapter', where='adapter base classes')],
 observe=['all algorithms', 'all problem methods', 'gett/getR/gett12/getR12'])

prop('C19', 'No admissible input makes the library read or write out of bounds or diverge',
 'For every admissible input, degenerate geometry included (coincident or collinear points, zero baseline, repeated indices, identical bearings), every algorithm returns without out-of-bounds access, use of dead memory, failed assertion, integer or floating-to-integer undefined behaviour, or endless loop.',
 ['inputs', 'histories'], 'all algorithms and sample-consensus problems, generic and degenerate data of any admissible size',
 'The tests run without sanitizers on generic scenes only.',
 ['src', 'include/opengv'],
 [('fixed-size Eigen blocks, index arithmetic, root loops', 'all of src')],
 observe=['all algorithms under AddressSanitizer and UndefinedBehaviorSanitizer'])

prop('C20', 'The MATLAB and Python interfaces return exactly what the C++ library computes',
 'For every method of the MATLAB entry point and every function of the Python module, and every data set, the returned arrays are exactly the results of the corresponding C++ call on the same correspondences: MATLAB as 3xn / 6xn columns (data1 = world points or frame 1, data2 = bearing vectors or frame 2, rows 4-6 = camera offset), 1-based index lists, prior given as 3x1 translation, 3x3 rotation or 3x4 pose, one 3xk slice per solution, robust methods with the half-pixel threshold at focal length 800, 50 iterations and 1-based inliers as second output; the timing variant returns the same results; the experimental entry points return pose, iteration count and number of inliers; Python takes n x 3 row arrays and returns row-major matrices or lists of them, robust functions honour algorithm name, threshold, iterations and probability. Malformed MATLAB calls (unknown method, wrong shapes, mismatched counts, bad prior, wrong number of arguments or outputs) return nothing, modify nothing and say so.',
 ['inputs', 'configurations'], 'all methods, all data sizes, central and non-central data, every call form, every prior form, all malformed calls of the listed kinds',
 'The existing tests do not touch the MATLAB and Python interfaces at all; '
 'a transposed copy, an off-by-one index, a prior that is dropped for one method or a result of the wrong algorithm stays invisible to them.',
 ['matlab/opengv.cpp', 'matlab/opengv_donotuse.cpp', 'matlab/opengv_experimental1.cpp', 'matlab/opengv_experimental2.cpp', 'python/pyopengv.cpp', 'python/types.hpp', 'src/absolute_pose/MACentralAbsolute.cpp', 'src/absolute_pose/MANoncentralAbsolute.cpp', 'src/relative_pose/MACentralRelative.cpp', 'src/relative_pose/MANoncentralRelative.cpp', 'src/relative_pose/MANoncentralRelativeMulti.cpp', 'src/point_cloud/MAPointCloud.cpp'],
 [('mexFunction: method table, argument checks, priors, dispatch, copying of results', 'matlab/opengv.cpp'), ('adapters over numpy arrays, result conversion, function table', 'python/pyopengv.cpp')],
 observe=['mexFunction (through a stand-in for mex.h)', 'functions registered by PYBIND11_MODULE (through a stand-in for pybind11)'])

prop('C21', 'Results do not depend on how the same correspondences are presented',
 'Every algorithm returns the same result through every adapter that presents the same correspondences: vector based, multi-camera and raw-array adapters; a rig whose cameras are renumbered, split into one camera per bearing vector or padded with unused cameras; central data as a rig of one camera at the viewpoint; explicit unit weights instead of none. The multi-camera sample-consensus problems give the same scores, index sets, selections, counts and optimised models (and, except for the six-point method which draws a random start camera, the same hypotheses) as the single ones on the serialised correspondences.',
 ['inputs', 'configurations'], 'all algorithms, all pairs of equivalent adapters and rig descriptions, exact and noisy data, index subsets',
 'The tests run each algorithm through one adapter type and one rig layout and never compare two presentations of the same data; a getter that is right for one adapter only, or an algorithm that reads cameras by position instead of by correspondence, passes them.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/relative_pose/NoncentralRelativeMultiAdapter.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'],
 [('adapter getters and multi-index serialisation', 'include/opengv/absolute_pose/AbsoluteMultiAdapterBase.hpp'), ('adapter getters and multi-index serialisation', 'include/opengv/relative_pose/RelativeMultiAdapterBase.hpp')],
 observe=['all functions of absolute_pose, relative_pose, point_cloud, triangulation', 'Multi*SacProblem against *SacProblem'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
