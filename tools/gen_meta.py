#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json of /verif (run after editing the tables below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, tests, files, mech, technique, note, over=("inputs",)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests, files=files, mech=mech, technique=technique, note=note))

BASE = "Random search, not a proof: %s"

prop("C01", "Homogeneous points are kept normalised and convert without loss",
     "Every homogeneous 3d point the library holds has a unit direction and a non-negative reciprocal distance, whatever non-zero vector it was made from, and represents the same projective point independent of the scale of that vector. Converting a finite point to this form and back returns the point (up to rounding), the bearing is its direction, and exactly the points at infinity have no Euclidean coordinates.",
     "all homogeneous vectors (any scale, sign and zero patterns, w zero, tiny or huge) and Euclidean points up to 1e+-12 in magnitude, for camera and world points",
     "no unit test touches the conversion; doctests use a single point. The statement is over all magnitudes, signs and the points at infinity.",
     ["cv-core/src/point.rs"], [("normalised homogeneous constructor", "cv-core/src/point.rs: Projective::from_homogeneous"), ("Euclidean conversion", "cv-core/src/point.rs: Projective::point / from_point / bearing")],
     "property-based testing: algebraic laws over generated projective points", BASE % "1.6M points per quick run against exact algebraic relations with relative tolerances.")

prop("C02", "Poses act on projective points as rigid transforms and invert exactly",
     "Applying a pose to a homogeneous point gives the rotated and translated point, normalised, and points at infinity are only rotated and stay at infinity. Inverting a pose gives the pose mapping all points back, building, scaling and converting poses keeps their parts, and the transform between two reconstructions, made from the poses of one camera in both, takes every point to the one at the same place relative to the camera and inverts when both are swapped.",
     "all four pose types, all rotations (incl. zero, half turn), translations 1e-9..1e12, points at distances 1e-9..1e13 and infinity",
     "unit tests transform one or two fixed points with one pose; homogeneous normalisation, infinity and the pose algebra are universally quantified.",
     ["cv-core/src/pose.rs"], [("transform", "cv-core/src/pose.rs: Pose::transform / homogeneous / inverse / scale"), ("world-to-world composition", "cv-core/src/pose.rs: WorldToWorld::from_camera_poses and conversions")],
     "property-based testing: reference model of rigid transforms", BASE % "1.9M cases per quick run against an independently written matrix model.")

prop("C03", "Rotation and pose exponential and logarithm are inverse to each other",
     "The exponential of a rotation vector is the rotation about its direction by its length, always a proper rotation, and the logarithm of every rotation, including half turns and rotations arbitrarily close to them or to the identity, is a vector of length at most pi whose exponential is that rotation. Converting a pose to its six-vector and back returns the pose.",
     "rotation vectors of any axis and length 0..20 rad, concentrated near 0, sqrt(eps) and pi; translations of any size",
     "tests use no rotation close to pi or to zero; branch boundaries in angle are measure-zero for samples picked by hand.",
     ["cv-core/src/so3.rs", "cv-core/src/pose.rs"], [("exponential", "cv-core/src/so3.rs: From<Skew3> for Rotation3"), ("logarithm", "cv-core/src/so3.rs: From<Rotation3> for Skew3"), ("pose six-vector", "cv-core/src/pose.rs: Pose::se3 / from_se3")],
     "property-based testing: round trips and closed-form reference (Rodrigues)", BASE % "1.6M rotations per quick run, biased to the critical angles.")

prop("C04", "Rotation algebra: hat, bracket and Jacobians match their definitions",
     "The matrix of a rotation vector is antisymmetric and multiplies like the cross product, reading the vector back returns it, the bracket is antisymmetric, satisfies the Jacobi identity and equals the cross product. The Jacobians of a rotated point with respect to the point and to a rotation applied on the left are the rotation matrix and minus the cross-product matrix of the rotated point.",
     "all rotation vectors and points of magnitudes 1e-6..1e3",
     "existing tests never call these functions with independent expectations.",
     ["cv-core/src/so3.rs"], [("hat, hat2, vee, bracket", "cv-core/src/so3.rs: Skew3 methods"), ("Jacobians", "cv-core/src/so3.rs: Skew3::jacobian_input / jacobian_self")],
     "property-based testing: algebraic identities and reference formulas", BASE % "hundreds of thousands of vectors per run.")

prop("C05", "Pose Jacobians are the derivatives of the transformed point",
     "For every pose and every homogeneous point, the returned Jacobians are the derivatives of the transformed point with respect to the input point and to a small pose change applied on the left (rotation and translation). The transformed point returned along with them is the one the plain transform gives, and asking for one or both Jacobians makes no difference.",
     "all pose types, points (also at infinity), perturbation directions",
     "no existing test checks a Jacobian against finite differences.",
     ["cv-core/src/pose.rs"], [("Jacobians", "cv-core/src/pose.rs: Pose::transform_jacobians / transform_jacobian_input / transform_jacobian_self")],
     "property-based testing: finite differences and closed-form oracle", BASE % "960k pose/point pairs per quick run, with finite differences and closed forms as oracles.")

prop("C06", "Small pose steps compose, scale and cancel as documented",
     "A tangent step acts as a translation followed by a rotation; scaling, adding and summing steps and converting them to vectors and back act component by component, the identity step moves nothing, and a step followed by its inverse cancels up to a term bounded by the product of rotation and translation. The L1 form of a step has unit parts (or zero parts for zero input), and steps with NaN parts have these parts replaced by zero.",
     "all steps with translations 1e-6..1e2 and rotations up to pi, sums of several steps, all NaN patterns",
     "no existing test constructs a tangent step.",
     ["cv-core/src/so3.rs"], [("tangent steps", "cv-core/src/so3.rs: Se3TangentSpace")],
     "property-based testing: reference model of tangent steps", BASE % "960k steps per quick run.")

prop("C07", "World residual is one minus the cosine of the observation error",
     "The residual of a camera pose for an observed world point is one minus the cosine of the angle between the observed bearing and the direction the pose predicts, so it is in [0, 2], zero for exact observations and two for opposite ones. It does not change when the camera frame is turned along with the observation or the unit of length changes.",
     "all poses, points (also at infinity) and observations (exact, opposite, tilted by 1e-8..1, arbitrary)",
     "tests exercise it only through consensus with a handful of points.",
     ["cv-core/src/pose.rs"], [("residual", "cv-core/src/pose.rs: Model<FeatureWorldMatch> for WorldToCamera")],
     "property-based testing: closed-form oracle and metamorphic relations", BASE % "4M cases per quick run.")

prop("C08", "Relative-pose residual measures the misfit of the best common point",
     "The residual of a relative pose for a pair of bearings is the average of the cosine distances of both bearings to the least-squares point, is within [0, 2], and is zero for bearings that see a common point in front of both cameras, while each camera that would have the point behind it adds one. It never falls below the smallest misfit the epipolar geometry allows, and neither turning the camera frames nor changing the length of the baseline of an exact match changes it.",
     "all relative poses and bearing pairs: exact, reversed, tilted, arbitrary, along the baseline, parallel",
     "tests reach it only through consensus on a few points; eigenvalue order and cheirality branches depend on the input.",
     ["cv-core/src/pose.rs"], [("residual", "cv-core/src/pose.rs: Model<FeatureMatch> for CameraToCamera")],
     "property-based testing: independent least-squares solver as oracle, metamorphic relations", BASE % "1.2M cases per quick run; the library's eigen-solver is inexact for rare inputs, so three equivalent frames are evaluated.")

prop("C09", "Serialised values come back unchanged",
     "Serialising any pose, point, match, rotation vector, intrinsics or camera model and reading it back, as text or in binary, gives an equal value.",
     "all serialisable public types with generated contents, JSON and bincode",
     "no existing test serialises anything.",
     ["cv-core/src/pose.rs", "cv-core/src/point.rs", "cv-core/src/matches.rs", "cv-core/src/so3.rs", "cv-pinhole/src/lib.rs"], [("serde derives", "serde-serialize feature of cv-core and cv-pinhole")],
     "property-based testing: round trips", BASE % "all values generated, both formats.")

prop("C10", "Pixels and bearings of the pinhole camera are inverse to each other",
     "Every pixel has a forward unit bearing, and the pixel of this bearing is the original one; every bearing in front of the camera has the pixel given by the intrinsic matrix, and bearings behind the camera have none. Focal lengths, principal point and skew act as the intrinsic matrix says.",
     "all intrinsics (focal lengths 1e-3..1e6, any principal point and skew) and pixels from the centre to far outside of the image",
     "tests calibrate one keypoint with one camera without skew.",
     ["cv-pinhole/src/lib.rs"], [("calibrate / uncalibrate", "cv-pinhole/src/lib.rs: CameraModel for CameraIntrinsics"), ("matrix", "cv-pinhole/src/lib.rs: CameraIntrinsics::matrix")],
     "property-based testing: round trip and intrinsic-matrix reference", BASE % "4M camera/pixel pairs per quick run.")

prop("C11", "Radial distortion is applied and removed consistently",
     "The camera with radial distortion divides the offset of a pixel from the principal point by 1 + k1 r^2 (in calibrated units) to find its bearing, and projecting a bearing solves this relation: within the invertible range pixels and bearings are inverse to each other, including the principal point. Bearings that cannot be seen through the distortion or are behind the camera have no pixel, and without distortion the model equals the plain pinhole camera.",
     "all intrinsics x k1 in [-10, 10] including 0 and tiny values x pixels in the invertible radius x arbitrary forward bearings",
     "one test uses one k1 and one keypoint away from the principal point.",
     ["cv-pinhole/src/lib.rs"], [("distortion", "cv-pinhole/src/lib.rs: CameraModel for CameraIntrinsicsK1Distortion")],
     "property-based testing: round trip, closed-form and root-finding oracle", BASE % "4M cases per quick run.")

prop("C12", "Cameras built from a sensor description are centred and to scale",
     "Intrinsics made from pixel dimensions, sensor size and focal length have the focal lengths in pixels that these imply and the principal point at the centre of the image, so that opposite corners are seen at mirrored bearings. Builders and accessors keep all other values.",
     "all resolutions from 1 to 1e6 pixels per side, sensor sizes and focal lengths",
     "no test builds a camera from a specification.",
     ["cv-pinhole/src/lib.rs"], [("specification", "cv-pinhole/src/lib.rs: CameraSpecification, CameraIntrinsics builders")],
     "property-based testing: closed-form oracle and mirror symmetry", BASE % "2M specifications per quick run.", over=("inputs", "configurations"))

prop("C13", "Essential matrices encode the epipolar constraint of their pose",
     "The essential matrix of a relative pose satisfies the internal constraints of essential matrices, has the epipoles in its null spaces and gives zero for every pair of bearings that see the same point. Its residual is the magnitude of the bilinear form of the bearings scaled to unit depth, is symmetric in the cameras, ignores the sign of the matrix and grows with the baseline.",
     "all relative poses x scene points x arbitrary bearing pairs x scales",
     "one randomised test checks the residual of exact matches with a loose threshold.",
     ["cv-pinhole/src/essential.rs", "cv-core/src/pose.rs"], [("pose to essential", "cv-core/src/pose.rs / cv-pinhole/src/essential.rs: CameraToCamera::essential_matrix"), ("residual", "cv-pinhole/src/essential.rs: Model<FeatureMatch> for EssentialMatrix")],
     "property-based testing: closed-form oracle and metamorphic relations", BASE % "4M cases per quick run.")

prop("C14", "Decomposing an essential matrix yields exactly its four candidate poses",
     "An essential matrix decomposes into two proper rotations that differ by half a turn about the unit translation and into the four combinations with both signs of it; the pose the matrix was made from is among them and a point in front of both cameras is so for exactly one of the four. All variants of the decomposition agree, and a noisy matrix yields the poses of the closest essential matrix.",
     "all relative poses, matrix scales and signs, solver tolerances, noise up to the size of the matrix",
     "randomised tests sample a few poses and only test that one candidate is near the truth.",
     ["cv-pinhole/src/essential.rs"], [("decomposition", "cv-pinhole/src/essential.rs: EssentialMatrix::possible_unscaled_poses / possible_rotations / possible_unscaled_poses_bearing")],
     "property-based testing: reconstruction oracle over generated poses", BASE % "2M matrices per quick run; rare inaccurate SVD results of the linear-algebra library are told apart by rotated frames.")

prop("C15", "Reconditioning gives the closest essential matrix",
     "Reconditioning a 3x3 matrix gives an essential matrix with the mean of its two largest singular values twice and zero, and no essential matrix is closer to the input. Essential matrices are left as they are, and whenever the matrix is regular a result is given.",
     "matrices with free, nearly essential, repeated and rank-deficient singular values in any frame",
     "a test compares with a copy of the old algorithm on random matrices only.",
     ["cv-pinhole/src/essential.rs"], [("recondition", "cv-pinhole/src/essential.rs: EssentialMatrix::recondition")],
     "property-based testing: independent Jacobi SVD oracle and rival search", BASE % "2M matrices per quick run.")

prop("C16", "Reprojection errors are the distances in the image planes",
     "The reprojection error of a pose, a triangulated point and a pair of bearings is, for each camera, the offset from the projection of the point to the bearing in the plane at unit depth, and the average error is the mean length of both offsets. Without a point in front of both cameras there is none, and exact matches have zero error.",
     "all poses, bearings and claimed points (finite, at infinity, missing, behind a camera)",
     "no test calls these functions.",
     ["cv-pinhole/src/lib.rs"], [("reprojection errors", "cv-pinhole/src/lib.rs: pose_reprojection_error / average_pose_reprojection_error")],
     "property-based testing: closed-form oracle", BASE % "3M cases per quick run.")

TRI = ["cv-geom/src/triangulation.rs"]
TRIM = [("two-view and many-view triangulators", "cv-geom/src/triangulation.rs: TriangulatorRelative / TriangulatorObservations implementations")]
prop("C17", "Triangulation recovers points from exact observations",
     "Every triangulator but the approximate mean-mean one, given exact observations of a point in front of the cameras from two or more places with enough parallax, returns this point, whatever the world or camera frame and the unit of length.",
     "relative poses, finite points, 2-6 cameras, world frames, scales",
     "tests use a few points in front of fixed camera arrangements.",
     TRI, TRIM, "property-based testing: exact-recovery oracle", BASE % "1.2M scenes x all triangulators per quick run.")
prop("C18", "Triangulated points are normalised and in front of all their cameras",
     "Whatever the observations (exact, noisy, contradictory, reversed, or from coinciding cameras), a triangulator returns either nothing or a finite, normalised point in front of every camera, on the side its bearing points to. Fewer than two observations give no point.",
     "1-5 cameras (also coinciding) x bearings that are exact, noisy, reversed or free",
     "existing tests only pass consistent observations; cheirality must hold for all.",
     TRI, TRIM, "property-based testing: invariant over adversarial observations", BASE % "900k observation sets x all triangulators per quick run.")
prop("C19", "Triangulation does not depend on frames, units, order or interface",
     "Moving the world, turning cameras along with their bearings, changing the unit of length and reordering the observations moves the triangulated point accordingly and changes nothing else, with noisy observations as well. The interfaces for two relative cameras, for world observations and for observations to a camera agree with each other, and swapping both cameras gives the same point.",
     "2-5 cameras x noisy bearings x frame changes, scales, permutations, camera swaps",
     "tests never compare results of related inputs.",
     TRI, TRIM, "property-based testing: metamorphic relations", BASE % "360k scenes x all triangulators and relations per quick run.")
prop("C20", "Triangulated points are optimal for the advertised error",
     "For noisy observations the angular two-view triangulators return the point with the smallest sum or the smallest maximum of the angular reprojection errors, so that no other point is better, and they return a point exactly if the corrected rays meet in front of both cameras. The linear eigenvalue triangulator returns the minimiser of the algebraic error of all views if it is in front of them, and the iterative sine triangulator ends at the point closest to all observation rays, never worse than its start; the mean-mean triangulator returns the mean, over all observations, of the point of the mean ray (mean camera position, mean bearing) closest to the ray of the observation.",
     "relative poses x noisy or free bearings x up to three more cameras x rival points",
     "tests check nearness to the truth, never optimality.",
     TRI, TRIM, "property-based testing: independent optimiser and rival points as oracle", BASE % "360k scenes per quick run; the optimum is searched over epipolar planes or with an independent eigen-solver; 1.2M scenes against the documented mean-mean point.")

prop("C21", "The epipolar loss is the sine of the smallest correction of both bearings",
     "The loss of a pair of bearings for a translation between their cameras is in [0, 1], zero for bearings that see the same point, and equals the sine of the smallest total angle by which the bearings have to change to be in one plane with the translation; it is one for bearings more than a right angle apart or without translation. It does not depend on the frame, the unit of length, the order of the bearings or the sign of the translation.",
     "all translations and bearing pairs: exact, noisy, along the baseline, reversed, free",
     "no test calls it.",
     ["cv-geom/src/epipolar.rs"], [("loss", "cv-geom/src/epipolar.rs: loss and helpers")],
     "property-based testing: closed-form oracle and search for the smallest correction", BASE % "4M cases per quick run.")
prop("C22", "Epipolar gradients move points, poses and cameras the right way",
     "Following the gradient of a point or camera pose moves the point exactly onto the ray of the observation or turns it towards it; the rotation gradients of three views turn bearings about the baselines into common epipolar planes and the translation gradients move each camera towards the ray through the point seen by the other two. Gradients vanish for exact matches, turn with the frame and, for translations, grow with the unit of length.",
     "point offsets x bearings (near and free) x two camera positions x noisy bearings",
     "no test calls them.",
     ["cv-geom/src/epipolar.rs"], [("point and pose gradients", "cv-geom/src/epipolar.rs: point_gradient / world_pose_gradient / relative gradients"), ("three-view gradients", "cv-geom/src/epipolar.rs: three_view_gradients")],
     "property-based testing: closed-form oracle and metamorphic relations", BASE % "3.2M cases per quick run. One recorded finding (mirrored baseline in the three-view translation gradients) is accepted exactly in its recorded form.")

prop("C23", "The eight-point estimator recovers the relative pose of exact matches",
     "From eight exact matches in general position the eight-point estimator returns poses with a proper rotation and a unit translation, among them the true pose up to the scale of its translation, independent of camera frames and the order of the matches. For arbitrary bearings every returned pose comes from the least-squares solution of the epipolar constraints of all eight matches.",
     "relative poses x eight points in front or all around x frames x orders, also arbitrary bearings",
     "one randomised test per crate samples a few near-identity poses and filters by residual.",
     ["eight-point/src/lib.rs"], [("estimator", "eight-point/src/lib.rs: EightPoint::from_matches / Estimator impl"), ("epipolar equations", "eight-point/src/lib.rs: encode_epipolar_equation")],
     "property-based testing: exact-recovery oracle, three equivalent frames", BASE % "300k cases per quick run; at least one of three equivalent frames must be accurate, all within a coarse bound, and the share of bad ones is limited.")
prop("C24", "The three-point estimator recovers the camera pose from exact observations",
     "From exact observations of three world points that are not in line, the three-point estimator returns at most four poses with proper rotations, each mapping the points in front of the camera onto the bearings, and the true pose is among them, for every orientation of the camera and also for half turns. Where the closed-form depths are inexact, the refinement iterations bring the poses onto the observations. Points at infinity give no pose.",
     "poses x three points in front or all around the camera x scales x refinement iterations",
     "tests use three fixed points and random small poses.",
     ["lambda-twist/src/lib.rs"], [("solver", "lambda-twist/src/lib.rs: LambdaTwist::compute_poses_nordberg"), ("depth refinement", "lambda-twist/src/lib.rs: gauss_newton_refine_lambda"), ("cubic and eigen solvers", "lambda-twist/src/lib.rs: cube_root, eigen_decomposition_singular, root2real")],
     "property-based testing: exact-recovery oracle with limits on the share of misses", BASE % "600k cases per quick run; near-degenerate configurations are skipped by an independent condition number, rare misses of the solver for special configurations are limited in share. The refinement is judged on 3M scenes near the cylinder of double solutions (about 4k poses need it), by the share of poses it does not bring nearer.")
prop("C25", "The five-point estimator recovers the relative pose of exact matches",
     "From five exact matches in general position the five-point estimator returns poses with proper rotations and unit translations that satisfy all five epipolar constraints, and the true pose is among them, independent of camera frames and the order of the matches. Degenerate matches terminate without improper poses.",
     "relative poses x five points in front or all around x frames x orders, arbitrary and repeated bearings",
     "one test per crate with a few random poses that only asserts that some solution is good.",
     ["nister-stewenius/src/lib.rs"], [("solver", "nister-stewenius/src/lib.rs: NisterStewenius::essentials_from_action_ebasis, five_points_relative_pose"), ("polynomial constraints", "nister-stewenius/src/lib.rs: build_constraints, o1, o2")],
     "property-based testing: exact-recovery oracle, three equivalent frames", BASE % "150k cases per quick run with conditioning-based tolerances.")
prop("C26", "Consensus with wrong matches finds the true pose and its inliers",
     "Sample consensus with any of the estimators on exact matches mixed with a moderate share of arbitrary wrong ones finds a model close to the true pose, all exact matches are among its inliers, and the inliers are exactly the matches whose residual is below the threshold.",
     "poses, 40-90 matches, up to 40% (three-point), 25% (five-point) or 10% (eight-point) wrong matches, seeds of the sampler",
     "consensus tests use five fixed points without wrong matches.",
     ["lambda-twist/src/lib.rs", "eight-point/src/lib.rs", "nister-stewenius/src/lib.rs", "cv-core/src/pose.rs"], [("estimators in consensus", "Estimator and Model implementations with arrsac")],
     "property-based testing: seeded consensus runs against the known pose and inliers", BASE % "60k three-point, 1.6k eight-point and 300 five-point consensus runs per quick run.", over=("inputs", "histories"))

prop("C27", "Single-view optimisation steps follow the landmarks and keep exact poses",
     "An iteration of single-view optimisation moves the pose by the rate times the mean (L2) or the inverse-distance weighted mean (L1) of the steps that bring the landmarks onto their observations; iterations compose, the exact pose is kept, small rates reduce the misalignment, and they end early exactly after fifty in a row in which no sum of steps got shorter. The result does not depend on the order or repetition of landmarks, on world and camera frame or the unit of length, and is a finite proper pose for all landmarks, including points at infinity or on the camera, and no landmarks or iterations.",
     "poses x landmark sets (exact, noisy, degenerate) x rates, softening, iteration counts",
     "the crate has no tests.",
     ["cv-optimize/src/single_view_optimizer.rs", "cv-geom/src/epipolar.rs"], [("optimisers", "cv-optimize/src/single_view_optimizer.rs: single_view_simple_optimize_l1 / _l2")],
     "property-based testing: reference step, metamorphic relations, history composition", BASE % "2.2M optimisations per quick run.", over=("inputs", "histories"))
prop("C28", "Three-view optimisation steps follow the gradients and keep frames and units",
     "An iteration of three-view optimisation moves both poses by the mean (L2), inverse-distance weighted mean (L1) or agreement-weighted mean (adaptive) of the three-view gradients of the landmarks, iterations compose, and (L1, L2) they end early exactly after fifty in a row in which no sum of gradients got shorter. The result does not depend on the order or repetition of the landmarks, turns with the three camera frames, scales with the unit of length, and is a pair of finite proper poses for all observations, including parallel ones, coinciding cameras, no landmarks, no iterations or a rate of zero.",
     "pairs of relative poses x landmark observations (noisy, degenerate) x rates, softening, iteration counts",
     "the crate has no tests.",
     ["cv-optimize/src/three_view_optimizer.rs"], [("optimisers", "cv-optimize/src/three_view_optimizer.rs: three_view_simple_optimize_l1 / _l2 / three_view_adaptive_optimize_l2")],
     "property-based testing: reference step, metamorphic relations, history composition", BASE % "900k optimisations per quick run; the gradients themselves are decided by C22.", over=("inputs", "histories"))

AK = "The crate is compiled from its own sources, in its sequential and its parallel configuration, against small stand-ins for the image, ndarray, nshare, primal and bitarray crates, which cannot be fetched here; they reproduce the feature and match counts (399, 343, 11) that the repository's own akaze test expects. "
prop("C29", "Image filters of the feature extractor match their definitions at every pixel",
     "Filtering the rows, the columns or both of an image with a kernel gives at every pixel the weighted sum of its neighbourhood, with the border pixels repeated outside, for every image size (also smaller than the kernel). Gaussian kernels are normalised Gaussians, blurring stays in the range of the image, halving averages blocks of two by two pixels (single ones at the end of odd sizes), and gray images of 8 or 16 bits become values from zero to one.",
     "image sizes 1..70 in both directions x kernels of 1-23 values x sigma 0.3..5",
     "existing tests filter one image with one kernel; the vectorised loops have cases for every remainder of the size and border.",
     ["akaze/src/image.rs"], [("filters", "akaze/src/image.rs: horizontal_filter / vertical_filter / separable_filter"), ("Gaussian", "akaze/src/image.rs: gaussian_kernel / gaussian_blur"), ("halving", "akaze/src/image.rs: GrayFloatImage::half_size"), ("conversion", "akaze/src/image.rs: GrayFloatImage::from_dynamic")],
     "property-based testing: double-precision reference model", AK + BASE % "390k images per quick run.")
prop("C30", "The levels of the scale space and their diffusion steps follow the schedule",
     "For every image size and configuration the extractor plans the octaves that keep at least 40 pixels in both directions, with one level each below 80 pixels and all sublevels otherwise, at the scales base * 2^(octave + sublevel / sublevels). The diffusion steps of each level are the ones of fast explicit diffusion: as few as cover the time since the level before at the stability limit, with exactly this time as their sum.",
     "image sizes 0..100000, 1..39 sublevels, 0..8 octaves, base scales 0.1..10",
     "no existing test looks at the schedule; the number of steps and their order depend on all parameters.",
     ["akaze/src/evolution.rs", "akaze/src/fed_tau.rs"], [("levels", "akaze/src/evolution.rs: allocate_evolutions"), ("step sizes", "akaze/src/fed_tau.rs: fed_tau_by_process_time, fed_tau_internal")],
     "property-based testing: closed-form reference", AK + BASE % "1M configurations per quick run.")
prop("C31", "The nonlinear scale space diffuses the image as its conductivities say",
     "The first level is the image blurred by the base scale, and every further level is the one before it (halved at a new octave), diffused explicitly with the planned steps, conductivities 1 / (1 + |gradient|^2 / contrast^2) of its blurred image and no flow across the border, so that the mean is kept and the variance does not grow. The contrast is a bin edge of the gradient histogram at the configured percentile, reduced by a quarter with every octave, and the levels are finite for every image, including images without gradients.",
     "synthetic scenes (blobs, boxes, discs, ramps, noise, constant) of 40..180 pixels x configurations",
     "the existing test only counts features of one image pair (and does not run here).",
     ["akaze/src/lib.rs", "akaze/src/nonlinear_diffusion.rs", "akaze/src/contrast_factor.rs", "akaze/src/derivatives.rs"], [("scale space", "akaze/src/lib.rs: create_nonlinear_scale_space"), ("diffusion step", "akaze/src/nonlinear_diffusion.rs: calculate_step, pm_g2"), ("contrast", "akaze/src/contrast_factor.rs: compute_contrast_factor"), ("gradients", "akaze/src/derivatives.rs: simple_scharr_horizontal / _vertical")],
     "property-based testing: reference diffusion, conservation and decay invariants", AK + BASE % "3k images with all their levels per quick run.")
prop("C32", "The detector response is the scaled determinant of the Hessian",
     "For every level the first derivatives are Scharr derivatives of the smoothed image over the rounded scale of the level, normalised so that a ramp has its slope, the second derivatives are the derivatives of these, and the response is the determinant of the second derivatives times the fourth power of the scale.",
     "synthetic level images of 3..60 pixels and more x configurations with scales from 1 to 40 pixels",
     "no existing test looks at derivatives; scales below two pixels take a different path.",
     ["akaze/src/detector_response.rs", "akaze/src/derivatives.rs"], [("response", "akaze/src/detector_response.rs: detector_response, compute_multiscale_derivatives"), ("kernels", "akaze/src/derivatives.rs: scharr_horizontal / scharr_vertical")],
     "property-based testing: double-precision reference model", AK + BASE % "9k level stacks per quick run.")
prop("C33", "Keypoints are the strong local maxima of the response, refined and oriented",
     "Every keypoint belongs to one local maximum of the response of its level above the threshold and far enough from the border, at the maximum of the quadratic fit within a pixel of it, with the size of its level and the direction most of the surrounding gradients agree on. Every such maximum without a keypoint gave way to a stronger one nearby on its own or a neighbouring level, and next to no keypoints are left closer together than their size.",
     "random response and gradient fields for all levels of images of 66..220 pixels x configurations",
     "the existing test only counts features of one image pair (and does not run here).",
     ["akaze/src/scale_space_extrema.rs"], [("extrema", "akaze/src/scale_space_extrema.rs: find_scale_space_extrema"), ("refinement", "akaze/src/scale_space_extrema.rs: do_subpixel_refinement"), ("orientation", "akaze/src/scale_space_extrema.rs: compute_main_orientation")],
     "property-based testing: reference maxima, fit and orientation on generated fields", AK + BASE % "3k level stacks (70k keypoints) per quick run; where rounding in single precision decides, all possible outcomes are accepted.")
prop("C34", "Descriptors compare cell averages of the turned pattern",
     "A keypoint has a descriptor exactly if its pattern, turned by its angle and scaled by its size, is inside of the image of its level. The bits compare the averages of intensity and of both gradient components in the turned frame (or the gradient lengths) between all pairs of cells of the grids of two by two, three by three and four by four cells, in order, and the rest of the descriptor is zero.",
     "random level fields of images of 60..260 pixels x keypoints of any position, angle and size x configurations (1-3 channels, pattern 6-12)",
     "the existing test only counts matches of one image pair (and does not run here).",
     ["akaze/src/descriptors.rs"], [("descriptor", "akaze/src/descriptors.rs: get_mldb_descriptor, mldb_fill_values, mldb_binary_comparisons")],
     "property-based testing: double-precision reference model", AK + BASE % "10k descriptors per quick run; bits whose averages are equal up to rounding, or whose samples fall between two pixels, are not judged.")
prop("C35", "Feature extraction is total, reproducible and follows changes of the image",
     "Extraction returns for every image, including ones too small for any level, as many descriptors as keypoints, by falling response, all above the threshold and inside of the image; repeating it, the parallel build, and images darkened by a power of two (with the threshold to match) give exactly the same features, and a limit keeps the strongest keypoints. The threshold is the one given, 0.01 for the sparse, 0.0001 for the dense and 0.001 for the default configuration. Moving the content of an image moves its keypoints along, with the same descriptors, and turning or mirroring it turns or mirrors nearly all of them.",
     "scenes of 1..260 pixels x configurations x limits; shifts by even numbers of pixels, quarter turns and reflections",
     "the existing test only counts features of one image pair (and does not run here).",
     ["akaze/src/lib.rs"], [("whole extraction", "akaze/src/lib.rs: extract_from_gray_float_image, extract, find_image_keypoints"), ("parallel parts", "akaze/src/descriptors.rs, scale_space_extrema.rs, detector_response.rs, nonlinear_diffusion.rs under the rayon feature")],
     "property-based testing: differential (sequential / parallel), metamorphic relations", AK + BASE % "800 scenes and 500 moved, turned or mirrored scenes (10k keypoints) per quick run, the latter with limits on the share of keypoints that do not follow.")

SF = "The cv-sfm crate does not build here (dependencies missing); sfm-harness compiles its sources of the working tree against stand-ins for hgg, hamming-lsh, slotmap, imageproc, average, ply-rs and others (DESIGN.md). "
prop("C36", "Views, landmarks and constraints stay consistent through every operation",
     "After any sequence of operations on frames, views, landmarks, constraints and reconstructions, every feature of a view belongs to one existing landmark that lists it as its observation of that view, no landmark lists anything else or is empty, a frame has at most one view and both know each other, and constraints only name three different existing views. Every operation changes only what it is about: views join the landmarks they are given (with several features or landmarks for one, all join as far as no view would have two features in it), and what is split off or removed leaves the rest untouched.",
     "sequences of 1-40 operations (adding and removing frames, views, reconstructions, splitting and merging landmarks and observations, filtering, recording constraints, optimising, normalising, joining reconstructions) x hash orders",
     "there are no tests of the crate. The bookkeeping between views, landmarks, frames and constraints depends on the whole history and on the order of hash maps.",
     ["cv-sfm/src/lib.rs"], [("views and landmarks", "cv-sfm/src/lib.rs: VSlamData::add_reconstruction / add_view / remove_view / incorporate_reconstruction"), ("landmarks", "cv-sfm/src/lib.rs: split_observation / split_landmark / merge_landmarks / try_merge_landmarks")],
     "stateful property-based testing: invariants after every step and a model of each operation", SF + BASE % "80k histories per quick run.", over=("histories", "inputs"))
prop("C37", "Features match only when each is clearly the nearest of the other",
     "The matches between the features of two frames are exactly the pairs whose descriptors are closer to each other, by at least the given number of differing bits, than either is to any other feature of the other frame; no feature has two matches, the order of the frames does not matter, and frames with fewer than two features have no matches.",
     "frames of 0-80 features with near, equal and far descriptors x margins of 1-200 bits",
     "there are no tests of the crate.",
     ["cv-sfm/src/lib.rs"], [("mutual matches", "cv-sfm/src/lib.rs: matching / symmetric_matching")],
     "property-based testing: brute-force reference", SF + BASE % "30k pairs of frames per quick run.")
prop("C38", "Only landmarks whose observations fit and are wide enough count as robust",
     "A landmark, a merged pair, or a landmark without one view is robust exactly if it has enough observations, one point in front of all cameras lies within the allowed distance of all of them, and enough pairs of observations see it under a wide enough angle. Filtering observations splits off what does not fit to the point of its landmark (from landmarks of two views both, by their epipolar loss), filtering landmarks splits exactly the non-robust ones, and neither changes views, constraints or other landmarks; merging two landmarks keeps of a view that observes both the observation that fits better.",
     "reconstructions of 2-6 views of 1-20 points with noise and mixed-up features x thresholds; values within rounding of a threshold are not judged",
     "there are no tests of the crate; thresholds, counts and angles meet only in generated cases.",
     ["cv-sfm/src/lib.rs"], [("robustness", "cv-sfm/src/lib.rs: is_landmark_robust / is_landmark_robust_without_view / are_observations_robust / triangulate_merged_landmark_robust"), ("filters", "cv-sfm/src/lib.rs: filter_non_robust_observations / filter_non_robust_landmarks"), ("merging", "cv-sfm/src/lib.rs: try_merge_landmarks")],
     "property-based testing: reference rules on generated reconstructions", SF + BASE % "140k reconstructions per quick run.")
prop("C39", "Optimising views moves them to where their constraints agree",
     "One round of optimisation moves every view by the mean of what its constraints ask for, in the same way in every world frame, keeps views whose constraints all fit where they are, removes exactly the views without constraints (and the reconstruction with fewer than three left), and repeated rounds bring views near a fitting arrangement closer to it. The constraints recorded for a view are distinct triples of it and two views that share enough robust landmarks with it, up to the allowed number, first those that reach a view which no triple with more landmarks reaches, then those with the most landmarks; their scale is that of the views and exact observations give their exact poses; with fewer than the needed number (and fewer than one per other view but one) none is recorded.",
     "3-8 posed views with chains, stars and complete sets of constraints, fitting or perturbed, x worlds; 3-6 views of 2-60 points x numbers of constraints",
     "there are no tests of the crate; the averages depend on the graph of constraints.",
     ["cv-sfm/src/lib.rs"], [("optimisation", "cv-sfm/src/lib.rs: apply_constraints / optimize_reconstruction"), ("choice of constraints", "cv-sfm/src/lib.rs: record_view_constraints / generate_view_constraints")],
     "property-based testing: reference update, invariance under world changes, convergence", SF + BASE % "120k graphs per quick run.")
prop("C40", "Frames of a scene are put where they were taken",
     "From frames of a scene with exact or nearly exact bearings, with features that have no or a wrong partner among them, starting a reconstruction, adding a frame to one, joining two reconstructions and localising frames one after the other nearly always succeed, and the poses and landmarks are those of the scene up to the noise (and up to the world frame, and the scale where nothing fixes it). A landmark never joins features of different points (unless one is by chance clearly the nearest), the observations of a landmark fit its point (those of two views, an epipolar plane), a feature that matches two landmarks of its point joins them to one, no frame is registered with fewer landmarks than needed, views that were there before do not move when a frame or a reconstruction is added, and a failed attempt changes no views.",
     "scenes of 80-140 points, 3-8 cameras, noise up to 5e-5, clutter and misplaced features x seeds x hash orders",
     "there are no tests of the crate; consensus, matching, refinement and filtering must work together.",
     ["cv-sfm/src/lib.rs"], [("initialisation", "cv-sfm/src/lib.rs: try_init / init_reconstruction"), ("registration", "cv-sfm/src/lib.rs: incorporate_frame / register_frame / register_frame_subset"), ("merging", "cv-sfm/src/lib.rs: try_merge_reconstructions"), ("localisation", "cv-sfm/src/lib.rs: try_localize")],
     "property-based testing: end-to-end runs on generated scenes with known cameras", SF + BASE % "2k scenes per quick run; success and accuracy have limits on the share of scenes that fail, the invariants hold for all.", over=("inputs", "histories"))
prop("C41", "Normalising and exporting show the reconstruction as it is",
     "Normalising makes the first view the origin and the mean distance of its robust points from it one, by one rotation, translation and scale for all views and constraints, changes nothing else, does nothing without such points and nothing the second time. The exported file contains every robust landmark at its place in the colour of one of its observations and for every view a pyramid with the apex at its centre, looking where it looks, with the size of the view, and exporting changes nothing.",
     "reconstructions of 2-6 views of 1-20 points with noise and mixed-up features x thresholds",
     "there are no tests of the crate.",
     ["cv-sfm/src/lib.rs", "cv-sfm/src/export.rs"], [("normalisation", "cv-sfm/src/lib.rs: normalize_reconstruction"), ("export", "cv-sfm/src/lib.rs: export_reconstruction; cv-sfm/src/export.rs: export")],
     "property-based testing: reference transform, parsing the written file back", SF + BASE % "50k reconstructions per quick run.")
prop("C42", "Features of a frame are the keypoints of its image with their colours",
     "Adding an image adds a frame to its feed with one feature per keypoint that detection with the configured threshold and limit finds, by falling response, with the descriptor of the keypoint, its bearing through the camera of the feed, and the colour of the image there: the cubic (Catmull-Rom) interpolation along rows and then columns, cut to whole numbers, or the default where the pixels around are not all in the image. On a pixel, that is the colour of the pixel.",
     "images of 64-150 pixels with up to 60 blobs x cameras x thresholds x limits; places in and around images of 1-23 pixels",
     "there are no tests of the crate.",
     ["cv-sfm/src/lib.rs", "cv-sfm/src/bicubic.rs"], [("features", "cv-sfm/src/lib.rs: kps_descriptors / add_frame"), ("colours", "cv-sfm/src/bicubic.rs: interpolate_bicubic")],
     "property-based testing: differential against the detector, interval reference model of the interpolation", SF + BASE % "100k images for colours and 300 sets of images for features per quick run.")
prop("C43", "Frames are compared with the most similar and the most recent ones",
     "The frames that a frame is compared with are those of its feed less than the given number of places before or after it, and the given number of the most similar among the searched ones that are neither of these, nor nearer in its feed than allowed, nor the frame itself; none comes twice, those with a view are grouped by reconstruction and the others listed as free.",
     "1-24 frames of 1-3 feeds, with or without views in up to several reconstructions x numbers of frames",
     "there are no tests of the crate.",
     ["cv-sfm/src/lib.rs"], [("retrieval", "cv-sfm/src/lib.rs: find_visually_similar_and_recent_frames")],
     "property-based testing: brute-force reference", SF + BASE % "16k sets of frames per quick run.")
prop("C44", "Settings and maps come back from storage as they were",
     "Settings read from storage have the given values, and those of the default settings for all that are not given. A stored map comes back with the same feeds, frames, features, views, landmarks and constraints under the same keys, and goes on as the original would.",
     "subsets of all settings with random values; maps of 2-6 views of 1-20 points",
     "there are no tests of the crate.",
     ["cv-sfm/src/settings.rs", "cv-sfm/src/lib.rs"], [("settings", "cv-sfm/src/settings.rs: VSlamSettings"), ("map", "cv-sfm/src/lib.rs: VSlamData and what it contains")],
     "property-based testing: round trips", SF + BASE % "40k settings and 10k maps per quick run.")

NOT = []

with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "cfg(cvcheck) in akaze/src/lib.rs and cv-sfm/src/lib.rs (with cv-sfm/src/cvcheck.rs)",
        "enable": "the build scripts of akaze-harness/ak-seq, akaze-harness/ak-par and sfm-harness/sfm, which compile /repo/akaze/src and /repo/cv-sfm/src, pass --cfg cvcheck",
        "source_commits": ["407056d", "30f1f3d"],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"./run.sh {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT,
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
