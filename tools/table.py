HC = 'src/hc_cc_state_space/'
PLANNERS = [HC + f + '_state_space.cpp' for f in (
    'cc00_dubins', 'cc0pm_dubins', 'ccpm0_dubins', 'ccpmpm_dubins', 'cc00_reeds_shepp', 'hc00_reeds_shepp', 'hc0pm_reeds_shepp',
    'hcpm0_reeds_shepp', 'hcpmpm_reeds_shepp')]
G1 = ['src/dubins_state_space/dubins_state_space.cpp', 'src/reeds_shepp_state_space/reeds_shepp_state_space.cpp']
BLOCKS = [HC + 'paths.cpp', HC + 'hc_cc_circle.cpp', HC + 'configuration.cpp', 'src/utilities/utilities.cpp']
RI = 'static value-graph analysis of LLVM IR (gated SSA, all paths, every candidate partitioned) + random interpretation of the graph identities'
RI_NOTE = ('Every candidate path of every planner is covered, on its whole branch of existence up to the (probabilistic) identity test at generic and '
           'degenerate points of the value graph; the library is not executed. Real arithmetic is assumed (rounding and the size of the comparison '
           'tolerance are not modelled); the Fresnel integrals are taken as exact. ')
REL = 'static value-graph analysis of LLVM IR (gated SSA, all paths) + random interpretation of relations between two instances of the graph'
REL_NOTE = ('The whole distance query of every planner is covered as one gated graph; the relation is an identity (ordering for C18) between two instances of '
            'that graph and is decided by random interpretation at generic points, with short manoeuvres over-represented. The library is not executed. '
            'Real arithmetic is assumed; points whose decisions lie within the comparison tolerance are left out. A region of a branch too small to be hit by '
            'the points is not covered. ')
TESTS = 'The unit tests draw random start/goal states for one fixed curvature and sharpness; a candidate path that is rarely the shortest, or a goal on a degenerate manifold, is hit seldom or never.'

ALL = PLANNERS + G1 + BLOCKS + [HC + 'hc_reeds_shepp_state_space.cpp', HC + 'cc_dubins_state_space.cpp', HC + 'hc_cc_state_space.cpp', 'src/filter/ekf.cpp']
PROPS = [
 dict(id='C01', title='Queries are memory-safe and release everything they allocate',
      statement='No planning, distance, interpolation or sampling query reads or writes outside live storage, dereferences a null or released pointer, or releases storage twice. Every query releases all storage it allocated, whichever candidate path wins, and a planning query returns at least one segment.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all branches of all queries of all planners, whichever candidates exist and whichever wins',
      why='Intermediate configurations and circles of each of up to 100+ candidates are allocated and released by hand; only the branches that random states take are ever executed by the tests, and leaks are not measured.', files=ALL,
      mech=[('candidate tables of owned pointers, all but the winner released', HC + '*_state_space.cpp: *_circles_*_path, *_path'), ('path objects own their circles and configurations', HC + 'paths.cpp: destructors')],
      observe=['get_controls', 'get_distance', 'integrate', 'interpolate', 'integrate_with_covariance'],
      technique='static ownership, lifetime and bounds analysis over a gated abstract heap (LLVM IR, all paths)',
      note='All branches of all public queries are covered, each candidate path in its own partition. Sampling loops are followed for a fixed number of rounds; allocation failure and exceptions are not modelled. '),
 dict(id='C02', title='Results never depend on uninitialised memory',
      statement='Every field of every returned control, state and covariance, and every returned distance, is computed from the inputs only; no decision on the way depends on memory that was never written.',
      over=['inputs', 'configurations'], quant='all start and goal states, all parameters t, all control sequences, all branches of all queries of all planners',
      why='Tests see whatever happens to be in memory, which is often zero; the branch that forgets a field may need a particular t or candidate.', files=ALL,
      mech=[('local tables initialised before use', HC + '*_state_space.cpp'), ('all fields of sampled states assigned', HC + 'hc_cc_state_space.cpp, src/*_state_space/*.cpp')],
      observe=['get_controls', 'get_distance', 'integrate', 'interpolate', 'integrate_with_covariance'],
      technique='static definite-initialisation analysis over gated value graph and heap (LLVM IR, all paths)',
      note='All branches of all public queries are covered. Sampling loops are followed for a fixed number of rounds. '),
 dict(id='C03', title='A query result depends only on its arguments',
      statement='What a planner returns for given arguments does not depend on the queries asked before, on this planner or on any other. Planners share no mutable state.',
      over=['inputs', 'histories'], quant='all sequences of earlier queries, all start and goal states, all limits, all candidate path types',
      why='Tests ask each planner a few queries in one order; a stale member only shows for particular pairs of consecutive queries.', files=ALL,
      mech=[('distance and angle between circle centres are cached as members and refreshed by every query', HC + '*_state_space.cpp: *_circles_*_path')],
      observe=['get_controls', 'get_distance', 'integrate', 'interpolate', 'integrate_with_covariance'],
      technique='static effect and dependence analysis (cells written by queries are made arbitrary; results may not depend on them)',
      note='All cells that outlive a query and that any query writes are covered, for all histories. '),
 dict(id='C04', title='Distances scale with the problem',
      statement='Enlarging a planning problem as a whole (positions by a factor, curvatures and curvature limit by its inverse, sharpness limit by the square of its inverse) enlarges the reported distance by exactly that factor. The limits enter only in dimensionally consistent combinations.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all scale factors, all planners (the comparison tolerance aside)',
      why='All unit tests use one curvature limit and one sharpness limit (both 1), where a dimensionally wrong formula (kappa for 1/kappa, sigma for kappa squared) gives the same numbers.', files=PLANNERS + G1 + BLOCKS,
      mech=[('radius and angle of the circles from the limits', HC + 'hc_cc_circle.cpp: set_param; ' + HC + 'hc_cc_state_space.cpp'), ('word formulas normalised by the curvature limit', 'src/reeds_shepp_state_space, src/dubins_state_space'), ('existence conditions', HC + '*_state_space.cpp: *_exists')],
      observe=['get_distance'], technique=REL, note=REL_NOTE),
 dict(id='C05', title='Distances do not depend on the coordinate frame',
      statement='Moving and turning start and goal together, and adding full turns to either heading, leaves the reported distance unchanged. Only the pose of the goal as seen from the start matters.',
      over=['inputs', 'configurations'], quant='all start and goal states, all rigid motions, all multiples of full turns, all limits, all planners',
      why='The unit tests never compare two queries with each other.', files=PLANNERS + G1 + BLOCKS,
      mech=[('angles between circle centres and headings are reduced to one turn', HC + 'hc_cc_circle.cpp: deflection; src/utilities/utilities.cpp: twopify, pify'), ('transformation into the start frame', 'src/reeds_shepp_state_space, src/dubins_state_space'), ('global_frame_change, local_frame_change', 'src/utilities/utilities.cpp')],
      observe=['get_distance'], technique=REL, note=REL_NOTE),
 dict(id='C06', title='Left/right, forward/backward and start/goal are treated alike',
      statement='The mirrored problem has the same distance. For planners that may drive both ways, so have the problem with the driving direction reversed and the problem with start and goal exchanged; for directed planners these exchange the forward- and the backward-driving planner. The planner for zero start and maximum goal curvature and its counterpart are exchanged accordingly.',
      over=['inputs', 'configurations'], quant='all start and goal states including both signs of their curvature, all limits, all planners',
      why='Each path type is implemented once per combination of turning and driving direction; the unit tests never compare the combinations with each other.', files=PLANNERS + G1 + BLOCKS,
      mech=[('one formula per turning and driving direction in every tangent-circle computation', HC + '*_state_space.cpp: *_tangent_circles'), ('timeflip, reflect and backwards', 'src/reeds_shepp_state_space/reeds_shepp_state_space.cpp')],
      observe=['get_distance'], technique=REL, note=REL_NOTE),
 dict(id='C07', title='Reported distance equals the length of the returned path',
      statement='For every pair of states and every planner, the distance query returns exactly the sum of the absolute segment lengths of the controls that the planning query returns. Candidate paths are compared with each other by that same length.',
      over=['inputs', 'configurations'], quant='all start and goal states, all curvature and sharpness limits, all candidate path types of all planners (also those that are seldom the shortest)',
      why=TESTS, files=PLANNERS + G1 + BLOCKS,
      mech=[('each candidate computes its length next to its geometry', HC + '*_state_space.cpp: TT_path, TcT_path, ..., CCC families'), ('turn lengths', HC + 'hc_cc_circle.cpp: rs/hc/cc_turn_length'), ('turn controls', HC + 'paths.cpp')],
      observe=['get_distance', 'get_controls'], technique=RI, note=RI_NOTE),
 dict(id='C08', title='Following the returned controls reaches the goal pose',
      statement='For every pair of states, driving the returned segments (straight lines, arcs, clothoids) from the start pose ends in the goal position with the goal heading. This holds for every path type a planner can return, including goals equal to, aligned with, or exactly one or two turns away from the start.',
      over=['inputs', 'configurations'], quant='all start and goal poses, all curvature and sharpness limits, all candidate path types of all planners, degenerate goal manifolds included',
      why=TESTS, files=PLANNERS + G1 + BLOCKS,
      mech=[('tangency geometry of circle pairs', HC + '*_state_space.cpp: *_tangent_circles'), ('turn controls', HC + 'paths.cpp'), ('word formulas', 'src/reeds_shepp_state_space, src/dubins_state_space')],
      observe=['get_controls', 'get_path'], technique=RI, note=RI_NOTE),
 dict(id='C09', title='Curvature is continuous where the planner promises it',
      statement='Along every path of a continuous-curvature planner the curvature never jumps from one segment to the next. Along every path of a hybrid-curvature planner it can jump only where the driving direction changes.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all candidate path types of all continuous- and hybrid-curvature planners',
      why=TESTS, files=PLANNERS + BLOCKS,
      mech=[('turns begin and end with the curvature the next block expects', HC + 'paths.cpp'), ('intermediate configurations carry the junction curvature', HC + '*_state_space.cpp')],
      observe=['get_controls'], technique=RI, note=RI_NOTE),
 dict(id='C10', title='Directed planners never drive the other way',
      statement='Every segment returned by a Dubins-type planner configured for forward driving has a non-negative length, and every segment returned by one configured for backward driving has a non-positive length.',
      over=['inputs', 'configurations'], quant='all start and goal states, both driving directions, all candidate path types of the Dubins and continuous-curvature Dubins planners',
      why='The unit tests do not look at the sign of the segments of the forward- and backward-only planners.', files=PLANNERS[:4] + G1[:1] + BLOCKS,
      mech=[('backward paths are planned with the states exchanged and reversed', 'src/dubins_state_space/dubins_state_space.cpp'), ('circles are set up for the configured direction only', HC + 'cc*_dubins_state_space.cpp')],
      observe=['get_controls'], technique=RI + ' (sign domain)', note=RI_NOTE + 'Signs are sampled on each branch rather than bounded over it.'),
 dict(id='C11', title='Curvature and sharpness limits are respected',
      statement='At every point of every returned path the absolute curvature is at most the configured maximum, and on every segment the absolute sharpness (change of curvature per arc length) is at most the configured maximum.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all candidate path types of all planners, including the short turns that never reach the maximum curvature',
      why=TESTS, files=PLANNERS + G1 + BLOCKS,
      mech=[('clothoids of maximum sharpness; elementary paths with reduced sharpness', HC + 'hc_cc_circle.cpp, ' + HC + 'paths.cpp'), ('arcs of maximum curvature', 'all planners')],
      observe=['get_controls'], technique=RI + ' (ordering domain)', note=RI_NOTE + 'Inequalities are sampled on each branch rather than bounded over it.'),
 dict(id='C12', title='Paths start and end with the promised curvature',
      statement='A planner for zero start (goal) curvature returns paths that begin (end) with zero curvature; a planner for maximum start (goal) curvature returns paths that begin (end) with plus or minus the maximum. In the latter case a nonzero curvature of the given state fixes the sign.',
      over=['inputs', 'configurations'], quant='all start and goal states including both signs of their curvature, all limits, all candidate path types of the continuous- and hybrid-curvature planners',
      why='The unit tests compare poses and lengths; they do not check the curvature at the two ends of the path against the variant of the planner.', files=PLANNERS + BLOCKS,
      mech=[('start and goal circles of the planner variant', HC + '*_state_space.cpp: constructors and circle setup'), ('sign of the state curvature discards circles', HC + '*pm*_state_space.cpp')],
      observe=['get_controls'], technique=RI, note=RI_NOTE),
 dict(id='C13', title='Sampled and interpolated states lie exactly on the path',
      statement='Sampling a path given by controls returns the states of the exact path: first the start pose, then the state at every multiple of the discretization and at the end of every segment, each with the curvature and driving direction of its segment; where the curvature jumps, both curvatures are listed. Interpolation at t returns the state at that fraction of the total length, the start for t <= 0 and the end for t >= 1. A path query plans with its own planner between the given states and samples from the given start.',
      over=['inputs', 'configurations'], quant='all start states, all control sequences of lines, arcs and clothoids in both driving directions (zero-length segments and whole multiples of the discretization included), all discretizations, all t, all planners',
      why='The unit tests check end states and path lengths for random paths at one discretization; segment ends that fall on a sample, curvature jumps, empty segments and t at a segment border have measure zero.', files=[HC + 'hc_cc_state_space.cpp', 'src/utilities/utilities.cpp'] + G1,
      mech=[('step-wise integration with a shortened last step', 'integrate, integrate_with_covariance, interpolate in the three base classes'), ('closed-form motion', 'integrate_ODE; src/utilities/utilities.cpp: end_of_clothoid, end_of_circular_arc, end_of_straight_line')],
      observe=['integrate', 'integrate_with_covariance', 'interpolate', 'get_path', 'get_path_with_covariance'],
      technique='static value-graph analysis of LLVM IR (gated SSA, bounded unrolling) + random interpretation against the exact path',
      note='All branches of the sampling queries within the unrolling bound (segments of up to 9 samples, three segments); the identity with the exact path is decided by random interpretation at generic and border points. The library is not executed. Real arithmetic is assumed; Fresnel integrals are taken as exact. '),
 dict(id='C14', title='Filter prediction and update follow the extended Kalman filter',
      statement='Prediction propagates the estimation covariance with the exact derivatives of the motion over the step (line, arc or clothoid, forwards or backwards) and the configured motion noise, and the control covariance with the closed loop of the configured controller; on straight lines the effect of the curvature on the position is neglected. The update is that of the extended Kalman filter (Joseph form) for a direct pose measurement with the configured measurement noise. The total covariance is the sum of the two; covariances stay symmetric and positive semi-definite.',
      over=['inputs', 'configurations'], quant='all states, controls, step lengths, symmetric positive definite covariances, noise parameters and gains',
      why='The unit tests check the derivatives by finite differences on random segments and do not compare predicted or updated covariances with a reference for all parameters and both driving directions.', files=['src/filter/ekf.cpp', 'include/steering_functions/filter/ekf.hpp'],
      mech=[('motion derivatives, noise and gain matrices, predict, update', 'src/filter/ekf.cpp')], observe=['integrate_with_covariance', 'EKF::predict', 'EKF::update'],
      technique='static value-graph analysis of LLVM IR (matrix library included) + random interpretation against the textbook filter',
      note='All branches of prediction and update; identity by random interpretation. The library is not executed. Real arithmetic is assumed; Fresnel integrals are taken as exact. '),
 dict(id='C15', title='Covariances along a path start as given and are filtered step by step',
      statement='When a path is sampled with covariances, the first sample carries the given covariances and every further sample the predicted and updated covariances of the sample before it, for exactly the distance between the two. A repeated state at a segment border repeats the covariances. The filter parameters set on the planner are used.',
      over=['inputs', 'configurations'], quant='all start states and covariances, all control sequences, all discretizations, all filter parameters, all planners',
      why='The unit tests compare the resulting covariances only loosely, by simulating random paths.', files=[HC + 'hc_cc_state_space.cpp', 'src/filter/ekf.cpp'] + G1,
      mech=[('predict and update per integration step, covariances carried over', 'integrate_with_covariance in the three base classes'), ('set_filter_parameters', 'the three base classes')],
      observe=['integrate_with_covariance', 'get_path_with_covariance'],
      technique='static value-graph analysis of LLVM IR (gated SSA, bounded unrolling) + random interpretation against the textbook filter',
      note='All branches of the query within the unrolling bound (3 samples per segment, two segments); identity by random interpretation. The library is not executed. Real arithmetic is assumed; Fresnel integrals are taken as exact. '),
 dict(id='C16', title='Elementary geometry: angles, motions, frames, Euclidean measures',
      statement='Angle reduction yields the same direction within one turn ([0, 2 pi) or [-pi, pi)); the closed-form ends of clothoid, arc and straight line are those of the exact motion in both driving directions; the two frame changes are inverse rigid motions; distance, polar coordinates, sign and index of the minimum are what they say.',
      over=['inputs'], quant='all real arguments, both driving directions, all curvatures and sharpnesses (zero curvature, zero sharpness of either sign included where defined)',
      why='The unit tests check few of these functions at sampled arguments; every planner relies on them for all.', files=['src/utilities/utilities.cpp', 'include/steering_functions/utilities/utilities.hpp'],
      mech=[('twopify, pify, end_of_*, *_frame_change, point_distance, polar, sgn, array_index_min', 'src/utilities/utilities.cpp')],
      observe=['the functions of utilities.hpp'], technique='static value-graph analysis of LLVM IR (gated SSA, all paths) + random interpretation against the definition',
      note='All branches of each function, looked at on both sides of each of its decisions and at generic points. The library is not executed. Real arithmetic is assumed. '),
 dict(id='C17', title='No admissible shorter path of the own repertoire is turned away',
      statement='A candidate path is turned away only where it would not be an admissible path or would not be the shortest: where a rejected candidate would reach the goal within the limits, the planner reports nothing longer. In the limit of unlimited sharpness the continuous- and hybrid-curvature planners report the Reeds-Shepp (Dubins) distance.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all existence conditions of all candidate path types of the continuous- and hybrid-curvature planners',
      why='A planner that misses a path still returns a valid, only longer one; no unit test compares the distance with anything else.', files=PLANNERS + BLOCKS,
      mech=[('existence conditions', HC + '*_state_space.cpp: *_exists'), ('selection of the shortest', HC + '*_state_space.cpp: *_circles_*_path; src/utilities/utilities.cpp: array_index_min')],
      observe=['get_distance', 'get_controls'], technique=RI + '; rejecting decisions reversed on the graph', note=RI_NOTE + 'Lost paths are looked for at generic points; whether an existence condition is exact on its border is not decided.'),
 dict(id='C18', title='More freedom never makes the path longer',
      statement='A planner whose admissible paths include those of another never reports a longer distance: dropping the sharpness limit (Reeds-Shepp, Dubins), the curvature continuity at cusps, or the restriction to one driving direction cannot lengthen the path.',
      over=['inputs', 'configurations'], quant='all start and goal states, all limits, all pairs of planners of which one allows everything the other allows and whose repertoires are nested',
      why='The unit tests look at one planner at a time (or at averages over random problems).', files=PLANNERS + G1 + BLOCKS,
      mech=[('all path types tried, shortest returned', HC + '*_state_space.cpp, src/*_state_space/*.cpp')],
      observe=['get_distance'], technique=REL, note=REL_NOTE),
 dict(id='C19', title='Planner objects own what they use and release it',
      statement='Destroying a planner, directly or through a pointer to its base class, releases everything it owns, once. Where the types allow a planner to be copied or moved, the new planner has the same parameters and refers to nothing that belongs to the original, so it stays usable when the original is gone.',
      over=['histories', 'configurations'], quant='all planners, all admitted sequences construct - copy or move - destroy original - destroy copy, all parameters',
      why='The unit tests keep planners alive until the end of the program and never copy them or delete them through the base class.', files=ALL + ['include/steering_functions/hc_cc_state_space/', 'include/steering_functions/steering_functions.hpp'],
      mech=[('virtual destructors', 'include/steering_functions/**: class definitions'), ('unique ownership of the implementation, which refers back to its planner', HC + '*_state_space.cpp'), ('sub-planners as members', 'include/steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp, cc_dubins_state_space.hpp')],
      observe=['construction, copy, move, destruction'], technique='static ownership and lifetime analysis over a gated abstract heap (LLVM IR, all paths); types decide which operations exist',
      note='All planners and all operations their types admit. Allocation failure and exceptions are not modelled. '),
 dict(id='C20', title='Planning between arbitrary start and goal curvatures is exact',
      statement='The two planners that accept arbitrary start and goal curvatures return a path that starts with the start curvature, ends with the goal curvature, is continuous in curvature, reaches the goal pose, respects the limits and the driving direction, and has the reported length. This also holds when the states predicted from start and goal coincide.',
      over=['inputs', 'configurations'], quant='all start and goal poses, all start and goal curvatures within the limits (zero, intermediate, maximum, both signs), all limits, coinciding predictions included',
      why='The unit tests sample random states; coinciding predictions and boundary curvatures exactly at zero or at the limit are measure-zero events.',
      files=[HC + 'hc_reeds_shepp_state_space.cpp', HC + 'cc_dubins_state_space.cpp', HC + 'paths.cpp', 'src/utilities/utilities.cpp'],
      mech=[('prediction of states with zero or maximum curvature', 'predict_state in both planners'), ('delegation to the four sub-planners', 'get_controls, get_distance'), ('joining of coinciding predictions', HC + 'paths.cpp: connect_controls')],
      observe=['get_controls', 'get_distance'], technique=RI + '; sub-planners as opaque blocks', note=RI_NOTE + 'The sub-planners are opaque blocks here; their own candidates are looked at as well.'),
 dict(id='C21', title='The Fresnel integrals are accurate for every argument',
      statement='For every finite argument, of either sign and any size, the Fresnel routine returns both integrals (absolute error below 1e-11 in real arithmetic). They are odd, continuous across the pieces of the approximation, and tend to one half.',
      over=['inputs'], quant='all finite arguments, on all pieces of the approximation and on both sides of their borders',
      why='The unit test samples a range of arguments; clothoids of planners with small sharpness limits use others.', files=['src/utilities/utilities.cpp', 'include/steering_functions/utilities/fresnel.data'],
      mech=[('Chebyshev series for small arguments, asymptotic ones beyond', 'src/utilities/utilities.cpp: fresnel, fresnel_0_8, fresnel_8_inf'), ('coefficient tables', 'include/steering_functions/utilities/fresnel.data')],
      observe=['fresnel', 'end_of_clothoid'], technique='static value-graph analysis of LLVM IR (tables as constants) + random interpretation against the integrals',
      note='All branches; looked at densely on each piece and on both sides of every decision; the error between the points is not bounded by proof. The library is not executed. Real arithmetic is assumed. '),
]

NA = [
 dict(id='N02', title='Dubins and Reeds-Shepp paths are globally shortest',
      statement='The path returned by the Dubins (Reeds-Shepp) planner is a shortest path among all curves with bounded curvature connecting the two poses.',
      over=['inputs'], quant='all pairs of poses', why='Optimality quantifies over all curves.', files=G1, mech=[('exhaustive list of words', 'both files')],
      reason='optimality over all curves is a theorem about the word families, not a fact visible in the code; the decidable parts (every listed word is exact, ranking by true length) are C07 and C08'),
 dict(id='N03', title='Floating-point error of the computed path stays below the documented tolerance',
      statement='The rounding error of every returned path stays below the comparison tolerance used by the library.',
      over=['inputs'], quant='all finite inputs', why='Tests sample.', files=PLANNERS + G1, mech=[('get_epsilon', 'include/steering_functions/utilities/utilities.hpp')],
      reason='a bound on accumulated rounding through inverse trigonometric functions near their branch points is not in reach of the static arguments used here'),
 dict(id='N04', title='A planning query finishes within the advertised computation time',
      statement='Every planning query completes within the time advertised for its planner.',
      over=['inputs'], quant='all inputs', why='Timing depends on the machine.', files=PLANNERS, mech=[('closed-form candidates', 'all planners')],
      reason='wall-clock time is a run-time quantity'),
]
NOTES = 'One engine (engine/): LLVM IR of the current tree is parsed and transferred by a gated abstract interpreter; checks (checks/) state obligations over the resulting value graph and heap.'
