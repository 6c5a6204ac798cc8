prop('V01', 'Velocity inverse kinematics answers are solutions, whatever came before',
  'When a chain velocity inverse kinematics solver is given finite joint positions and a finite twist and returns a non-negative code, the joint velocities are finite and are the solution its method promises for the current chain and settings: '
  'minimum-norm least-squares with singular values below the threshold left out (pseudo-inverse); the same with joint- and task-space weights and the documented damping of those values (damped); the same plus the documented motion in the null space (null-space optimising); minimum-norm least-squares away from singular poses (Givens). '
  'Well-conditioned poses are always answered, and the pseudo-inverse and damped solvers report a singular solution exactly when the (weighted) Jacobian loses rank by the threshold. '
  'A decomposition that does not converge within the iteration limit is reported as a failure and leaves all joint velocities zero, and the damping and smallest singular value reported are those of the call and the settings read back as given; singular poses, failed decompositions, runaway and non-finite inputs earlier in the history end and leave no mark on later answers.',
  [H, FS, IN], 'all histories over all chains, poses (singular ones included), twists, weights and settings',
  'tests use well-conditioned poses of one or two robots and fresh solvers; warm-started and degraded paths are not followed by good calls',
  ['chainiksolvervel_pinv.cpp', 'chainiksolvervel_pinv_givens.cpp', 'chainiksolvervel_pinv_nso.cpp', 'chainiksolvervel_wdls.cpp', 'utilities/svd_HH.cpp', 'utilities/svd_eigen_HH.cpp', 'utilities/svd_eigen_Macie.hpp'],
  [('CartToJnt', 'chainiksolvervel_pinv.cpp'), ('svd_eigen_HH', 'utilities/svd_eigen_HH.cpp'), ('svd_eigen_Macie', 'utilities/svd_eigen_Macie.hpp')],
  [('U, S, V', 'decomposition kept between calls (a warm start for the Givens method)', 'chainiksolvervel_pinv_givens.hpp')],
  ['joint velocities, return code, getNrZeroSigmas, getSigmaMin'])

prop('I01', 'Position inverse kinematics never claims a solution it does not have',
  'When a chain position inverse kinematics solver returns a non-negative code, forward kinematics of the joint positions it gives, on the current chain, reaches the requested pose within the solver\'s accuracy, however small (component by component, or in its weighted sense for the damped method). '
  'A failure of the position or velocity solver it was given, at any iteration, is reported as that failure, at once and not as success; no call uses those solvers more often than the iteration limit, and a call that reports too many iterations did use them all. '
  'The limit-enforcing solver never gives joint positions outside its limits, whether it succeeds or not and wherever it starts. The damped solver never ends further from the goal than it started, and the residuals it reports are those of the joint positions it gives. '
  'This holds after any history, for any start and goal (joint positions up to 10000) and iteration limit; a goal that is not finite is never reported as reached.',
  [H, FS, IN], 'all goals, starts, limits, iteration limits, and all points at which an inner solver may fail, in any call history',
  'tests use goals taken from forward kinematics, working inner solvers and large iteration limits',
  ['chainiksolverpos_nr.cpp', 'chainiksolverpos_nr_jl.cpp', 'chainiksolverpos_lma.cpp'],
  [('CartToJnt', 'chainiksolverpos_nr.cpp'), ('CartToJnt', 'chainiksolverpos_nr_jl.cpp'), ('CartToJnt', 'chainiksolverpos_lma.cpp')],
  [('q_min, q_max', 'limits', 'chainiksolverpos_nr_jl.hpp')], ['return code and joint positions; calls made to the injected inner solvers'])

prop('I02', 'Position inverse kinematics makes progress once faults stop',
  'After any history of failures - inner-solver failures, starved iteration limits, unreachable goals, non-finite goals, refused calls - a request for a pose near the pose of a well-conditioned start, with working inner solvers and the default iteration limit, is solved. '
  'A solver whose limits were never set behaves as if there were none.',
  [H, FS, IN], 'all fault histories followed by a request close to a well-conditioned start',
  'tests never fail an inner solver and never re-use a solver after a failure',
  ['chainiksolverpos_nr.cpp', 'chainiksolverpos_nr_jl.cpp', 'chainiksolverpos_lma.cpp'],
  [('CartToJnt', 'chainiksolverpos_nr.cpp'), ('CartToJnt', 'chainiksolverpos_lma.cpp')], [], ['return code within one call'])

prop('D01', 'Dynamics solvers agree with mechanics and each other after any history',
  'After any history of calls, refusals, updates and payload or geometry edits of the chain, the inverse dynamics torques, joint-space inertia matrix, Coriolis vector and gravity vector are those of the mechanism as it is now under the given gravity and external wrenches (segment frame, acting on any segment). '
  'They agree with each other - torque equals inertia times acceleration plus Coriolis plus gravity minus the effect of the wrenches - and forward dynamics returns the accelerations that these torques produce; the inertia matrix is symmetric.',
  [H, FS, IN], 'all mechanisms with fixed, rotational and translational joints, scaled and offset, all states, wrenches and call histories',
  'tests compare the solvers on two fixed robots in a few states with fresh solvers',
  ['chainidsolver_recursive_newton_euler.cpp', 'chaindynparam.cpp', 'chainfdsolver_recursive_newton_euler.cpp', 'utilities/ldl_solver_eigen.cpp', 'articulatedbodyinertia.cpp', 'rigidbodyinertia.cpp', 'jntspaceinertiamatrix.cpp'],
  [('CartToJnt', 'chainidsolver_recursive_newton_euler.cpp'), ('JntToMass', 'chaindynparam.cpp'), ('ldl_solver_eigen', 'utilities/ldl_solver_eigen.cpp')],
  [('X, S, v, a, f', 'per-segment scratch kept between calls', 'chainidsolver_recursive_newton_euler.hpp'), ('Ic', 'composite inertias', 'chaindynparam.hpp')], ['torques, matrices and accelerations'])

prop('D02', 'A simulated robot conserves energy and momentum balance under any step pattern',
  'Integrating the forward dynamics of a chain with the supplied fixed-order integrator under a simulated clock, with steps that jitter, stall, come late or run backwards, conserves total mechanical energy to the order of the method when no torque or wrench acts, and gains exactly the work done by joint torques when they do. '
  'Each step is a fourth-order Runge-Kutta step of the equations of motion under the torques and wrenches of the step, advances positions and velocities by the increments it reports, and changes nothing when its length is zero; refused and non-finite calls, payload edits and growth of the chain before it leave no mark.',
  [SC, H, IN], 'all mechanisms, initial states, torque histories and step patterns',
  'the one test of the integrator checks final numbers of one robot for one step size',
  ['chainfdsolver_recursive_newton_euler.cpp', 'chaindynparam.cpp', 'chainidsolver_recursive_newton_euler.cpp'],
  [('RK4Integrator', 'chainfdsolver_recursive_newton_euler.cpp')], [], ['positions and velocities after each step'])

prop('H01', 'Acceleration-constrained dynamics meets its constraints after any history',
  'After any history of calls, refusals, payload or geometry edits and updates, the hybrid dynamics solver returns joint accelerations that satisfy the active acceleration constraints at the tip (those the pose has lost, and repeated ones, are given up in the least-squares sense), and joint constraint torques that are the joint-space image of the constraint forces it reports. '
  'Feed-forward and constraint torques together, with the external wrenches (base frame), produce exactly these accelerations by the equations of motion; the segment accelerations and total joint torques it reports belong to that motion. Without active constraints it gives the same accelerations as forward dynamics.',
  [H, FS, IN], 'all chains, states, constraint directions and set-points, wrenches, torques, and call histories',
  'tests run one fixed arm in a few states with fresh solvers and compare only with each other',
  ['chainhdsolver_vereshchagin.cpp', 'articulatedbodyinertia.cpp', 'utilities/svd_eigen_HH.cpp'],
  [('initial_upwards_sweep, downwards_sweep, constraint_calculation, final_upwards_sweep', 'chainhdsolver_vereshchagin.cpp')],
  [('results', 'per-segment recursion state kept between calls', 'chainhdsolver_vereshchagin.hpp')], ['joint accelerations, constraint torques, constraint force magnitudes'])

prop('E01', 'The external wrench estimate follows its observer law and forgets faults',
  'For every sequence of measurements the external wrench estimator outputs the response of its documented momentum observer and low-pass filter to exactly the samples accepted since the last reset or update. '
  'Samples of the wrong size or for a chain it is not up to date with change nothing; a sample whose Jacobian decomposition does not converge is reported as a failure but still counts in the observer. '
  'After a reset or update the output does not depend on anything before it, non-finite samples included. '
  'In closed loop with a simulated robot under a constant wrench, the estimate converges to that wrench once sensor faults have stopped (and, after non-finite samples, the observer was reset).',
  [H, FS, SC], 'all sample sequences with dropped, repeated, delayed, non-finite and wrong-size samples and resets at any point',
  'one test simulates one robot from one initial state with perfect sampling and checks only the final value',
  ['chainexternalwrenchestimator.cpp', 'chaindynparam.cpp'],
  [('JntToExtWrench, setInitialMomentum', 'chainexternalwrenchestimator.cpp')],
  [('estimated_momentum_integral, filtered_estimated_ext_torque, previous_jnt_mass_matrix, initial_jnt_momentum', 'observer state', 'chainexternalwrenchestimator.hpp')], ['wrench and joint torque estimates'])

prop('T01', 'Trees and chains always mirror the history of accepted edits',
  'After any history of adding segments, chains and trees, copying, assigning, overwriting and destroying trees and chains - edits accepted or refused, self-references included - a tree holds exactly the segments accepted so far, each as it was given and under the parent it was attached to, with consistent parent and child links, a joint count equal to its moving joints, and joint numbers that are a permutation of 0 to count-1 and that later edits and copies do not change. '
  'An edit with an unknown hook or a name already taken is refused; a refused segment or an unknown hook leaves the tree as it was, and a chain or tree refused part-way leaves a part in which every segment has its parent (for a chain, the part before the refused segment). '
  'A chain holds the segments added to it in order; a joint along a free axis cannot be made without one, nor another with one. The printed listing of a tree shows every segment once, under its parent, with its joint number. A copy is equal to and independent of its original, which may be changed or destroyed.',
  [H, FS, PR], 'all edit histories over several trees, with refused edits, self-references, copies and destructions at any point',
  'tests build three fixed trees; copies are looked at once, never after the original changed or died',
  ['tree.cpp', 'tree.hpp', 'chain.cpp', 'kinfam_io.cpp'],
  [('addSegment, addChain, addTree, addTreeRecursive, operator=', 'tree.cpp')],
  [('segments, nrOfJoints, nrOfSegments, root_name', 'the tree itself; elements point into the map', 'tree.hpp')], ['getSegments, getNrOfJoints, getNrOfSegments, getRootSegment'])

prop('T02', 'Chains and sub-trees taken from a tree move as the tree does',
  'After any building history, the chain taken between any two segments of a tree, along or across branches and in either direction, gives the same relative pose and velocity between them, and at every segment on the way, as the tree itself for the same joint values; its segments carry the names and masses of the tree segments they end at and move by their joints (same name, inertia, damping and stiffness). A sub-tree gives the same poses below its root as the tree. '
  'Asking for a segment that does not exist is refused; the result replaces whatever the receiving object held before, and the tree is unchanged.',
  [H, IN, PR], 'all trees, all pairs of segments, re-used receiving objects, refused requests between good ones',
  'tests take a few chains from fixed trees and mostly compare segment counts',
  ['tree.cpp', 'chain.cpp', 'segment.cpp'], [('getChain, getSubTree', 'tree.cpp')], [], ['poses of the extracted chain against the tree'])

prop('T03', 'Tree solvers answer for the tree they were given, after any history',
  'Forward kinematics, Jacobian and inverse dynamics of a tree agree with first principles for every segment, joint value, velocity, acceleration and external wrench after any history of answered, refused and non-finite calls. '
  'The pose and Jacobian solvers answer for the tree as it was when they were made, whatever becomes of it; the dynamics solver for the tree as it is, refusing with the not-up-to-date code until it is updated when the tree has changed its size. Unknown segment names and wrong sizes are refused with a negative code.',
  [H, FS, IN], 'all trees and call histories with faults', 'tests compare one fixed tree with its chains in a few states',
  ['treefksolverpos_recursive.cpp', 'treejnttojacsolver.cpp', 'treeidsolver_recursive_newton_euler.cpp'],
  [('recursiveFk', 'treefksolverpos_recursive.cpp'), ('JntToJac', 'treejnttojacsolver.cpp'), ('rne_step', 'treeidsolver_recursive_newton_euler.cpp')],
  [('X, S, v, a, f', 'per-segment maps kept between calls', 'treeidsolver_recursive_newton_euler.hpp')], ['poses, Jacobians, torques'])

prop('T04', 'Tree inverse kinematics never leaves its limits or overstates its result',
  'The tree velocity solver returns, for finite arguments, finite joint velocities that are the weighted damped least-squares solution for all its endpoints (minimum-norm without damping, redundant trees and singular poses included), together with the weighted norm of the twists. '
  'The tree position solver gives joint positions inside its limits, wherever it starts and whether it succeeds or not; a non-negative result is below the accuracy and is the weighted distance of the requested goals at the joint positions given. '
  'A failure of an inner solver is reported at once as a negative result, a goal that is not finite is never reported as reached, and the iteration limit is kept. '
  'Unknown endpoints, wrong sizes and weights of the wrong size are refused with a negative result; endpoints left out of the goals are not asked to move; the settings read back as given; nothing from earlier calls enters a result, one array may serve as start and result, and goals near a well-conditioned start are reached whatever failed before.',
  [H, FS, IN], 'all trees, endpoint sets, goals (partial, unknown, unreachable, non-finite), inner-solver failures and call histories',
  'tests use one fixed tree, all endpoints, working inner solvers',
  ['treeiksolvervel_wdls.cpp', 'treeiksolverpos_nr_jl.cpp'], [('CartToJnt', 'treeiksolvervel_wdls.cpp'), ('CartToJnt', 'treeiksolverpos_nr_jl.cpp')],
  [('frames, delta_twists, jacobians', 'per-endpoint maps kept between calls', 'treeiksolverpos_nr_jl.hpp')], ['result and joint positions'])

prop('T05', 'The online controller respects every limit in every cycle and settles',
  'In every cycle of the online tree position solver, whatever the goals did - jumped, vanished, became unreachable or non-finite - and whatever the inner solvers did, the joint positions it commands lie inside the position limits and, from measured positions inside them, differ by no more than the joint speed limits; the joint velocities asked for are scaled together, keeping their direction. '
  'The twists asked of the inner solver point to the goals and respect the translational and rotational limits, each scaled as a whole by its biggest overshoot; endpoints without a goal are not asked to move. '
  'A cycle with a failing inner solver, an unknown endpoint or a goal that is not finite returns a negative result; it leaves the joints where they were measured. One array may hold what is measured and what is commanded. '
  'Once goals stand still at a reachable pose near a well-conditioned one and faults stop, the commanded pose converges to the goals.',
  [H, FS, SC], 'all goal schedules, cycle interleavings, inner faults and limits',
  'the existing tests run two fixed goal sequences and check two numbers', ['treeiksolverpos_online.cpp', 'treeiksolvervel_wdls.cpp'],
  [('enforceJointVelLimits, enforceCartVelLimits', 'treeiksolverpos_online.cpp')], [('q_dot_, twist_, frames_, delta_twists_', 'cycle state', 'treeiksolverpos_online.hpp')], ['commanded positions; twists seen by the inner solver'])

prop('M01', 'Velocity profiles keep their promises for every sampling of time',
  'However a motion profile was set up (re-planned, stretched to a duration, copied, in either direction, with or without room for the cruise phase) and in whatever order, rate or jitter it is sampled, it starts at the start, ends at the end and (splines excepted, which meet the given positions, velocities and accelerations at their ends) stays there outside its time range; velocity is the derivative of position and acceleration that of velocity. '
  'Speed and acceleration never exceed the configured limits, and a profile stretched to a duration takes that duration unless the limits forbid it.',
  [SC, H, IN], 'all set-up histories and all sampling schedules (jitter, stalls, time running backwards, exact boundary instants)',
  'tests sample each profile at a few fixed instants for a few set-ups', ['velocityprofile_trap.cpp', 'velocityprofile_traphalf.cpp', 'velocityprofile_rect.cpp', 'velocityprofile_dirac.cpp', 'velocityprofile_spline.cpp'],
  [('SetProfile, SetProfileDuration, SetProfileVelocity, Clone', 'velocityprofile_trap.cpp')], [('a1..c3, t1, t2, duration', 'polynomials of the phases', 'velocityprofile_trap.hpp')], ['Duration, Pos, Vel, Acc'])

prop('M02', 'Geometric paths are continuous and consistent for every order of look-ups',
  'For every path built from lines, circles, points, rounded corners, cyclic and nested compositions, the pose at a path parameter does not depend on which parameters were asked before or by whom; it is continuous over the whole length, starts and ends where its parts do, and the velocity and acceleration twists are its first and second derivatives in time. '
  'A composition names its parts, where they end and which of them a parameter falls in. A copy of a path is the same path and shares nothing with it.',
  [H, SC, IN], 'all compositions and all look-up orders, sample jitter, boundary parameters', 'tests print or sample a few paths in ascending order',
  ['path_line.cpp', 'path_circle.cpp', 'path_point.cpp', 'path_composite.cpp', 'path_roundedcomposite.cpp', 'path_cyclic_closed.cpp', 'rotational_interpolation_sa.cpp'],
  [('Path_Composite::Lookup', 'path_composite.cpp'), ('Path_RoundedComposite::Add, Finish', 'path_roundedcomposite.cpp')], [('cached_starts, cached_ends, cached_index', 'look-up cache', 'path_composite.hpp')], ['Pos, Vel, Acc, PathLength'])

prop('M03', 'Trajectories follow their path at the profile\'s pace for every sampling of time',
  'A trajectory sampled at any times, in any order, from any number of readers, gives the pose of its path at the position of its profile, with twist and acceleration twist equal to the first and second time derivatives of that pose. '
  'A composition plays its parts one after the other, is continuous where its parts are, lasts as long as they do together and rests at its ends outside; a stationary part holds its pose for its time; copies play the same.',
  [SC, H, IN], 'all sampling schedules and composition histories', 'no unit test samples a composed trajectory',
  ['trajectory_segment.cpp', 'trajectory_composite.cpp', 'trajectory_stationary.cpp', 'path.cpp'], [('Trajectory_Composite::Pos/Vel/Acc, Add', 'trajectory_composite.cpp')], [('vd, duration', 'start times of parts', 'trajectory_composite.hpp')], ['Duration, Pos, Vel, Acc'])

prop('O01', 'Owned motion objects are released exactly once, on every path out',
  'For any history of building, nesting, copying and destroying paths, profiles, interpolations and trajectories, an object handed over for ownership is released exactly once and an object kept by the caller is never released by the library. '
  'This includes constructions that are rejected half-way: nothing is lost, nothing is released twice.',
  [H, FS, CP], 'all construction, composition, copy and destruction orders, with rejected constructions', 'tests delete one object at the end and do not count',
  ['path_composite.cpp', 'path_roundedcomposite.cpp', 'path_cyclic_closed.cpp', 'path_line.cpp', 'path_circle.cpp', 'trajectory_composite.cpp', 'trajectory_segment.cpp', 'path.cpp'],
  [('aggregate flags and destructors', 'path_composite.cpp'), ('comp ownership', 'path_roundedcomposite.cpp')], [('aggregate', 'whether a part is owned', 'path_line.hpp')], ['live blocks in the simulated heap'])

prop('S01', 'Written values read back equal through any stream',
  'Vectors, rotations, twists, wrenches, frames, their two-dimensional forms, and paths, velocity profiles and segment trajectories written to a text stream and read back are equal to the original up to the printed precision, in any sequence of values on one stream, with comments and white space between them, and however the stream delivers its bytes. '
  'Each read leaves the stream usable at the end of its own value; the error trace is empty after reads that succeed. (A value that is a single word is followed by white space.)',
  [H, FS, IN], 'all values, sequences and chunkings of the byte stream', 'tests do not read anything back', ['frames_io.cpp', 'path.cpp', 'utilities/utility_io.cxx', 'path_line.cpp', 'path_circle.cpp', 'path_composite.cpp', 'path_roundedcomposite.cpp'],
  [('operator>>', 'frames_io.cpp'), ('Path::Read', 'path.cpp')], [], ['values read, stream position'])

prop('S02', 'Damaged input ends in a clean error, never in damage or a wait without end',
  'Reading any of these values from a stream that is cut off, corrupted, or fails at any byte ends after consuming a bounded amount of input, either with a value or with one of the library\'s own errors; memory outside the library\'s buffers is not touched and nothing is lost. A bracketed text that is cut off before its closing bracket, or has a letter in place of one of its brackets, commas or semicolons, is refused. '
  'A later read from a good stream works as if the bad one had never been.',
  [FS, CP, IN], 'all truncation points, byte corruptions and stream failures of all value texts', 'tests never read a damaged stream', ['utilities/utility_io.cxx', 'frames_io.cpp', 'path.cpp', 'utilities/error_stack.cxx', 'utilities/error.h'],
  [('_check_istream, EatWord, EatEnd, Eat', 'utilities/utility_io.cxx'), ('IOTrace, IOTracePop', 'utilities/error_stack.cxx')], [('errorstack', 'trace of what is being read', 'utilities/error_stack.cxx')], ['outcome of the read, error trace, heap'])

prop('C01', 'Callers in different threads do not disturb each other',
  'Threads that each use their own solver objects on one shared unmodified chain or tree, or evaluate one shared unmodified path, profile or trajectory, or create, copy, read, write and use their own objects on their own streams, get exactly the results they would get alone, for every interleaving of their instructions.',
  [SC], 'all preemptive interleavings at memory-access granularity of several callers', 'tests are single-threaded', ['joint.cpp', 'chain.cpp', 'tree.cpp', 'path_composite.cpp', 'chainidsolver_recursive_newton_euler.cpp', 'utilities/error_stack.cxx'],
  [('const access paths without hidden mutable state', 'joint.cpp')], [('cached_index', 'mutable look-up cache', 'path_composite.hpp'), ('errorstack', 'global trace', 'utilities/error_stack.cxx')], ['results of each caller against its solo run'])

prop('A01', 'Running out of memory loses nothing and breaks nothing',
  'If an allocation fails at any point while objects are built, copied, edited, read or solved with, the failure is reported (as the standard out-of-memory error, or for a read as an error of the stream), nothing is leaked or released twice, objects not being written are unchanged, and every surviving object can be destroyed, even while no memory is available at all. '
  'Adding one segment, point or part happens completely or not at all; an object caught half-way in a larger change can be assigned afresh. Repeating the operation with memory available gives the result it would have given. (The matrix library itself is taken to survive a failed allocation.)',
  [FS, CP], 'every single allocation point of every kind of operation', 'tests never fail an allocation', ['chain.cpp', 'tree.cpp', 'jntarray.cpp', 'jacobian.cpp', 'path_composite.cpp', 'path_roundedcomposite.cpp', 'trajectory_composite.cpp'],
  [('constructors and clone functions', 'path_composite.cpp')], [], ['heap balance and results after a failed allocation'])

prop('P01', 'Python objects never outlive or corrupt what they are built on',
  'Mechanisms, trees and solvers used from Python behave as the C++ objects with the same history would: the same results and the same return codes, for any order in which Python creates, shares, drops and collects them, including temporaries passed to constructors, references taken from a chain or a solver, cycles, and Python code that runs in the middle of a call. '
  'A solver keeps everything it refers to alive and nothing keeps an object alive that no name or solver refers to; an index, size or column out of range raises an exception and changes nothing.',
  [H, SC, FS], 'all orders of creating, using, dropping and collecting mechanism and solver objects from Python, with faulty calls in between',
  'the Python tests keep every object in a variable until the end and never pass a wrong index', ['python_orocos_kdl/PyKDL/kinfam.cpp', 'python_orocos_kdl/PyKDL/dynamics.cpp'],
  [('class bindings of chains, trees, arrays and solvers', 'python_orocos_kdl/PyKDL/kinfam.cpp'), ('class bindings of the dynamics', 'python_orocos_kdl/PyKDL/dynamics.cpp')],
  [('keep_alive', 'life times tied together', 'python_orocos_kdl/PyKDL/kinfam.cpp')], ['results, codes and exceptions in Python; live objects in the simulated heap'])

prop('P02', 'Python values behave like the C++ values under any history of operations',
  'For any history of operators, in-place operators, attribute reads and writes, copies, pickles and faulty calls on vectors, rotations, frames, twists, wrenches and their velocity-carrying forms in Python, every value equals the C++ value with the same history. '
  'An attribute that is an object is a view: changing it changes its owner, which it keeps alive; assignment to an attribute copies; a copy or an unpickled object is equal and independent, and has the same hash (rotations, which are pickled as angles, are equal up to rounding). A bad index raises IndexError and a wrong type TypeError, and neither changes anything.',
  [H, SC, FS], 'all histories of operations on shared and copied values, with collections and faulty calls in between',
  'the Python tests do each operation once on a fresh object', ['python_orocos_kdl/PyKDL/frames.cpp', 'python_orocos_kdl/PyKDL/framevel.cpp'],
  [('class bindings of the values', 'python_orocos_kdl/PyKDL/frames.cpp'), ('class bindings of the velocity-carrying values', 'python_orocos_kdl/PyKDL/framevel.cpp')], [], ['values, representations, hashes and exceptions in Python'])

# Properties with no schedule, clock, fault, stream or history in them.
prop('G01', 'Geometric values obey their laws through any history of changes',
  'For any history of operations on vectors, rotations, frames, twists, wrenches, planar values, values that carry first or second derivatives, and rigid and articulated inertias, including operations whose result is stored over an operand and the in-place forms, every result is what the laws of rigid-body motion and of differentiation say of the operands as they were before the operation; conversions to angles, quaternions and axes and back give the same rotation, also in degenerate configurations. '
  'Integrating a twist, in however many steps of whatever lengths, moves the frame by the time that passed and keeps it a rigid motion; adding the difference of two values to the first gives the second. Values are equal within eps exactly when all their numbers are, whichever way round they are compared, and copies are equal and hash alike. Random values lie in the range asked for and depend on nothing but the generator.',
  [H, SC, IN], 'all histories of operations that reuse their operands, all step patterns of a clock that jitters, stalls, jumps and runs back', 'tests apply each operation to a few fresh values and store the result elsewhere', ['frames.inl', 'frames.cpp', 'framevel.inl', 'frameacc.inl', 'utilities/rall1d.h', 'utilities/rall2d.h', 'rigidbodyinertia.cpp', 'articulatedbodyinertia.cpp', 'stiffness.hpp'],
  [('operators and in-place operators', 'frames.inl'), ('Frame::Integrate, addDelta, diff', 'frames.inl'), ('derivatives', 'framevel.inl')], [('operands', 'values that are overwritten by their own result', 'frames.inl')], ['values after every operation'])

prop('N01', 'Joint-space results may overwrite their operands and reuse work space',
  'Adding, subtracting, scaling and copying joint arrays (plain or with velocities and accelerations) and joint-space inertia matrices, multiplying matrices with arrays, and changing the reference point, base or frame of a Jacobian give the result computed from the operands as they were, also when the result is stored over an operand or a part of one; derivatives follow the product and quotient rules. A destination of the wrong size that is refused is unchanged. '
  'The matrix factorisations (singular values, L D L\') give factors of the matrix they were called with, whatever their work space held and however the last call ended, and report matrices that are not finite.',
  [H, IN], 'all histories of calls that share destinations and work space', 'tests use fresh destinations and one call each', ['jntarray.cpp', 'jntarrayvel.cpp', 'jntarrayacc.cpp', 'jntspaceinertiamatrix.cpp', 'jacobian.cpp', 'utilities/svd_eigen_HH.cpp', 'utilities/svd_HH.cpp', 'utilities/svd_eigen_Macie.cpp', 'utilities/ldl_solver_eigen.cpp'],
  [('arithmetic', 'jntarrayvel.cpp'), ('factorisations', 'utilities/svd_eigen_HH.cpp')], [('work space', 'kept between calls', 'utilities/svd_eigen_Macie.cpp')], ['values after every call'])

prop('F01', 'Rigid-body transforms obey the group laws', 'Composition, inversion and application of rotations and frames, and the transformation of twists and wrenches between frames and reference points, obey the laws of the rigid-body group for all arguments.',
  [IN], 'all frames, twists and wrenches', 'tests sample a few values', ['frames.inl', 'frames.cpp'], [('operators', 'frames.inl')])
prop('F02', 'Rotation representations round-trip', 'Converting a rotation to roll-pitch-yaw, Euler angles, a quaternion or an angle and axis and back gives the same rotation for every rotation, including the degenerate ones.',
  [IN], 'all rotations', 'tests sample a few rotations', ['frames.cpp'], [('GetRPY, GetEulerZYZ, GetQuaternion, GetRotAngle', 'frames.cpp')])
prop('F03', 'Derivative-carrying numbers differentiate', 'Arithmetic on values that carry first or second derivatives gives the derivatives of the arithmetic on the values.',
  [IN], 'all values and operations', 'tests sample a few values', ['framevel.inl', 'frameacc.inl', 'utilities/rall1d.h', 'utilities/rall2d.h'], [('operators', 'framevel.inl')])
prop('F04', 'Spatial inertia transforms preserve kinetic energy', 'Moving a rigid or articulated inertia to another frame or reference point leaves the kinetic energy of every motion unchanged.',
  [IN], 'all inertias and frames', 'tests sample random values once', ['rigidbodyinertia.cpp', 'articulatedbodyinertia.cpp', 'rotationalinertia.cpp'], [('operator*', 'rigidbodyinertia.cpp')])
