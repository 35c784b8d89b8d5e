TESTS = ("The two existing tests only run the library on fixed inputs and print or plot values; "
         "they assert no value and fail only on a crash or a hang. ")

prop("C01", "A planned trajectory visits every requested waypoint, in order and on time",
 "After waypoints are set on an idle generator with a known vehicle position, the position reference starts at the vehicle position at rest, passes through every requested waypoint in the requested order at exactly the time reported for it, and ends at rest on the last one. "
 "The reported waypoint list is the vehicle position followed by exactly the requested waypoints (same names, same positions), their times strictly increase from the start of the trajectory to its reported end, and additional velocity and acceleration constraints put on a waypoint are met there. "
 "This holds for every list of one or more waypoints, including waypoints close to each other, identical to each other or identical to the vehicle position.",
 ["inputs"], "Every vehicle position, speed > 0 and list of 1..20 waypoints (named or unnamed, repeated, nearly repeated, collinear, up to +-50 m, with optional velocity and acceleration constraints).",
 TESTS + "Which waypoint lists make the optimiser drop, reorder or miss a waypoint, or abort on a zero-length leg, is a question about all lists.",
 [D, DH, DW, M + "src/vertex.cpp", I + "impl/polynomial_optimization_linear_impl.h", I + "impl/polynomial_optimization_nonlinear_impl.h"],
 [("waypoint times from cumulative segment times", D + ": computeTrajectory"), ("vehicle waypoint prepended at rest", D + ": appendDronePositionWaypoint"),
  ("last waypoint constrained to rest", D + ": extractVerticesFromWaypoints"), ("initial segment times", M + "src/vertex.cpp: estimateSegmentTimesNfabian")],
 observe=["evaluateTrajectory", "getDynamicWaypoints", "getMinTime/getMaxTime", "getTimeCompensation"])

prop("C02", "Reference evaluation is total, clamped, finite and side-effect free",
 "Once a trajectory exists, a reference can be requested for any time: the call succeeds and every returned component is finite, times before the beginning give the first point of the trajectory and times after the end give the last point with zero velocity and acceleration. "
 "Asking for the same time again gives exactly the same reference, asking for positions only gives exactly the same position, and evaluations made for plotting never change any later answer (references, remaining waypoints, reported times).",
 ["inputs", "histories"], "Every planned trajectory and every finite sequence of evaluation times (negative, inside, at waypoint times, at the ends, far beyond the end), in any mix of normal, positions-only and plotting evaluations.",
 TESTS + "They evaluate at one regular grid of times and look at nothing that comes back.",
 [D, DH, TS, M + "src/trajectory.cpp"],
 [("clamping of the local time", D + ": evaluateModifiedTrajectory"), ("bookkeeping only when not plotting", D + ": evaluateTrajectory"), ("remaining waypoints", DH + ": getNextTrajectoryWaypoints, getRemainingWaypoints")],
 observe=["evaluateTrajectory", "getNextTrajectoryWaypoints", "getRemainingWaypoints"])

prop("C03", "Velocity and acceleration references are derivatives of the position reference",
 "At every time strictly inside a trajectory, the velocity reference is the time derivative of the position reference and the acceleration reference is the time derivative of the velocity reference. "
 "Position, velocity and acceleration references have no jumps anywhere on an unmodified trajectory, including at the waypoints. "
 "Both also hold after waypoints have been moved without replanning, except that an in-place move may add the small jumps at the edges of its bounded influence window (under 0.3 % of the displacement in position) and acts on positive times only.",
 ["inputs", "histories"], "Every planned trajectory, with and without in-place waypoint moves, at every time inside it.",
 TESTS + "No test compares a reference with the difference quotient of another.",
 [D, DW, TM, M + "src/segment.cpp", M + "src/trajectory.cpp", I + "polynomial.h"],
 [("bell-shaped displacement and its derivatives", TM + ": GaussianModifier::operator()"), ("per-order evaluation", D + ": getReferences"), ("segment lookup", M + "src/trajectory.cpp: evaluate")],
 observe=["evaluateTrajectory"])

prop("C04", "A planned trajectory respects the requested speed and the acceleration limit",
 "The speed along every trajectory planned from rest, through waypoints without velocity constraints of their own, stays within the requested speed, and its acceleration within standard gravity, up to the optimiser's soft-constraint tolerance (which grows with the logarithm of the duration: about 12 % for flights of a few seconds, 20 % for five minutes). "
 "The trajectory is not needlessly slow either: its duration stays below a fixed multiple of the straight-line time at the requested speed plus the time to accelerate and brake at every waypoint. "
 "A plan made in flight uses the speed requested last as well: every leg between two waypoints behind the splice takes about as long as that speed asks for, and the speed stays in the neighbourhood of the larger of the requests.",
 ["inputs"], "Every vehicle position, speed in 0.2..15 m/s and list of 1..18 waypoints, on a new generator or after an earlier flight has ended; plans made at any point of a flight, after the speed was raised or lowered.",
 TESTS + "The limits are never measured by a test.",
 [D, DH, I + "impl/polynomial_optimization_nonlinear_impl.h", M + "src/vertex.cpp"],
 [("soft magnitude constraints", D + ": computeTrajectory"), ("initial segment times", M + "src/vertex.cpp: estimateSegmentTimesNfabian")],
 observe=["evaluateTrajectory"])

prop("C05", "Moving a waypoint in place bends the path to it and nowhere else",
 "When a named waypoint that still lies ahead is moved without asking for a new plan, the position reference at its (unchanged) time becomes the new position, the displacement decays smoothly away from it as a bell curve whose half-width is set by the time left until the waypoint, and is exactly zero outside a bounded window around it; before its beginning and after its end the trajectory stays where it begins and ends. "
 "Successive moves of one waypoint compose to the last requested position, moves of different waypoints superpose, displacements below two centimetres per axis are ignored, and names that do not exist change nothing. "
 "The reported waypoint list then shows the new position with the same time, name and order.",
 ["inputs", "histories"], "Every planned trajectory, evaluation time reached so far and sequence of moves (existing, unknown and empty names, tiny and large displacements).",
 TESTS + "They call the modification once and check nothing.",
 [D, DW, DWH, TM],
 [("per-axis bell-shaped modifiers", DW + ": setCurrentPosition, trajectoryCompensation"), ("application to waypoints by name", D + ": applyWaypointModification"), ("superposition on the reference", D + ": evaluateModifiedTrajectory")],
 observe=["evaluateTrajectory", "getDynamicWaypoints"])

prop("C06", "The plan always reflects exactly the waypoint requests made so far",
 "After any history of setting, appending and moving waypoints, flying and letting the generator settle, the waypoints still ahead (and the reported remaining count) are those a simple sequential model predicts: setting replaces everything, appending adds at the end, moving changes the position of exactly the named ones, each keeps the constraints put on it and is passed with the velocity they ask for, waypoints already passed never come back, and nothing else is lost, duplicated or reordered. "
 "A waypoint still ahead when a new plan is made is kept by it unless it lies inside the short stretch of the old trajectory that the new plan flies unchanged. A move that asks for a new plan ends up in a plan made for the new position; it does not stay a deformation of the old one.",
 ["histories", "schedules"], "Every sequence of set, append, move (with and without replanning), vehicle-position updates and evaluations at non-decreasing times.",
 TESTS + "One fixed set and append sequence is run, in real time, and the waypoint list is never inspected.",
 [D, DH, DW],
 [("pending requests drained into the next plan", D + ": generateWaypointsForTheNextTrajectory"), ("passed waypoints filtered", D + ": filterPassedWaypoints"),
  ("splice points inserted", D + ": stitchActualTrajectoryWithNewWaypoints"), ("remaining waypoints", DH + ": getNextTrajectoryWaypoints, getRemainingWaypoints")],
 state=[("pending set/add/modify requests", "what the next plan must include"), ("current waypoints", "waypoints of the trajectory in force")],
 observe=["getDynamicWaypoints", "getRemainingWaypoints", "getNextTrajectoryWaypoints", "evaluateTrajectory"])

prop("C07", "Replacing the trajectory in flight never makes the references jump",
 "When a new plan takes over while the vehicle is flying the old one, the position reference continues from where it was: between two evaluations a short time apart it never moves by more than the distance the reference can travel in that time plus the 0.1 s time-alignment step, and plus what the two plans have come apart since the new one was begun (from the same position, velocity and acceleration) where the computation takes more than 0.1 s. "
 "The new trajectory first follows the old one through the splice points, in position, velocity and acceleration, and a plan started from rest starts at the vehicle position. "
 "The flag announcing a new trajectory is raised once for each take-over (and when a waypoint is moved in place), and cleared when read.",
 ["histories", "schedules"], "Every flight with plan changes (append, set, move with replanning) requested at any time and taking any simulated computation time up to half a second, with evaluations 2..100 ms apart in step with real time.",
 TESTS + "Take-over depends on when the background computation ends relative to the evaluation loop, which no test controls.",
 [D, DH], [("splice points", D + ": stitchActualTrajectoryWithNewWaypoints"), ("time alignment", D + ": timeFittingWithVehiclePosition"), ("take-over", D + ": swapTrajectory")],
 observe=["evaluateTrajectory", "getWasTrajectoryRegenerated", "getTimeCompensation"])

prop("C08", "Every request is honoured under any interleaving, and teardown is safe",
 "Whatever the interleaving of caller, background planner and computation threads, every set, append or move request ends up in the plan once the callers go on evaluating: none is lost, none is applied twice and nothing waits for ever (in particular, once waypoints have been set, queries that wait for a trajectory return), and threads which read the flag announcing a new trajectory see it once for each one. "
 "The generator can be destroyed at any moment, including while a computation is running, without a hang or any access to destroyed state.",
 ["schedules", "histories"], "Every interleaving of the three kinds of thread at their synchronisation and atomic operations, every computation time and every request history; destruction at any point.",
 TESTS + "They see one schedule per run, chosen by the operating system.",
 [D, DH], [("request flag", D + ": todoThreadLoop, checkTrajectoryGenerated"), ("asynchronous computation", D + ": generateTrajectory"), ("destructor", DH + ": ~DynamicTrajectory")],
 state=[("request flag", "a plan has been asked for"), ("computing flag", "a computation is under way")],
 observe=["getDynamicWaypoints", "getMaxTime", "getWasTrajectoryRegenerated", "destruction"])

prop("C09", "The generator can be used from several threads without data races",
 "One thread may evaluate and query the trajectory while other threads set, append and move waypoints, change the speed, update the vehicle position and read status (and, once there is a trajectory, its beginning and end), and several generators may be used at once: no data race (unsynchronised conflicting access to the same memory) occurs in any execution.",
 ["schedules", "histories"], "Every concurrent history of public calls with a single evaluating thread per generator and any number of requesting and reading threads, and any number of generators.",
 TESTS + "A race is invisible to a test that runs without a race detector.",
 [D, DH, TS, M + "src/timing.cpp", I + "timing.h"],
 [("mutexes around shared state", DH + ": member mutexes"), ("trajectory holder", TS), ("process-wide timer registry", M + "src/timing.cpp")],
 observe=["happens-before race detector over real threads"])

prop("C10", "Polynomial arithmetic and calculus are exact",
 "For polynomials of any supported order, evaluation of any derivative equals the mathematical derivative's value, and coefficient access, sum, product (convolution), scalar multiplication, offsetting, time scaling and appending zero coefficients all commute with evaluation (the value of the result is the corresponding combination of values, to rounding). "
 "The base coefficients used to build constraints reproduce evaluation and its derivatives at any time, and requests that would shorten a polynomial are refused and leave its value unchanged.",
 ["inputs"], "Every coefficient vector of 1..12 coefficients (products up to 22), every time in +-20 and every derivative order.",
 TESTS + "One polynomial is touched by the tests; the algebra is over all of them.",
 [I + "polynomial.h", M + "src/polynomial.cpp", I + "convolution.h"],
 [("Horner evaluation over base coefficients", I + "polynomial.h: evaluate"), ("convolution", M + "src/polynomial.cpp: convolve"), ("base coefficients", M + "src/polynomial.cpp: computeBaseCoefficients")])

prop("C11", "Polynomial roots and extrema are complete and correct",
 "The roots reported for a polynomial are its roots, all of them with multiplicity, for every derivative requested (each satisfies the equation to rounding, and to one part in a thousand of its terms among clustered roots, which are ill-conditioned); trailing and leading zero coefficients are handled. "
 "The minimum and maximum reported over an interval are attained at the reported times inside the interval, and no point of the interval lies below the minimum or above the maximum by more than the accuracy of the roots allows.",
 ["inputs"], "Polynomials with prescribed (real, complex, clustered, repeated, zero) roots and random coefficients, every derivative and every interval.",
 TESTS + "Root finding is iterative; which coefficients defeat it cannot be read off a few examples.",
 [M + "src/polynomial.cpp", M + "src/rpoly/rpoly_ak1.cpp", I + "rpoly/rpoly_ak1.h"],
 [("Jenkins-Traub", M + "src/rpoly/rpoly_ak1.cpp"), ("candidate selection", M + "src/polynomial.cpp: selectMinMaxCandidatesFromRoots, selectMinMaxFromCandidates")])

prop("C12", "Trajectories are the concatenation of their segments under every operation",
 "A trajectory evaluated at any time in its range gives the value of the segment covering that time, its duration is the sum of the segment times, and evaluating a range gives exactly the values and the times at the requested spacing from the requested start up to the requested end. "
 "Extracting a dimension, appending dimensions (stretching the shorter segment to the longer one's duration), joining trajectories, offsetting and scaling the time keep the corresponding values, durations, vertices and derivatives; mismatching requests are refused and leave the trajectory unchanged. "
 "Times after the end give zero. Equality holds exactly for equal segment sequences, and the holder in which threads share a trajectory answers as the one last put into it.",
 ["inputs", "histories"], "Every trajectory of 1..6 segments and 1..4 dimensions (different orders when appending), every time, range, spacing and sequence of operations.",
 TESTS + "They build one trajectory and read it on one grid.",
 [M + "src/trajectory.cpp", M + "src/segment.cpp", I + "trajectory.h", I + "segment.h"],
 [("segment lookup", M + "src/trajectory.cpp: evaluate, evaluateRange"), ("dimension split and append", M + "src/segment.cpp: getSegmentWithAppendedDimension"), ("time scaling", M + "src/trajectory.cpp: scaleSegmentTimes")])

prop("C13", "Magnitude extrema are exact and time scaling enforces limits, keeping the shape",
 "The reported extreme magnitudes of a derivative over a trajectory, or over a part of a segment, are attained at the reported segment and time, and no point exceeds the maximum (nor, over two or more dimensions, undercuts the minimum); a derivative that vanishes has zero extremes, and dimensions that do not exist are refused. The candidates found by sampling are ordered, include both ends and miss the true maximum by no more than the sampling interval explains. "
 "Scaling a trajectory to meet speed and acceleration limits brings both within one part in a thousand of the limits, stretches all segments by one common factor of at least one and no larger than needed (within that tolerance), and leaves the geometric path unchanged; a trajectory within the limits is not changed at all.",
 ["inputs"], "Every trajectory of 1..5 segments, 1..4 dimensions and 1..12 coefficients, every derivative (also of the order of the polynomial and beyond), subset of dimensions, interval and pair of limits.",
 TESTS + "No test compares extrema with a sampled truth.",
 [M + "src/segment.cpp", M + "src/trajectory.cpp", I + "impl/polynomial_optimization_linear_impl.h"],
 [("magnitude candidates by convolution", M + "src/segment.cpp: computeMinMaxMagnitudeCandidateTimes"), ("iterative scaling", M + "src/trajectory.cpp: scaleSegmentTimesToMeetConstraints"), ("optimiser-side maximum", I + "impl/polynomial_optimization_linear_impl.h: computeMaximumOfMagnitude")])

prop("C14", "The linear optimiser returns the cheapest trajectory that meets every constraint",
 "For any waypoints and positive segment times, the solution satisfies every given constraint at its waypoint on both sides, is continuous in every derivative that the waypoints fix or share, keeps the given segment times, and reports as its cost the integral of the squared chosen derivative over the trajectory. "
 "No other trajectory meeting the same constraints is cheaper (any perturbation of the free derivatives raises the cost), and the solution follows translations, scalings, permutations of dimensions, time reversal and time stretching of the problem. "
 "Constraints of too high an order are ignored, and the mapping, inverse mapping, reordering and cost matrices satisfy their defining identities.",
 ["inputs"], "1..6 segments, 1..4 dimensions, N in {4,6,8,10,12}, every derivative to optimise, every subset of constrained derivatives at every waypoint, segment times 0.2..10 s.",
 TESTS + "One set of waypoints is solved; optimality is a statement about all competitors.",
 [I + "polynomial_optimization_linear.h", I + "impl/polynomial_optimization_linear_impl.h"],
 [("mapping matrices", I + "impl/polynomial_optimization_linear_impl.h: setupMappingMatrix, invertMappingMatrix"), ("constraint reordering", I + "impl/polynomial_optimization_linear_impl.h: setupConstraintReorderingMatrix"), ("cost", I + "impl/polynomial_optimization_linear_impl.h: computeQuadraticCostJacobian, solveLinear")])

prop("C15", "The nonlinear optimiser keeps every constraint and never worsens the plan",
 "Whatever the time-allocation method, the result satisfies every waypoint constraint and is continuous like the linear solution, its segment times are positive and at least the lower bound, and the trajectory, segment times and cost it reports belong together. "
 "The objective of the result is never worse than that of the initial guess and is the best the search found, free waypoint derivatives of bounded order stay within the limits given for them, and methods that end by scaling meet the speed and acceleration limits; of several limits of one derivative, the tightest counts.",
 ["inputs", "configurations"], "1..4 segments, 1..3 dimensions, every time-allocation method with soft or hard limits, several stopping criteria, derivatives to optimise and constraint sets.",
 TESTS + "One problem is optimised with default settings and its result is only printed.",
 [I + "polynomial_optimization_nonlinear.h", I + "impl/polynomial_optimization_nonlinear_impl.h"],
 [("objective functions", I + "impl/polynomial_optimization_nonlinear_impl.h: objectiveFunctionTime, objectiveFunctionTimeAndConstraints"), ("bounds on free derivatives", I + "impl/polynomial_optimization_nonlinear_impl.h: setFreeEndpointDerivativeHardConstraints"), ("scaling after the outer loop", I + "impl/polynomial_optimization_nonlinear_impl.h: scaleSegmentTimesWithViolation")])

prop("C16", "A saved trajectory loads back as the same trajectory",
 "Writing a trajectory (or list of segments) to a file, or converting it to a document tree, and reading it back gives the same number of segments, dimensions and coefficients, exactly the same coefficient values and the same segment times to the nanosecond; saving and loading again changes nothing more. "
 "File and document forms agree with each other (a list of segments is the document's 'segments' entry), a save that cannot be written is reported as failed, and the rows of the sampled-state dump are, in order, the samples of the whole trajectory with the values of the trajectory at that time to the six digits written.",
 ["inputs"], "Every trajectory of 1..8 segments, 1..6 dimensions and 1..12 coefficients with finite coefficients of any magnitude and segment times up to an hour.",
 TESTS + "Nothing is saved or loaded by the tests.",
 [M + "src/io.cpp", I + "io.h", I + "segment.h"],
 [("file writer and reader", M + "src/io.cpp: segmentsToFile, segmentsFromFile"), ("document tree", M + "src/io.cpp: segmentsToYaml, segmentsFromYaml"), ("nanosecond times", I + "segment.h: getTimeNSec, setTimeNSec")])

prop("C17", "Malformed trajectory files and documents are refused cleanly",
 "Loading from a missing, empty, truncated or malformed file or document reports failure by its return value: it never crashes, aborts or throws, never reads or writes out of bounds, and leaves the caller's trajectory unchanged. "
 "Whatever is accepted is a well-formed trajectory: at least one segment, every segment with the same declared dimension and coefficient counts, and it can be evaluated everywhere.",
 ["inputs"], "Every byte string as file content, including all small structural edits of valid files (missing, duplicated, retyped, negative, huge or mismatching fields).",
 TESTS + "Nothing is loaded by the tests.",
 [M + "src/io.cpp", I + "io.h"],
 [("format checks", M + "src/io.cpp: segmentsFromFile, segmentFromYaml, coefficientsFromYaml"), ("file to trajectory", I + "io.h: trajectoryFromFile")])

prop("C18", "Sampled states agree with the trajectory at the sampled time",
 "A sampled state carries the trajectory's position, velocity, acceleration, jerk and snap at the sampled time, and the time itself; for four dimensions also the heading, heading rate and heading acceleration, for six dimensions the attitude of the rotation vector with its angular velocity and angular acceleration. "
 "Sampling a range, a duration or the whole trajectory gives the states at the start plus multiples of the interval, each equal to the state sampled on its own, and requests outside the trajectory or with fewer than three dimensions are refused.",
 ["inputs"], "Every trajectory of 1..5 segments and 1..6 dimensions, every time, range and interval.",
 TESTS + "Sampling is exercised on one trajectory without looking at the values.",
 [M + "src/trajectory_sampling.cpp", "subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp", "subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp"],
 [("flat state", M + "src/trajectory_sampling.cpp: sampleFlatStateAtTime"), ("ranges", M + "src/trajectory_sampling.cpp: sampleTrajectoryInRange")])

prop("C19", "Attitude and state conversions are mutually consistent",
 "Conversions between heading, Euler angles, quaternions, rotation matrices, rotation vectors and skew-symmetric matrices invert each other on their domain; angular velocity and acceleration computed from a rotation vector are the rates of the rotation it describes; matrices that are not rotations or not skew-symmetric are refused. "
 "Rigidly moving a trajectory point moves its position, rotates its vectors and composes its attitude; world and body velocity accessors invert each other; seconds and nanoseconds convert back and forth; rotor speeds follow the rigid-body torque and thrust equation, and local gravity that of the reference ellipsoid.",
 ["inputs"], "Every rotation (all axes, angles up to and including half a turn), every rate, acceleration, point and rigid motion.",
 TESTS + "None of these functions is reached with a checked result.",
 [M + "include/mav_msgs/common.hpp", M + "include/mav_msgs/eigen_mav_msgs.hpp"],
 [("rotation vector and matrix", M + "include/mav_msgs/common.hpp: matrixFromRotationVector, vectorFromRotationMatrix"), ("rates", M + "include/mav_msgs/common.hpp: omegaFromRotationVector, omegaDotFromRotationVector"), ("rigid motion of a point", M + "include/mav_msgs/eigen_mav_msgs.hpp: operator*")])

prop("C20", "Segment time estimates are positive and follow their formula",
 "For every list of two or more waypoints there is one time per leg and every estimate is strictly positive and finite, also for legs of zero length. "
 "They do not depend on the other legs, on translation or on rotation and never decrease with distance; the velocity-ramp estimate never increases with the speed or acceleration allowed; and they equal their documented formulas (straight-line trapezoidal profile times the time factor, and the magic-fabian formula), raised to the minimum of 0.1 s where that applies.",
 ["inputs"], "Every list of 2..8 waypoints in 1..4 dimensions with or without velocity constraints, speeds 0.05..30 m/s and accelerations 0.1..50 m/s2.",
 TESTS + "One list is used and its times are printed.",
 [M + "src/vertex.cpp", I + "vertex.h"],
 [("estimates", M + "src/vertex.cpp: estimateSegmentTimesNfabian, estimateSegmentTimesVelocityRamp, computeTimeVelocityRamp")])

prop("C21", "Waypoint constraint sets behave as maps and generators give what was asked",
 "A vertex remembers exactly the constraints put on it (last value per derivative wins, removal removes, sub-dimension extraction keeps the selected components up to the selected order, comparison with tolerance compares sets and values), and start or end marking fixes the position and zeroes the derivatives up to the given order. "
 "Generated random and square waypoint lists have the requested number, dimension, bounds, minimum separation, closed square shape and rest constraints, the random ones depend only on the seed, and derivative names convert to numbers and back.",
 ["inputs", "histories"], "Every sequence of vertex operations in 1..6 dimensions and every generator argument in its documented range.",
 TESTS + "Vertices are built in one fixed way.",
 [M + "src/vertex.cpp", I + "vertex.h", M + "src/motion_defines.cpp"],
 [("constraint map", I + "vertex.h: Vertex"), ("generators", M + "src/vertex.cpp: createRandomVertices, createSquareVertices"), ("names", M + "src/motion_defines.cpp")])

prop("C22", "Waypoint objects keep position, constraints, time and pending moves consistent",
 "Through any sequence of moves, resets, time changes, constraint changes, copies and assignments, a waypoint's current position equals its last requested position and its position constraint, its original position changes only on reset, a copy behaves exactly like the source under all further operations, and a reset removes all pending displacement. "
 "The displacement it contributes at a time is the sum of its moves' bell curves centred at the waypoint's current time (each move has one width: a third of the time left until the waypoint, or, while nothing has been evaluated yet, a width shrinking by a quarter per move from 1.5 s), whose first and second derivative requests return the true derivatives, with zero outside the bounded window; it is finite for every time and width.",
 ["inputs", "histories"], "Every sequence of operations on waypoint objects and every evaluation time.",
 TESTS + "Waypoint objects are only used as plain inputs.",
 [DW, DWH, TM],
 [("modifiers", DW + ": setCurrentPosition, trajectoryCompensation"), ("bell curve", TM + ": GaussianModifier"), ("copying", DW + ": copy constructor")])

prop("C23", "Timing statistics describe exactly the samples recorded",
 "Accumulated statistics equal those of the recorded sample sequence: count, sum, mean, minimum and maximum over all samples, and mean and variance over the most recent window. "
 "Named timers are created once per name, names and handles map to each other, every start and stop pair adds exactly one non-negative sample to its own timer only, resetting forgets everything consistently, and the printed table has one row per timer with these numbers.",
 ["inputs", "histories"], "Every sequence of samples (any sign, any window size) and every history of timer operations.",
 TESTS + "Timing statistics are only printed.",
 [M + "src/timing.cpp", I + "timing.h"],
 [("accumulator", I + "timing.h: Accumulator"), ("registry", M + "src/timing.cpp: Timing")])

MSG = M + "include/mav_msgs/eigen_mav_msgs.hpp"
prop("C24", "Containers hold what they are given and text shows what objects hold",
 "A message container (attitude, rate, torque, actuator commands, state, trajectory point, odometry) built without values is at zero, identity and an invalid timestamp; built from values it holds exactly these, each in its own field, and everything not given is at its default, whatever the memory held before. "
 "The printed text of a waypoint, a segment, an extremum, an optimisation report, a state or point, and the optimiser's mapping matrix shows every held number under its name, in order, to the printed precision; extrema are ordered by value.",
 ["inputs"], "Every value of every container field, every waypoint list, trajectory, extremum and report.",
 TESTS + "Nothing printed is ever compared and containers are built in fresh memory.",
 [MSG, M + "src/vertex.cpp", M + "src/segment.cpp", I + "extremum.h", I + "impl/polynomial_optimization_nonlinear_impl.h", I + "impl/polynomial_optimization_linear_impl.h"],
 [("containers", MSG + ": constructors and defaults"), ("printing", M + "src/vertex.cpp, src/segment.cpp: operator<<, printSegment")])
