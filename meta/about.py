"""How each property is decided: what a run does, the oracle, what is real, what stands in, what is trusted."""

FP = "double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"

ABOUT = {
"C01": dict(
 run="A run drives one filter of a drawn kind, size and noise with a schedule of ticks and readings over a faulty link; readings, steps, noises, scores and callbacks are broken at drawn events, a callback at a drawn evaluation within the call.",
 oracle="A twin of the same filter receives only the accepted calls; after every call, getters and the reported results are compared bit for bit, and a call made of sound inputs must be accepted.",
 real="all seven estimators, their linear algebra and the resampler",
 stub="sensors, link, clock, random source and the caller's process, measurement and score callbacks are the simulator's",
 assume=["the twin's random source is advanced to where the rejected call left the real one, as the property allows"]),
"C02": dict(
 run="A run feeds a linear, extended or unscented filter of drawn model and size from a faulty link, with models, noises and states replaced on the way; the tracker world does the same with the ready-made models and wrapped headings.",
 oracle="Every accepted call is compared with a textbook step, written apart with its own Cholesky and inverse, from the filter's own state just before it; symmetry and semidefiniteness are checked after each call.",
 real="the three filters and models.rs",
 stub="sensors, link and models are the simulator's",
 assume=[FP, "a step whose own conditioning exceeds what doubles can carry is skipped, not judged"]),
"C03": dict(
 run="A run carries the error-state filter along a simulated flight: inertial samples late, stalled, doubled or broken, and readings of drawn caller models between them.",
 oracle="An independent strapdown step and error propagation, the Kalman correction with injection and reset, from the filter's own state before the call.",
 real="the error-state filter and the rotations under it", stub="IMU, link and measurement models", assume=[FP]),
"C04": dict(
 run="A run feeds Mahony or Madgwick with samples that are lost, zero, stalled, broken or of another field, then a quiet stretch in which all sensors agree.",
 oracle="The published update law for every accepted sample, unit length always, and a bound on the tilt left after the quiet stretch (progress within bounded simulated time once faults stop).",
 real="both filters", stub="gyroscope, accelerometer, magnetometer and clock", assume=[FP]),
"C05": dict(
 run="A run drives the particle filter with every random draw supplied by the simulator (stuck, extreme and exactly-zero draws included), models that break part way and scores in which none or one particle explains the reading.",
 oracle="A model of the cloud written apart: each draw is accounted for, each weight and each slot's source is known in advance.",
 real="the particle filter, all four resampling schemes, roughening", stub="the random source, process model and scores", assume=[FP]),
"C06": dict(
 run="A run drives the localizer through a simulated room with odometry lost, doubled or broken and scans dropped, stale or doubled, restarts from a snapshot included.",
 oracle="A model of the belief written apart, with its own ray casting of the map and its own copy of the random generator.",
 real="the localizer, the map it reads, its generator", stub="wheels, scanner, room", assume=[FP]),
"C07": dict(
 run="A run interleaves several generators of drawn seeds and streams, clones one at a crash and restarts it, or feeds the trait's default draws from a stuck or patterned source of words.",
 oracle="PCG-XSH-RR 64/32 and the polar method written apart; equality bit for bit.",
 real="the generator and the RandomSource trait's draws", stub="the word source in the second world", assume=[]),
"C08": dict(
 run="A run keeps a drawn set of components (estimators, controllers, filters, limiters, rotors, odometers, paths, profiles) on one machine, calls them in a drawn interleaving, reads, copies, crashes and resets them.",
 oracle="Each component's own calls replayed on a lone instance; after a reset, on a fresh one; equality bit for bit.",
 real="every stateful component", stub="callbacks, sensors and draws", assume=[]),
"C09": dict(
 run="A run samples a PID over a history of errors with stalls, broken samples, gain changes, resumes and resets.",
 oracle="The control law written apart, with its own integral, filter and saturation.", real="the PID controller", stub="plant, clock", assume=[FP]),
"C10": dict(
 run="A run passes a signal with spikes, gaps and broken samples through one-pole, biquad, cascade and multichannel filters whose coefficients are replaced on the way.",
 oracle="The difference equation over the recorded samples, and the published design formulas evaluated apart.", real="all recursive filters and their designs", stub="the signal", assume=[FP]),
"C11": dict(
 run="A run passes a signal with huge, broken and constant stretches through the average, the median and the Savitzky-Golay filter.",
 oracle="Mean, sorted middle and least-squares fit of the last window, computed from the recorded samples.", real="all window filters", stub="the signal", assume=[FP]),
"C12": dict(
 run="A run passes a signal with exact edges and samples that are none through deadband, switch and slew limiter.",
 oracle="Their documented laws, at the edges bit for bit.", real="the three components", stub="the signal and the clock", assume=[]),
"C13": dict(
 run="A run commands rotors with uneven, stalled and broken steps and asks the mixer for drawn wrenches of drawn layouts.",
 oracle="The closed exponential, and a least-squares solve written apart.", real="rotor lag and mixer", stub="commands and clock", assume=[FP]),
"C14": dict(
 run="A run moves a wheeled base over uneven, doubled, lost and broken steps, and asks the tracking laws for commands.",
 oracle="The exact arc as the caller's own sum of motions, and the published laws.", real="odometry, kinematics, pure pursuit", stub="wheels and clock", assume=[FP]),
"C15": dict(
 run="A run edits a path (some edits refused) and asks it for points, lengths, nearest and ahead points.",
 oracle="A list of the accepted waypoints searched by brute force.", real="the polyline path", stub="none", assume=[FP]),
"C16": dict(
 run="A run plans trapezoidal and S-curve moves of any size, stretches and synchronizes them, and reads them on a clock that jumps, stalls and runs backward.",
 oracle="Own minimum-time solutions, limits checked at every reading, numerical consistency of the derivatives.", real="motion profiles", stub="the clock", assume=[FP]),
"C17": dict(
 run="A run carries a drawn plant through legs by the adaptive, fixed-step and attitude integrators while the rate function fails at a drawn evaluation, spans turn backward, grids break and a leg is resumed from its last sound step.",
 oracle="Each accepted step redone with the published tableau from the recorded evaluations; a far tighter run of an own integrator for the true flow.", real="all integrators", stub="the rate function and the callers' clocks", assume=[FP]),
"C18": dict(
 run="A run hands bisection, Brent and the Newton methods a function with poles, jumps, noise, holes and values at the ends of what a double holds, recorded at every evaluation.",
 oracle="Each claim is held against the record: the point was tried, the bracket kept its sign change, the reason for stopping is true, and Newton's iterates are recomputed.", real="all root finders", stub="the caller's function", assume=[FP]),
"C19": dict(
 run="A run fits measurements that are wild, missing, repeated, degenerate or broken at a drawn evaluation.",
 oracle="Each step recomputed from the recorded residuals and Jacobians by an own solver; the answer's cost, place and reason checked against the record; the same fit in other units.", real="Levenberg-Marquardt and Gauss-Newton", stub="residual functions", assume=[FP]),
"C21": dict(
 run="A run solves for a target that moves, with encoders stuck or wrong, seeds outside limits, several starts and a second wish.",
 oracle="Each iteration redone from an own Jacobian and damped least squares; limits, residuals and reasons checked apart; branches found again from the recorded seeds.", real="the inverse-kinematics solvers and the tree under them", stub="target, encoders, random draws", assume=[FP]),
"C22": dict(
 run="A run writes, clears, draws and casts on a map over a long history with points and edges that are none and sizes that cannot be; the same history goes to a map the caller stores.",
 oracle="A plain array, exact geometry for what a line or circle touches, and a brute-force beam.", real="the occupancy grid and MapLike", stub="the caller-stored map", assume=[FP]),
"C23": dict(
 run="A run describes a robot, writes it out as MJCF or URDF over one or several files on a scratch disk, damages them (torn, lost, looping, unknown, unreadable) and loads it.",
 oracle="The description itself: defaults, classes, units, frames, shapes and includes are resolved apart; a named refusal for each kind of damage; generated source compared by value.", real="both loaders and the code generator", stub="the disk's contents (a scratch directory made and removed by the run)", assume=["the description generator covers the elements the loaders document; others are only checked to be refused"]),
"C24": dict(
 run="A run computes gains for drawn systems and costs in drawn units and lets the loop run under knocks, stalls and broken readings.",
 oracle="Value iteration and doubling written apart, the cost really spent, and the spectral radius by power iteration.", real="LQR and stability certificates", stub="plant and readings", assume=[FP]),
"C25": dict(
 run="One world asks the laws call by call; the other flies a whole drone on them through gusts, knocks, stalled controllers, lost readings and broken commands, then leaves it alone.",
 oracle="The published laws evaluated with plain matrices; for the flight, rest at target and heading within a bounded time once faults stop.", real="thrust command, attitude controller, regulator, mixer, rigid body and integrator", stub="gusts, sensors and the clock", assume=[FP]),
"C26": dict(
 run="Every other world is run again with numbers of its configuration and schedule replaced by the worst there are; a further world makes each one-shot call with such numbers, one nests model files thousands deep, one counts allocations.",
 oracle="No panic out of the library, no run past its bound, no allocation where none is promised (a counting allocator), no stack overflow on a small stack.", real="the whole library", stub="as in the world run", assume=["a run is taken as endless after two minutes of one trace that usually takes microseconds"]),
"C27": dict(
 run="A run drives follow-the-gap through a room by scans with lost, stale, noisy and broken beams.",
 oracle="Own search over all stretches of the scan with the documented score and margins; mirrored scans.", real="obstacle avoidance and scan geometry", stub="scanner, room, clock", assume=[FP]),
"C28": dict(
 run="A run throws a body about with gusts, knocks and uneven ticks, quaternions drifted or lost.",
 oracle="The midpoint step written with plain matrices; the same motion from another frame; energy and momentum over quiet stretches.", real="rigid body dynamics", stub="loads and clock", assume=[FP]),
"C29": dict(
 run="A run builds a tree joint by joint, some refused, poses it from readings that break, and asks frames, Jacobians, singular values and projectors.",
 oracle="Chains of plain 4x4 matrices, central differences of the pose, and an own eigenvalue solver for the singular values.", real="kinematic tree, Jacobian tools", stub="encoders", assume=[FP]),
"C30": dict(
 run="A run dresses that tree with balls and capsules, excludes pairs in any order, places obstacles and checks clearance pose after pose.",
 oracle="The gap of two segments from every place it can be least (ends, and the feet of the common perpendicular), over all pairs by brute force.", real="the collision checker", stub="shapes, obstacles, poses", assume=[FP]),
"C31": dict(
 run="A run plans, flies and replans smooth paths, some requests unsound, and reads them on a broken clock.",
 oracle="The least-snap conditions (continuity to the sixth derivative, ends, places) plus own polynomial pieces, areas and slopes.", real="minimum-snap planner, quintic and septic pieces, path evaluation", stub="clock and requests", assume=[FP, "joins are compared relative to the size of each derivative on the pieces that meet"]),
"C32": dict(
 run="A run keeps a book of rotations and poses over a long life: made, composed, inverted, blended, written out, read back, drifted and broken.",
 oracle="Plain matrices carried beside, each with an error bound that grows by what every operation may add.", real="SO(2), SO(3), SE(2), SE(3), unit quaternions, twists and wrenches", stub="none", assume=[FP]),
"C33": dict(
 run="A run samples a drawn continuous system over long, short, split, repeated and broken ticks.",
 oracle="The system's own power series taken over a tiny tick and doubled up, and composition of parts.", real="discretization and the matrix exponential", stub="tick lengths", assume=[FP, "systems whose exponential overflows are judged only on refusal"]),
"C37": dict(
 run="A run keeps one polynomial of a drawn number of coefficients and width, or one in three variables, through up to twelve edits: fresh, rooted or moved even coefficients, sums, scalings, shifts, reversals, derivatives, dropped and broken coefficients, terms pushed past the room there is, powers past what a term holds; after each every query, product, division and construction is asked with drawn arguments, ranges, tolerances, step budgets and samples.",
 oracle="The coefficients' own arithmetic in double width with the sizes of the terms as the error allowed; real roots bracketed between turning points found the same way one degree down, counts judged only where no turning point is close to nothing and a chain of divisions in two-part numbers shows no highest power the size of rounding; interpolation and end conditions evaluated back; normal equations of fits; a term list of its own for several variables.",
 real="all of polynomial except piecewise curves, which C31 covers", stub="nothing", assume=[FP, "roots are judged where powers of their size are held", "a tripled or doubled root is judged by what it leaves, not by how often rounding splits it", "derivatives of roots are not judged"]),
"C36": dict(
 run="A run keeps one matrix of a drawn shape and width through up to fourteen edits: entries, rank-one updates, scalings up to fourteen decades, graded rows and columns, repeated or blanked directions, broken entries, Gram products, pairs tilted by a few rounding steps; after each every factorization and query is asked, the orthogonal one also of the matrix grown and shrunk as far as its entries can be squared.",
 oracle="Backward-error bounds on the entries themselves (factors multiplied back, residuals weighed by the factors' sizes), determinants and minors term by term with compensation, singular values and eigenvalues by a Jacobi of its own, normal equations of plain and damped fits, the four laws of the pseudo-inverse.",
 real="all of linear_algebra's matrices, vectors and factorizations", stub="nothing", assume=[FP, "closed forms and factorizations that multiply entries are judged where such products can be held", "a damped fit is judged where damping leaves no direction lost", "infinite entries are judged only where a refusal is documented"]),
"C35": dict(
 run="A run draws programs of up to eleven steps over fifty-four scalar operations, makes each sound for the place it is read at, and reads them as floats, duals, hyper-duals, jets and nestings, through every derivator, table, field operator and approximator; the function breaks at a drawn reading, and requests that cannot be are mixed in.",
 oracle="The program run on truncated power series of its own (six orders in one variable, three in up to four), elementary functions from their own recurrences, each coefficient with a running bound of what rounding may have done; differences by hand at the mode's own places.",
 real="all derivative-carrying scalars, derivators, Jacobian, Hessian, curl, divergence, approximations", stub="the caller's function", assume=[FP, "places within a hundredth of a kink are left to the edge cases, whose outcome the documentation gives"]),
"C34": dict(
 run="A run integrates functions that answer anything at all, break at a drawn reading, or have a known integral, by every rule, order, count, nesting and choice of variables.",
 oracle="Every reading is recorded; rules built from their own recurrences (Golub-Welsch start, Newton polish) say where, how often and with what weight; closed forms for powers and bells.", real="all integrators and tables, line and plane-flux integrals", stub="the caller's function", assume=[FP, "the flux through a surface curve in space (flux_integral_3d) is left out: an existing test pins its sign combination"]),
}
