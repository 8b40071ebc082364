//! What each check does, for its evidence. Written by meta/gen.py from meta/about.py.

pub fn about(id: &str) -> (&'static str, &'static str, &'static str, &'static [&'static str]) {
    match id {
        "C01" => (
            "A run drives one filter of a drawn kind, size and noise with a schedule of ticks and readings over a faulty link; readings, steps, noises, scores and callbacks are broken at drawn events, a callback at a drawn evaluation within the call. Judged by: A twin of the same filter receives only the accepted calls; after every call, getters and the reported results are compared bit for bit, and a call made of sound inputs must be accepted.",
            "all seven estimators, their linear algebra and the resampler",
            "sensors, link, clock, random source and the caller's process, measurement and score callbacks are the simulator's",
            &["the twin's random source is advanced to where the rejected call left the real one, as the property allows"],
        ),
        "C02" => (
            "A run feeds a linear, extended or unscented filter of drawn model and size from a faulty link, with models, noises and states replaced on the way; the tracker world does the same with the ready-made models and wrapped headings. Judged by: Every accepted call is compared with a textbook step, written apart with its own Cholesky and inverse, from the filter's own state just before it; symmetry and semidefiniteness are checked after each call.",
            "the three filters and models.rs",
            "sensors, link and models are the simulator's",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "a step whose own conditioning exceeds what doubles can carry is skipped, not judged"],
        ),
        "C03" => (
            "A run carries the error-state filter along a simulated flight: inertial samples late, stalled, doubled or broken, and readings of drawn caller models between them. Judged by: An independent strapdown step and error propagation, the Kalman correction with injection and reset, from the filter's own state before the call.",
            "the error-state filter and the rotations under it",
            "IMU, link and measurement models",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C04" => (
            "A run feeds Mahony or Madgwick with samples that are lost, zero, stalled, broken or of another field, then a quiet stretch in which all sensors agree. Judged by: The published update law for every accepted sample, unit length always, and a bound on the tilt left after the quiet stretch (progress within bounded simulated time once faults stop).",
            "both filters",
            "gyroscope, accelerometer, magnetometer and clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C05" => (
            "A run drives the particle filter with every random draw supplied by the simulator (stuck, extreme and exactly-zero draws included), models that break part way and scores in which none or one particle explains the reading. Judged by: A model of the cloud written apart: each draw is accounted for, each weight and each slot's source is known in advance.",
            "the particle filter, all four resampling schemes, roughening",
            "the random source, process model and scores",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C06" => (
            "A run drives the localizer through a simulated room with odometry lost, doubled or broken and scans dropped, stale or doubled, restarts from a snapshot included. Judged by: A model of the belief written apart, with its own ray casting of the map and its own copy of the random generator.",
            "the localizer, the map it reads, its generator",
            "wheels, scanner, room",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C07" => (
            "A run interleaves several generators of drawn seeds and streams, clones one at a crash and restarts it, or feeds the trait's default draws from a stuck or patterned source of words. Judged by: PCG-XSH-RR 64/32 and the polar method written apart; equality bit for bit.",
            "the generator and the RandomSource trait's draws",
            "the word source in the second world",
            &[],
        ),
        "C08" => (
            "A run keeps a drawn set of components (estimators, controllers, filters, limiters, rotors, odometers, paths, profiles) on one machine, calls them in a drawn interleaving, reads, copies, crashes and resets them. Judged by: Each component's own calls replayed on a lone instance; after a reset, on a fresh one; equality bit for bit.",
            "every stateful component",
            "callbacks, sensors and draws",
            &[],
        ),
        "C09" => (
            "A run samples a PID over a history of errors with stalls, broken samples, gain changes, resumes and resets. Judged by: The control law written apart, with its own integral, filter and saturation.",
            "the PID controller",
            "plant, clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C10" => (
            "A run passes a signal with spikes, gaps and broken samples through one-pole, biquad, cascade and multichannel filters whose coefficients are replaced on the way. Judged by: The difference equation over the recorded samples, and the published design formulas evaluated apart.",
            "all recursive filters and their designs",
            "the signal",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C11" => (
            "A run passes a signal with huge, broken and constant stretches through the average, the median and the Savitzky-Golay filter. Judged by: Mean, sorted middle and least-squares fit of the last window, computed from the recorded samples.",
            "all window filters",
            "the signal",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C12" => (
            "A run passes a signal with exact edges and samples that are none through deadband, switch and slew limiter. Judged by: Their documented laws, at the edges bit for bit.",
            "the three components",
            "the signal and the clock",
            &[],
        ),
        "C13" => (
            "A run commands rotors with uneven, stalled and broken steps and asks the mixer for drawn wrenches of drawn layouts. Judged by: The closed exponential, and a least-squares solve written apart.",
            "rotor lag and mixer",
            "commands and clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C14" => (
            "A run moves a wheeled base over uneven, doubled, lost and broken steps, and asks the tracking laws for commands. Judged by: The exact arc as the caller's own sum of motions, and the published laws.",
            "odometry, kinematics, pure pursuit",
            "wheels and clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C15" => (
            "A run edits a path (some edits refused) and asks it for points, lengths, nearest and ahead points. Judged by: A list of the accepted waypoints searched by brute force.",
            "the polyline path",
            "none",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C16" => (
            "A run plans trapezoidal and S-curve moves of any size, stretches and synchronizes them, and reads them on a clock that jumps, stalls and runs backward. Judged by: Own minimum-time solutions, limits checked at every reading, numerical consistency of the derivatives.",
            "motion profiles",
            "the clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C22" => (
            "A run writes, clears, draws and casts on a map over a long history with points and edges that are none and sizes that cannot be; the same history goes to a map the caller stores. Judged by: A plain array, exact geometry for what a line or circle touches, and a brute-force beam.",
            "the occupancy grid and MapLike",
            "the caller-stored map",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C17" => (
            "A run carries a drawn plant through legs by the adaptive, fixed-step and attitude integrators while the rate function fails at a drawn evaluation, spans turn backward, grids break and a leg is resumed from its last sound step. Judged by: Each accepted step redone with the published tableau from the recorded evaluations; a far tighter run of an own integrator for the true flow.",
            "all integrators",
            "the rate function and the callers' clocks",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C18" => (
            "A run hands bisection, Brent and the Newton methods a function with poles, jumps, noise, holes and values at the ends of what a double holds, recorded at every evaluation. Judged by: Each claim is held against the record: the point was tried, the bracket kept its sign change, the reason for stopping is true, and Newton's iterates are recomputed.",
            "all root finders",
            "the caller's function",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C19" => (
            "A run fits measurements that are wild, missing, repeated, degenerate or broken at a drawn evaluation. Judged by: Each step recomputed from the recorded residuals and Jacobians by an own solver; the answer's cost, place and reason checked against the record; the same fit in other units.",
            "Levenberg-Marquardt and Gauss-Newton",
            "residual functions",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C21" => (
            "A run solves for a target that moves, with encoders stuck or wrong, seeds outside limits, several starts and a second wish. Judged by: Each iteration redone from an own Jacobian and damped least squares; limits, residuals and reasons checked apart; branches found again from the recorded seeds.",
            "the inverse-kinematics solvers and the tree under them",
            "target, encoders, random draws",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C27" => (
            "A run drives follow-the-gap through a room by scans with lost, stale, noisy and broken beams. Judged by: Own search over all stretches of the scan with the documented score and margins; mirrored scans.",
            "obstacle avoidance and scan geometry",
            "scanner, room, clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C23" => (
            "A run describes a robot, writes it out as MJCF or URDF over one or several files on a scratch disk, damages them (torn, lost, looping, unknown, unreadable) and loads it. Judged by: The description itself: defaults, classes, units, frames, shapes and includes are resolved apart; a named refusal for each kind of damage; generated source compared by value.",
            "both loaders and the code generator",
            "the disk's contents (a scratch directory made and removed by the run)",
            &["the description generator covers the elements the loaders document; others are only checked to be refused"],
        ),
        "C24" => (
            "A run computes gains for drawn systems and costs in drawn units and lets the loop run under knocks, stalls and broken readings. Judged by: Value iteration and doubling written apart, the cost really spent, and the spectral radius by power iteration.",
            "LQR and stability certificates",
            "plant and readings",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C25" => (
            "One world asks the laws call by call; the other flies a whole drone on them through gusts, knocks, stalled controllers, lost readings and broken commands, then leaves it alone. Judged by: The published laws evaluated with plain matrices; for the flight, rest at target and heading within a bounded time once faults stop.",
            "thrust command, attitude controller, regulator, mixer, rigid body and integrator",
            "gusts, sensors and the clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C28" => (
            "A run throws a body about with gusts, knocks and uneven ticks, quaternions drifted or lost. Judged by: The midpoint step written with plain matrices; the same motion from another frame; energy and momentum over quiet stretches.",
            "rigid body dynamics",
            "loads and clock",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C29" => (
            "A run builds a tree joint by joint, some refused, poses it from readings that break, and asks frames, Jacobians, singular values and projectors. Judged by: Chains of plain 4x4 matrices, central differences of the pose, and an own eigenvalue solver for the singular values.",
            "kinematic tree, Jacobian tools",
            "encoders",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C30" => (
            "A run dresses that tree with balls and capsules, excludes pairs in any order, places obstacles and checks clearance pose after pose. Judged by: The gap of two segments from every place it can be least (ends, and the feet of the common perpendicular), over all pairs by brute force.",
            "the collision checker",
            "shapes, obstacles, poses",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C31" => (
            "A run plans, flies and replans smooth paths, some requests unsound, and reads them on a broken clock. Judged by: The least-snap conditions (continuity to the sixth derivative, ends, places) plus own polynomial pieces, areas and slopes.",
            "minimum-snap planner, quintic and septic pieces, path evaluation",
            "clock and requests",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "joins are compared relative to the size of each derivative on the pieces that meet"],
        ),
        "C32" => (
            "A run keeps a book of rotations and poses over a long life: made, composed, inverted, blended, written out, read back, drifted and broken. Judged by: Plain matrices carried beside, each with an error bound that grows by what every operation may add.",
            "SO(2), SO(3), SE(2), SE(3), unit quaternions, twists and wrenches",
            "none",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone"],
        ),
        "C33" => (
            "A run samples a drawn continuous system over long, short, split, repeated and broken ticks. Judged by: The system's own power series taken over a tiny tick and doubled up, and composition of parts.",
            "discretization and the matrix exponential",
            "tick lengths",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "systems whose exponential overflows are judged only on refusal"],
        ),
        "C34" => (
            "A run integrates functions that answer anything at all, break at a drawn reading, or have a known integral, by every rule, order, count, nesting and choice of variables. Judged by: Every reading is recorded; rules built from their own recurrences (Golub-Welsch start, Newton polish) say where, how often and with what weight; closed forms for powers and bells.",
            "all integrators and tables, line and plane-flux integrals",
            "the caller's function",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "the flux through a surface curve in space (flux_integral_3d) is left out: an existing test pins its sign combination"],
        ),
        "C35" => (
            "A run draws programs of up to eleven steps over fifty-four scalar operations, makes each sound for the place it is read at, and reads them as floats, duals, hyper-duals, jets and nestings, through every derivator, table, field operator and approximator; the function breaks at a drawn reading, and requests that cannot be are mixed in. Judged by: The program run on truncated power series of its own (six orders in one variable, three in up to four), elementary functions from their own recurrences, each coefficient with a running bound of what rounding may have done; differences by hand at the mode's own places.",
            "all derivative-carrying scalars, derivators, Jacobian, Hessian, curl, divergence, approximations",
            "the caller's function",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "places within a hundredth of a kink are left to the edge cases, whose outcome the documentation gives"],
        ),
        "C36" => (
            "A run keeps one matrix of a drawn shape and width through up to fourteen edits: entries, rank-one updates, scalings up to fourteen decades, graded rows and columns, repeated or blanked directions, broken entries, Gram products, pairs tilted by a few rounding steps; after each every factorization and query is asked, the orthogonal one also of the matrix grown and shrunk as far as its entries can be squared. Judged by: Backward-error bounds on the entries themselves (factors multiplied back, residuals weighed by the factors' sizes), determinants and minors term by term with compensation, singular values and eigenvalues by a Jacobi of its own, normal equations of plain and damped fits, the four laws of the pseudo-inverse.",
            "all of linear_algebra's matrices, vectors and factorizations",
            "nothing",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "closed forms and factorizations that multiply entries are judged where such products can be held", "a damped fit is judged where damping leaves no direction lost", "infinite entries are judged only where a refusal is documented"],
        ),
        "C37" => (
            "A run keeps one polynomial of a drawn number of coefficients and width, or one in three variables, through up to twelve edits: fresh, rooted or moved even coefficients, sums, scalings, shifts, reversals, derivatives, dropped and broken coefficients, terms pushed past the room there is, powers past what a term holds; after each every query, product, division and construction is asked with drawn arguments, ranges, tolerances, step budgets and samples. Judged by: The coefficients' own arithmetic in double width with the sizes of the terms as the error allowed; real roots bracketed between turning points found the same way one degree down, counts judged only where no turning point is close to nothing and a chain of divisions in two-part numbers shows no highest power the size of rounding; interpolation and end conditions evaluated back; normal equations of fits; a term list of its own for several variables.",
            "all of polynomial except piecewise curves, which C31 covers",
            "nothing",
            &["double arithmetic on the machine follows IEEE 754, and the tolerances named by the world cover rounding alone", "roots are judged where powers of their size are held", "a tripled or doubled root is judged by what it leaves, not by how often rounding splits it", "derivatives of roots are not judged"],
        ),
        "C26" => (
            "Every other world is run again with numbers of its configuration and schedule replaced by the worst there are; a further world makes each one-shot call with such numbers, one nests model files thousands deep, one counts allocations. Judged by: No panic out of the library, no run past its bound, no allocation where none is promised (a counting allocator), no stack overflow on a small stack.",
            "the whole library",
            "as in the world run",
            &["a run is taken as endless after two minutes of one trace that usually takes microseconds"],
        ),
        _ => ("", "", "", &[]),
    }
}
