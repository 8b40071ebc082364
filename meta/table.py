"""The one table: every property, its anchors, and what decides it."""
E = "crates/multicalc/src/estimation/"
S = "crates/multicalc/src/signal_processing/"

CLAIMED = [
    dict(
        id="C01",
        title="A call an estimator rejects leaves no trace",
        statement="When a Kalman, extended, unscented, error-state, Mahony, Madgwick or particle filter answers a call "
                  "with an error (a reading, sample time, noise, score or caller's model that is not usable, at any of the "
                  "model evaluations inside the call), its estimate, covariance, biases, particles and weights are bit for bit what they "
                  "were before. Every later call then answers exactly as it would on an identical filter that never "
                  "received the rejected calls, random numbers already drawn aside. A call made only of usable finite "
                  "inputs is not rejected because of an earlier rejected one.",
        over=["fault_sequences", "histories", "inputs"],
        all="Every interleaving of sound calls with calls whose reading, time step, noise, score or model callback goes "
            "bad, the callback at any of its evaluations, for every filter and state size.",
        why="The tests feed one bad value to a fresh filter and read one getter; a leak shows only in a later estimate, after a "
            "particular evaluation inside a call has failed.",
        files=[E + f for f in ["kalman_filter.rs", "extended_kalman_filter.rs", "unscented_kalman_filter.rs",
                               "error_state_kalman_filter.rs", "mahony_filter.rs", "madgwick_filter.rs", "particle_filter.rs"]],
        state=[("estimate and covariance", "what later calls build on", E + "*_filter.rs"),
               ("sampled points", "the unscented predict's spread, reused by the next update", E + "unscented_kalman_filter.rs"),
               ("particles, weights, scratch", "the cloud and where the next one is built", E + "particle_filter.rs")],
        mech=[("validate, compute into locals, then commit", E + "extended_kalman_filter.rs: predict, update"),
              ("scratch cloud swapped in on success", E + "particle_filter.rs: predict")],
        observe=["estimate and covariance getters after every call", "a twin fed only the accepted calls"],
        tech="seeded schedules of lost, delayed, duplicated and corrupted readings and of callbacks failing at the n-th "
             "evaluation, against a twin that never receives the rejected calls",
    ),
    dict(
        id="C02",
        title="Linear, extended and unscented filters follow the textbook recursion",
        statement="After any accepted predict or update, the estimate and covariance of the linear, extended and unscented "
                  "Kalman filters are what the textbook equations give from the values just before the call (for the unscented "
                  "filter, an update following its predict), in either covariance update form, and "
                  "the reported innovation and its statistic are those of the reading given, however readings are lost, delayed, repeated or refused. "
                  "The covariance stays symmetric and positive semidefinite, and the ready-made models (constant turn and speed, direct measurement, wrapped-angle residual) are as documented.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every history of predicts, updates, residual updates and noise changes over a faulty link, for models drawn at "
            "random and state and reading sizes from one up.",
        why="The tests run a few fixed models on clean readings to a settled value; they do not compare each step over arbitrary "
            "histories with losses, repeats and changes of noise.",
        files=[E + f for f in ["kalman_filter.rs", "extended_kalman_filter.rs", "unscented_kalman_filter.rs", "models.rs"]],
        state=[("estimate", "state mean", E + "kalman_filter.rs"), ("covariance", "its uncertainty", E + "kalman_filter.rs")],
        mech=[("predict and update equations, Joseph form", E + "extended_kalman_filter.rs"),
              ("sigma points and their weights", E + "unscented_kalman_filter.rs")],
        observe=["state(), covariance() and the update's return value after every call"],
        tech="seeded fault schedules over the reading link, each accepted call compared with an independent textbook step",
        note="The unscented filter's repeated update without a predict is a known finding and kept in a world of its own.",
    ),
    dict(
        id="C03",
        title="The error-state filter follows its recursion under any sensor schedule",
        statement="The error-state filter's predict moves the pose, velocity and error covariance as its documented strapdown and "
                  "linearized error equations say for the inertial sample and time step given, and leaves the biases alone. Each update, with a reading model supplied by the caller, applies the Kalman correction of that "
                  "model injected into the nominal state, with the reset of the error it documents, and the covariance stays symmetric and positive "
                  "semidefinite whatever is lost, delayed, repeated or refused.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every interleaving of inertial samples with readings of caller-supplied models at uneven times, with samples "
            "lost, repeated, delayed, saturated or not finite.",
        why="The tests follow a few trajectories with clean readings to a tolerance on the final error; a wrong term in one "
            "reading's model or in the reset is absorbed by the others.",
        files=[E + "error_state_kalman_filter.rs"],
        state=[("nominal state", "pose, velocity, biases", E + "error_state_kalman_filter.rs"),
               ("error covariance", "uncertainty of the error state", E + "error_state_kalman_filter.rs")],
        mech=[("strapdown integration and error transition", E + "error_state_kalman_filter.rs: predict"),
              ("error injection and reset", E + "error_state_kalman_filter.rs: update")],
        observe=["every getter after every call"],
        tech="seeded schedules of inertial and aiding sensors with faults, each accepted call compared with an independent "
             "error-state step",
    ),
    dict(
        id="C04",
        title="Mahony and Madgwick follow their update laws and settle",
        statement="Each accepted update of the Mahony or Madgwick filter turns the attitude and moves the rate bias exactly as its published law says for the "
                  "gyroscope, accelerometer and (when given) magnetometer sample and time step, and the attitude stays a unit "
                  "rotation. A sample whose direction readings cannot be used (zero) is handled as rate-only or reported, never turned into a "
                  "broken attitude. Once faults stop and the sensors agree on one attitude, the tilt error settles below a small bound within "
                  "a bounded simulated time.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every sequence of samples with lost, repeated, saturated, zero and not-finite readings and uneven time steps, from any starting "
            "attitude and gains.",
        why="The tests check convergence from a few starts with clean samples; the law must hold per step under any mix of sample "
            "kinds and faults.",
        files=[E + "mahony_filter.rs", E + "madgwick_filter.rs", E + "attitude_correction.rs"],
        state=[("attitude", "the estimated rotation", E + "mahony_filter.rs"), ("bias", "integrated gyroscope bias", E + "mahony_filter.rs")],
        mech=[("correction from reference directions", E + "attitude_correction.rs"), ("integration and renormalization", E + "mahony_filter.rs")],
        observe=["attitude and bias after every call"],
        tech="seeded inertial sample schedules with faults, each step compared with the published law, plus bounded settling once faults stop",
    ),
    dict(
        id="C05",
        title="The particle filter's cloud follows its draws, scores and resampling scheme",
        statement="For every stream of random numbers, a predict moves each particle to the caller's model plus the noise factor times its own draws, and "
                  "an accepted update multiplies each weight by its likelihood and normalizes. It resamples exactly when the effective sample "
                  "size falls below the threshold, and then each slot holds a copy of the source its scheme's draw selects "
                  "(never one of zero weight), all weights equal, jittered only as the roughening setting says. Weights stay a "
                  "distribution, the cloud keeps its size and stays finite, and mean, likeliest state and effective sample size are those of the cloud.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every scripted random stream, extremes 0 and just under 1 included, every resampling scheme, threshold and "
            "cloud size, over readings lost, repeated, late or not finite and scores of any size.",
        why="The tests use one seeded generator and statistical tolerances; draws at the edge of the unit interval and "
            "clouds with dead particles do not come up in them.",
        files=[E + "particle_filter.rs"],
        state=[("particles and weights", "the cloud", E + "particle_filter.rs"), ("random source", "the only randomness", "crates/multicalc/src/random.rs")],
        mech=[("resampling walks", E + "particle_filter.rs: resample"), ("log-weight normalization", E + "particle_filter.rs: update")],
        observe=["particles(), weights(), mean(), effective_sample_size() after every call"],
        tech="the random source is scripted by the simulator (extreme draws injected) and every cloud is recomputed from the recorded draws",
    ),
    dict(
        id="C06",
        title="The localizer's belief follows its odometry, its beams and its draws",
        statement="The Monte Carlo localizer starts from its hint spread by its seeded draws; a predict moves each guess along its own heading by the "
                  "travel and turn given plus noise of the set size, and an accepted scan multiplies each guess's weight by the beam model's score of every beam against the "
                  "map (unbelievable and missing ranges counted as seeing nothing) and resamples exactly when half the cloud is spent. "
                  "The estimate is the weighted mean with a circular heading, its spread and convergence test are those of the cloud, and rejected odometry, scans or noise leave the belief alone. "
                  "The same seed and calls give the same belief bit for bit, also over a restart from a copy.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every interleaving of odometry and scans, with beams lost, stuck, saturated or not finite, odometry repeated or late, the robot kidnapped "
            "and the localizer restarted from a copy.",
        why="The tests check that one seeded run converges in a fixed room to a tolerance; they cannot see a wrong beam score or resample decision that a "
            "large cloud averages away.",
        files=[E + "monte_carlo_localizer.rs", E + "particle_filter.rs", "crates/multicalc/src/mapping/scan_geometry.rs"],
        state=[("cloud", "guesses and their weights", E + "particle_filter.rs")],
        mech=[("beam score", E + "monte_carlo_localizer.rs: beam_score"), ("motion of a guess", E + "monte_carlo_localizer.rs: LocalizationMotion")],
        observe=["particles(), estimate(), effective_sample_size(), is_converged() after every call"],
        tech="seeded schedules of odometry and scans with link faults and kidnapping, the belief recomputed call by call from the recorded draws",
    ),
    dict(
        id="C07",
        title="The random generator is the published one, alone and repeatable",
        statement="For every seed and stream, the generator's words are those of PCG-XSH-RR 64/32, a 64-bit word is two 32-bit words, high first, and its "
                  "unit draws (single or double precision) are the top bits, in [0, 1). Normal draws follow the polar method from those unit draws, the second of each pair kept for the next call. "
                  "The draws of one generator do not depend on any other, and a copy continues exactly as the original would.",
        over=["histories", "schedules", "inputs"],
        all="Every seed, stream and interleaving of the different kinds of draw over several generators, with copies and restarts at any point.",
        why="The tests compare the first few words of one seed and statistics of many draws.",
        files=["crates/multicalc/src/random.rs"],
        state=[("state, increment and spare normal", "what the next draw depends on", "crates/multicalc/src/random.rs")],
        mech=[("output permutation", "crates/multicalc/src/random.rs: Pcg32"), ("polar method", "crates/multicalc/src/random.rs: RandomSource")],
        observe=["every value drawn"],
        tech="seeded interleavings of draws over several generators with copies and restarts, against an independent generator",
    ),
    dict(
        id="C08",
        title="A stateful component answers only from its own history",
        statement="Every estimator, controller, filter, limiter, actuator, odometer, path and motion profile answers each call from its constructor's arguments and its own "
                  "earlier calls alone: interleaving other components, reading it, or restarting it from a copy changes no bit of any later answer. After a reset, "
                  "it answers exactly as a fresh one of the same settings that was reset at once.",
        over=["schedules", "histories", "crash_points"],
        all="Every interleaving of calls to several components of any kind on one machine, with reads, resets, copies, crashes and restarts anywhere.",
        why="The tests use one component at a time, hardly ever a copy, and reset only after sound samples.",
        files=[E + "*.rs", S + "*.rs", "crates/multicalc/src/control/pid.rs", "crates/multicalc/src/plant/rotor_lag.rs",
               "crates/multicalc/src/kinematics/odometry.rs", "crates/multicalc/src/motion/*.rs"],
        state=[("each component's fields", "all that may decide its answers", S + "biquad.rs")],
        mech=[("derived Clone", E + "particle_filter.rs"), ("reset", S + "window.rs: reset")],
        observe=["every answer of every call"],
        tech="seeded interleavings over several components with crashes and restarts, each history run again alone and compared bit for bit",
    ),
    dict(
        id="C09",
        title="The PID controller keeps its law, limits and anti-windup over any history",
        statement="Each PID update gives the proportional, integral and filtered derivative-on-measurement sum for the samples so far, clamped to the output limits, and the integral "
                  "is held exactly when the output is saturated and the error pushes it deeper. Changing gains does not jump the output, resuming from an output gives that output next, and a reset recovers "
                  "the controller from anything, samples that are not finite included. Settings that cannot be used are refused with their error and change nothing.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every history of samples, gain changes, resumptions and resets, over a link that loses, repeats and corrupts samples, for every gain, limit and filter setting.",
        why="The tests drive fixed step responses; a windup or bump shows only in a particular order of saturation, gain change and recovery.",
        files=["crates/multicalc/src/control/pid.rs", S + "one_pole.rs"],
        state=[("integral and derivative memory", "what the next output is built on", "crates/multicalc/src/control/pid.rs")],
        mech=[("conditional integration", "crates/multicalc/src/control/pid.rs: update"), ("bumpless transfer", "crates/multicalc/src/control/pid.rs: set_gains, resume_from")],
        observe=["update's output and integral() after every call"],
        tech="seeded sample schedules with link faults, saturation, retuning and restarts, each answer against an independent controller",
    ),
    dict(
        id="C10",
        title="Recursive filters compute their difference equations over any history",
        statement="One-pole, biquad, cascade and multichannel filters answer every sample with their difference equation over the samples since the last reset, keeping their memory over a change of coefficients; "
                  "settling to a level makes that level their steady answer, and a reset clears all memory. The low-pass, high-pass, band-pass, notch and harmonic notch designs have the published coefficients, "
                  "and the reported gain, phase, delay and stability are those of the transfer function. Unusable settings are refused with their error.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every history of samples, coefficient changes, settling and resets over a faulty link, for every design frequency, quality, rate, number of sections and channels.",
        why="The tests check settled gains of a few designs at a few frequencies; memory over retuning, and channels or sections that leak into each other, do not show there.",
        files=[S + f for f in ["one_pole.rs", "biquad.rs", "cascade.rs"]],
        state=[("section memory", "the recursion's past", S + "biquad.rs")],
        mech=[("difference equation", S + "biquad.rs: update"), ("designs", S + "biquad.rs"), ("chaining and channels", S + "cascade.rs")],
        observe=["every filtered sample and every reported response"],
        tech="seeded sample schedules with link faults, retuning and restarts, each answer against an independent recursion",
    ),
    dict(
        id="C11",
        title="Window filters answer from exactly the last samples",
        statement="The moving average, the running median and the Savitzky-Golay filter answer each sample with the mean, the median, or the least-squares polynomial's value, slope or bend over exactly the last window of samples, "
                  "the first sample after a start or reset filling the window. A sample that is not finite, or of any size, is gone once a window of later samples has come. Unusable windows, orders and sample times are refused with their error.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every history of samples and resets over a link that loses, repeats, delays, corrupts and bursts samples, for every window, order and alignment.",
        why="The tests feed short clean sequences; a running sum that drifts, or a broken sample that stays, needs a long history after the fault.",
        files=[S + "window.rs", S + "savitzky_golay.rs"],
        state=[("ring of samples", "the window", S + "window.rs")],
        mech=[("ring and its order", S + "window.rs"), ("least-squares weights", S + "savitzky_golay.rs")],
        observe=["every filtered sample"],
        tech="seeded sample schedules with link faults, each answer recomputed from the recorded last samples",
    ),
    dict(
        id="C12",
        title="Deadband, hysteresis and slew limiter keep their laws at every edge",
        statement="The deadband answers zero inside its band and its documented value outside, the hysteresis switch turns on and off exactly at its thresholds and holds otherwise (a sample that is not a number included), and the slew limiter passes "
                  "the first sample and then never moves faster than its rates, reaching a held target exactly. Each is back to a fresh start after a reset, and unusable settings are refused with their error.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every history of samples, thresholds hit exactly, over a faulty link, with resets anywhere, for every setting.",
        why="The tests cross each threshold once with values well to either side.",
        files=[S + "conditioning.rs"],
        state=[("switch position, last output", "what the next answer holds on to", S + "conditioning.rs")],
        mech=[("thresholds and rate clamp", S + "conditioning.rs")],
        observe=["every answer"],
        tech="seeded sample schedules biased to the thresholds, with link faults, each answer against an independent model",
    ),
    dict(
        id="C13",
        title="Rotors follow their lag exactly and the mixer gives the nearest wrench it can",
        statement="A lagging rotor set's thrusts follow the exact exponential towards the command over any sequence of steps, however long, with the matching rate of change, and a reset clears them. The mixer turns a wrench "
                  "into the layout's least-squares thrusts, each clamped to its rotor's range, says truthfully whether any was clamped, and gives back the wrench that thrusts produce. Dependent or unusable layouts and settings are refused with their error.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every sequence of commands and steps, stalled and late ones included, and every layout and wrench, within and beyond the rotors' range.",
        why="The tests step one quadrotor with a few commands; mixed spin, skewed layouts and saturation of some rotors only are not sampled.",
        files=["crates/multicalc/src/plant/rotor_lag.rs", "crates/multicalc/src/plant/multirotor_mixing.rs"],
        state=[("thrusts", "where the rotors are", "crates/multicalc/src/plant/rotor_lag.rs")],
        mech=[("exact discretization", "crates/multicalc/src/plant/rotor_lag.rs: step"), ("pseudo-inverse and clamp", "crates/multicalc/src/plant/multirotor_mixing.rs")],
        observe=["thrusts(), rates, mixed thrusts and the saturation flag"],
        tech="seeded command schedules with stalls and lost commands, each answer against an independent model",
    ),
    dict(
        id="C14",
        title="Odometry carries wheel travel to the pose along the exact arc",
        statement="Wheel travel and speeds convert to body motion along the arc and back without loss, and every accepted odometry step moves the pose along the exact constant-twist arc, at whatever uneven steps, its rotation staying a rotation and its reported heading "
                  "wrapped to one turn over any number of steps. The unicycle's rate and the pure-pursuit steering follow their published laws. A step or setting that is not usable is refused with its error and leaves the pose alone.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every sequence of wheel readings and twists, repeated, lost, late and not finite ones included, straight and turning, for every geometry.",
        why="The tests drive a few arcs and one loop; small turns near the straight-line branch and long histories are not sampled.",
        files=["crates/multicalc/src/kinematics/differential_drive.rs", "crates/multicalc/src/kinematics/odometry.rs",
               "crates/multicalc/src/kinematics/unicycle.rs", "crates/multicalc/src/control/pure_pursuit.rs"],
        state=[("pose", "integrated position and heading", "crates/multicalc/src/kinematics/odometry.rs")],
        mech=[("constant-twist integration", "crates/multicalc/src/kinematics/odometry.rs"), ("wheel geometry", "crates/multicalc/src/kinematics/differential_drive.rs")],
        observe=["the pose, step and conversions after every call"],
        tech="seeded encoder schedules with link faults and restarts, each pose against an independent arc",
    ),
    dict(
        id="C15",
        title="A path's points, lengths and queries follow its waypoints after any edits",
        statement="After any sequence of accepted and refused edits, a polyline path holds exactly the accepted waypoints, its length is the sum of its segments, and a refused edit (full, not finite) changes nothing. The closest point is the nearest "
                  "over all segments with its segment, arc length and distance, and the point ahead lies that arc length on, stopping at the end or going round as the mode says. Repeated waypoints add nothing and break nothing.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every sequence of pushes, rebuilds, mode changes and queries, repeated and not-finite waypoints and full paths included.",
        why="The tests build a few fixed shapes; zero-length segments, ties, the looping join and edits after a refusal are not sampled.",
        files=["crates/multicalc/src/motion/polyline_path.rs"],
        state=[("waypoints and lengths", "the path", "crates/multicalc/src/motion/polyline_path.rs")],
        mech=[("segment search", "crates/multicalc/src/motion/polyline_path.rs: closest_point"), ("walk along arc length", "crates/multicalc/src/motion/polyline_path.rs: lookahead")],
        observe=["every query after every edit"],
        tech="seeded histories of edits and queries with refused edits and restarts, each answer against an independent path",
    ),
    dict(
        id="C16",
        title="A motion profile is time-optimal, within limits and right at every clock reading",
        statement="A profile goes from rest at its start to rest at its target in the shortest time its speed, acceleration (and jerk) limits allow, never exceeding them, and its position, speed, acceleration and jerk are consistent with each other. Sampled at any clock reading "
                  "(before the start, at a phase boundary, after the end, jumping back) it gives the state of that instant, at rest on the target from its end on. Stretching scales its time exactly and never speeds it up, synchronized axes end together, and unusable limits are refused with their error.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every distance, limit and stretch, and every sequence of clock readings, jumps and stalls included.",
        why="The tests sample a few profiles on a grid of times; phase boundaries, degenerate phases and stretched ends are not hit exactly.",
        files=["crates/multicalc/src/motion/motion_profile.rs"],
        state=[("phases", "durations and jerks", "crates/multicalc/src/motion/motion_profile.rs")],
        mech=[("phase durations", "crates/multicalc/src/motion/motion_profile.rs: new"), ("stretch", "crates/multicalc/src/motion/motion_profile.rs: stretched_to")],
        observe=["state_at and duration at every clock reading"],
        tech="seeded clock schedules with jumps, stalls and boundary readings, each state against an independent profile",
    ),
    dict(
        id="C22",
        title="An occupancy map holds what was written and beams stop at the first wall",
        statement="After any sequence of writes, each cell holds what was last written to it, points outside or not finite change nothing and read as free, and outlines and circles mark only cells they touch, ends included and without gaps, a point on an edge belonging to the cell above it. "
                  "A beam reports the distance at which it enters the first occupied cell (zero when it starts in one, measured also when it starts outside the map) and nothing when there is none within range. Impossible sizes are refused with the right error, and all this is the same for a map the caller stores.",
        over=["histories", "fault_sequences", "inputs"],
        all="Every sequence of writes and beams, at cell edges and corners, from outside, at any bearing and range, with values that are not finite.",
        why="The tests cast a handful of beams in a fixed room from cell centres.",
        files=["crates/multicalc/src/mapping/occupancy_grid.rs"],
        state=[("cells", "what is occupied", "crates/multicalc/src/mapping/occupancy_grid.rs")],
        mech=[("cell walk", "crates/multicalc/src/mapping/occupancy_grid.rs: cast_ray"), ("rasterization", "crates/multicalc/src/mapping/occupancy_grid.rs: occupy_polyline")],
        observe=["every cell and every beam after every write"],
        tech="seeded histories of writes, beams and restarts with corrupted points, each answer against an independent map",
    ),
    dict(
        id="C17",
        title="Integrators advance only by steps they can vouch for, ending on time",
        statement="Every step the adaptive integrator accepts is the published Dormand-Prince step of the caller's rate, follows on from the one before, has an error estimate within the tolerances and is no longer than the largest allowed; the last ends exactly on the end time, forwards and backwards, "
                  "and values between or on a grid are those of the cubic through the steps' ends. Fixed-step runs visit exactly the classical Runge-Kutta values, and attitude steps keep a rotation that turns by the rate given. A rate that breaks at any evaluation, a span, grid or setting that is not usable is "
                  "reported with its error and never hidden in an answer, and a run taken up again from its last good step stays within tolerance of the true flow.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every problem, direction, tolerance, grid and budget, with the caller's rate going bad, stiff or discontinuous in any region of time or state, and runs resumed after failing.",
        why="The tests integrate a few smooth problems forward and compare the end value; one wrong accepted step or one hidden failure is inside that tolerance.",
        files=["crates/multicalc/src/ode/rk45.rs", "crates/multicalc/src/ode/rk4.rs", "crates/multicalc/src/ode/tableau.rs", "crates/multicalc/src/ode/exponential_map.rs"],
        state=[("accepted step", "where the next one starts", "crates/multicalc/src/ode/rk45.rs")],
        mech=[("error control and step choice", "crates/multicalc/src/ode/rk45.rs"), ("exponential map step", "crates/multicalc/src/ode/exponential_map.rs")],
        observe=["every accepted step through the observer, the grid answers, the errors"],
        tech="seeded legs of integration with a rate that fails, jumps or stiffens, resumed after faults, each accepted step against an independent one",
    ),
    dict(
        id="C18",
        title="Root finders answer a point they tried, within the bracket, and say why",
        statement="Whatever a root finder answers is a point it tried, with the caller's own residual there and a reason for stopping that is true of it. Bisection and Brent never look outside the bracket they still have, always keep a change of sign, and end within their guaranteed number of steps; Newton's method, plain, "
                  "damped and for systems, follows its published iteration. A bracket without a sign change, a flat or singular slope, a residual that is not finite and a spent budget are each reported as such, never as a root.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every function, bracket, start, tolerance and budget, with the caller's function breaking or jumping in any region, and retries from where the last try ended.",
        why="The tests solve a few smooth equations from good starts; a wrong reason, a lost bracket or a stale residual needs a function that breaks part way.",
        files=["crates/multicalc/src/root_finding/bisection.rs", "crates/multicalc/src/root_finding/brent.rs", "crates/multicalc/src/root_finding/newton.rs", "crates/multicalc/src/root_finding/newton_system.rs"],
        state=[("bracket or iterate", "where the search stands", "crates/multicalc/src/root_finding/")],
        mech=[("bracket update", "crates/multicalc/src/root_finding/brent.rs"), ("step and acceptance", "crates/multicalc/src/root_finding/newton.rs")],
        observe=["every evaluation asked of the caller, and the report"],
        tech="seeded searches over functions that break, jump or go flat in places, every evaluation recorded and judged with the report",
    ),
    dict(
        id="C19",
        title="Least-squares fits follow their published steps and never report a lie",
        statement="A fit's answer is a point it tried, with its true cost and a reason for stopping that holds there, and it goes on no further once one does; Levenberg-Marquardt never ends worse than it began, each of its steps is the damped step its trust region allows, and its radius follows the gain ratio. "
                  "Gauss-Newton's steps are the least-squares steps, shortened only when the full one does not pay. Residuals that break, too few residuals and a singular fit are reported as such, and a fit in other units gives the same answer.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every fit of a noisy model from any start, with residuals that break or jump in any region, degenerate data and any budget and tolerance.",
        why="The tests fit a few curves from good starts; acceptance, radius and the truth of the stopping reason show only step by step on bad ones.",
        files=["crates/multicalc/src/optimization/levenberg_marquardt.rs", "crates/multicalc/src/optimization/gauss_newton.rs", "crates/multicalc/src/optimization/trust_region.rs"],
        state=[("iterate, damping, radius", "where the fit stands", "crates/multicalc/src/optimization/levenberg_marquardt.rs")],
        mech=[("trust region", "crates/multicalc/src/optimization/levenberg_marquardt.rs"), ("line search", "crates/multicalc/src/optimization/gauss_newton.rs")],
        observe=["every residual evaluation asked of the caller, and the report"],
        tech="seeded fits over residuals that break or jump in places, every trial point recorded and judged against the step the published method allows",
    ),
    dict(
        id="C21",
        title="An inverse-kinematics servo commands only safe steps and tells the truth",
        statement="The configuration an inverse-kinematics solve answers is finite, within the joint limits when they are to be respected, leaves fixed joints alone, and carries its true residuals and a true reason for stopping; each iteration is the damped, capped and clamped least-squares step with the second wish in the null space. "
                  "A close pose the arm can freely reach is reached, and a target or reading that is not usable is refused. Several starts give exactly the distinct branches the single solves from the drawn seeds lead to, and the nearest is the nearest.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every arm (branching, sliding, floating, limited), target near, far, out of reach or broken, encoder fault, budget and random source, over a servo's history of requests.",
        why="The tests solve a few poses on fixed arms from good seeds; clipped, singular, floating or exhausted solves and what they then report are hardly sampled.",
        files=["crates/multicalc/src/kinematics/inverse_kinematics.rs", "crates/multicalc/src/kinematics/multi_start_inverse_kinematics.rs", "crates/multicalc/src/kinematics/kinematic_tree.rs"],
        state=[("configuration", "the last command, the next seed", "crates/multicalc/src/kinematics/inverse_kinematics.rs")],
        mech=[("damped step and null space", "crates/multicalc/src/kinematics/inverse_kinematics.rs: joint_step"), ("limits", "crates/multicalc/src/kinematics/inverse_kinematics.rs: hold_inside_limits"),
              ("branch identity", "crates/multicalc/src/kinematics/multi_start_inverse_kinematics.rs")],
        observe=["every report, and the same journey one iteration at a time"],
        tech="seeded servo histories with encoder faults, unreachable targets and stuck random sources, each step against an independent arm",
    ),
    dict(
        id="C27",
        title="Obstacle avoidance steers only into stretches it fits, whatever the scan",
        statement="Follow-the-gap steers into the best-scored open stretch of the scan that the chassis fits through, at a bearing inside it that keeps the documented margin from both edges, and stops exactly when none fits, at a speed that falls with the space ahead. "
                  "Beams that are lost, broken, not positive or beyond the reach count as open space and never as a number, an answer depends on nothing but its own scan and goal, and a mirrored scan gets the mirrored answer. The scan geometry's angles and indices agree with each other and settings that cannot be used are refused with their error.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every field of view, beam count, chassis width, gains and limits, goal bearing and scan, with beams lost, stuck, broken, stale or jittered between one call and the next.",
        why="The tests steer by a handful of tidy scans; gaps at the edge of the field, ties in score, gaps just too narrow and broken beams inside a gap are hardly sampled.",
        files=["crates/multicalc/src/control/follow_the_gap.rs", "crates/multicalc/src/mapping/scan_geometry.rs"],
        state=[("none", "each answer stands alone, which is part of the claim", "crates/multicalc/src/control/follow_the_gap.rs")],
        mech=[("gap choice", "crates/multicalc/src/control/follow_the_gap.rs: compute"), ("beam angles", "crates/multicalc/src/mapping/scan_geometry.rs")],
        observe=["every steering answer, beside an independent choice of gap"],
        tech="seeded drives past simulated obstacles with beams lost, broken and stale, each answer against an independent choice among all open stretches",
    ),
    dict(
        id="C23",
        title="A robot model file loads as exactly what it says, or is refused by name",
        statement="A model loaded from MJCF or URDF text or files has the joints, order, parents, placements, axes, limits, and mass properties the description gives, with defaults, classes, units, frames, shapes and includes resolved as the formats lay down, and says in its warnings what it left out. "
                  "Anything it cannot honour is refused with the documented error: malformed, truncated, missing, or looping files, and values that are unusable. Generated source rebuilds the same tree, and no input makes it panic.",
        over=["inputs", "fault_sequences"],
        all="Every robot description written in either format over one or several files, with defaults, classes, shapes and units drawn at random, on a disk that truncates, drops, corrupts, swaps and cycles files.",
        why="The tests load a few tidy arms; how defaults, classes, includes, frames and shapes combine, and what a damaged or unsupported file does, is hardly sampled.",
        files=["crates/multicalc-robot-model/src/lib.rs", "crates/multicalc-robot-model/src/mjcf", "crates/multicalc-robot-model/src/urdf",
               "crates/multicalc-robot-model/src/codegen.rs", "crates/multicalc-robot-model/src/xml.rs", "crates/multicalc-robot-model/src/error.rs"],
        state=[("files on disk", "what includes splice together", "crates/multicalc-robot-model/src/mjcf")],
        mech=[("default and class resolution", "crates/multicalc-robot-model/src/mjcf"), ("mass properties of shapes", "crates/multicalc-robot-model/src/mjcf"),
              ("tree build and refusal", "crates/multicalc-robot-model/src/lib.rs")],
        observe=["the loaded model's tree, names, masses, warnings or error, and the generated source"],
        tech="seeded robot descriptions written to a scratch disk that truncates, loses, corrupts and cycles files, against an independent reading of the description",
    ),
    dict(
        id="C24",
        title="A regulator's gain is the cheapest there is and its certificate is true",
        statement="The gain a linear quadratic regulator computes is the cheapest law for the system and costs it was given, in whatever unit the costs are counted, and its cost to go solves its equation and equals what following the law spends. "
                  "A stability certificate is given only to a loop that really settles, proves it by solving its own equation, and is not withheld from a loop that settles with costs that see every direction. Costs and systems that cannot be used are refused with their documented error, and a reading that is not finite leaves nothing behind.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every system of one to six states, stable or not, with costs in any unit or blind to some states, and every history of knocks, stalls, broken readings, held and tracked references.",
        why="The tests solve a few systems with costs near one; a loop that is settled too early shows only for small costs, slow systems or states the costs hardly see.",
        files=["crates/multicalc/src/control/lqr.rs", "crates/multicalc/src/linear_algebra/riccati.rs", "crates/multicalc/src/linear_algebra/lyapunov.rs"],
        state=[("gain and cost to go", "worked out once, used every tick", "crates/multicalc/src/control/lqr.rs")],
        mech=[("doubling passes and their settling test", "crates/multicalc/src/linear_algebra/riccati.rs"), ("certificate", "crates/multicalc/src/control/lqr.rs: certify_stability")],
        observe=["gain, cost to go and closed loop", "certify_stability", "control and control_tracking on a simulated plant"],
        tech="seeded closed loops with knocks, stalls and broken readings, the law against backward dynamic programming and the certificate against the loop's own powers",
    ),
    dict(
        id="C25",
        title="The drone's control laws give the right lean and torque and fly it home",
        statement="A thrust command points the body's up axis along the wanted push and its nose toward the heading, pushes exactly hard enough, and refuses free fall, a push along the heading and values that are not finite with their own errors. "
                  "The attitude controller's torque is the published tracking law on rotations, with an error along the turn and as long as its sine, the same however the world is laid out, and unusable gains or inertias are refused. A drone flown by them on a regulator's position loop, whatever gusts, knocks, stalls, lost readings and broken commands it met, comes to rest at its target and heading within bounded time once they stop.",
        over=["inputs", "fault_sequences", "histories", "schedules"],
        all="Every wanted acceleration, heading, attitude, rate and inertia, and every sequence of gusts, knocks, stalls, lost readings and broken commands over a flight of any small drone.",
        why="The tests try a few leans and one settling; corners near free fall, the nose, upside down, or a spin met after a stall are hardly sampled.",
        files=["crates/multicalc/src/control/thrust_command.rs", "crates/multicalc/src/control/geometric_attitude.rs", "crates/multicalc/src/control/lqr.rs"],
        state=[("flight state", "pose and rates carried by the simulated body", "crates/multicalc/src/dynamics/rigid_body.rs")],
        mech=[("axes from push and heading", "crates/multicalc/src/control/thrust_command.rs"), ("tracking law", "crates/multicalc/src/control/geometric_attitude.rs: torque")],
        observe=["every command and torque", "where the drone comes to rest"],
        tech="seeded flights of a real control stack, mixer, rotors and body on a virtual clock with gusts, stalls and lost readings, each command against an independent law, and bounded-time arrival",
    ),
    dict(
        id="C28",
        title="A free body moves as the balance of momentum says, whatever its frame",
        statement="One tick of a rigid body is the documented midpoint step of the Newton-Euler equations for its mass, balance point, inertia, gravity and applied push and twist, its orientation stays a rotation, and the same motion comes out whichever origin or axes the body's frame is given. "
                  "Left alone it keeps its energy and momentum to the step's order, and the state vector form agrees, survives quaternions that have drifted from unit length, and gives zeros for one that names no direction. Loads join as their masses and moments add, and bodies that cannot exist are refused by name.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every body (balance point off the origin, skewed inertia, any scale) and every history of pushes, late, empty and backward ticks, loads added, frames moved and broken pushes.",
        why="The tests step a few bodies balanced at the origin; terms in the offset, the coupling and the frame show only for skewed bodies in motion.",
        files=["crates/multicalc/src/dynamics/rigid_body.rs", "crates/multicalc/src/spatial/inertia.rs"],
        state=[("pose and velocity", "the flight so far", "crates/multicalc/src/dynamics/rigid_body.rs")],
        mech=[("accelerations and midpoint tick", "crates/multicalc/src/dynamics/rigid_body.rs: stepped"), ("moving and adding inertias", "crates/multicalc/src/spatial/inertia.rs")],
        observe=["the state after every tick", "state_derivative", "kinetic energy and momentum"],
        tech="seeded flights with late, empty, backward and broken ticks and loads joined in flight, against an independent six-by-six balance of momentum",
    ),
    dict(
        id="C29",
        title="An arm's frames and how they move follow from its joints, in any pose",
        statement="However a kinematic tree is put together, every frame is where the chain of its joints' origins, anchors, offsets and readings puts it, "
                  "and the Jacobian of any frame, in either frame of reference, is how that frame really moves, zero for joints that do not carry it. "
                  "A joint that cannot be placed is refused by name and leaves the tree as it was, a broken reading is refused rather than posed, and slots nothing reads are ignored; the singular value, the named lost direction, the weighted damped inverse, the null-space projector and the distance between poses are as documented.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every order of sound and unsound joints up to and past capacity, every branching, floating base, anchor, offset and weight, and every sequence of poses with broken, stuck and lost readings.",
        why="The tests pose a few named arms; a wrong term in a branch, an anchor, a turned base or a refused joint needs an arm and a history of its own.",
        files=["crates/multicalc/src/kinematics/kinematic_tree.rs", "crates/multicalc/src/kinematics/kinematic_tree_state.rs", "crates/multicalc/src/kinematics/kinematic_jacobian.rs", "crates/multicalc/src/kinematics/joint.rs"],
        state=[("joints and parents", "what has been put together so far", "crates/multicalc/src/kinematics/kinematic_tree.rs")],
        mech=[("validate, then place", "crates/multicalc/src/kinematics/kinematic_tree.rs: push"), ("one sweep of poses, then columns from them", "crates/multicalc/src/kinematics/kinematic_tree.rs: forward_kinematics, geometric_jacobian")],
        observe=["every frame after every pose", "the Jacobian in both frames and its inverses", "the tree after every refused joint"],
        tech="seeded histories of joints placed and refused and of poses with broken, stuck and lost readings, against independent chains and geometry",
    ),
    dict(
        id="C30",
        title="A collision check reports the true least clearance and the pair that has it",
        statement="Whatever shapes are attached, placed and excluded in whatever order, a check reports the least gap between the surfaces over exactly the pairs it was to look at, negative when they overlap, names a pair that has it, and says clear only when that gap is at least what was asked. "
                  "Two balls or capsules of any size, apart, crossing, parallel or nearly so, are as far apart as their geometry says and whichever is asked first. A shape or place that is not a number, a frame the robot lacks and a list that is full are refused by name, never reported as clear.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every history of shapes attached, placed, excluded and restored from snapshots, for any arm in any pose and shapes from micrometres to metres in both widths of number.",
        why="The tests measure a few shapes of ordinary size; a wrong pair, a lost exclusion or a wrong gap between short or nearly parallel capsules needs an arrangement of its own.",
        files=["crates/multicalc/src/kinematics/collision.rs"],
        state=[("shapes and exclusions", "what the check looks at", "crates/multicalc/src/kinematics/collision.rs")],
        mech=[("all pairs but the excluded", "crates/multicalc/src/kinematics/collision.rs: check"), ("closest points of two segments", "crates/multicalc/src/kinematics/collision.rs: closest_points_between_segments")],
        observe=["the report of every check", "is_clear", "distance_to both ways round"],
        tech="seeded histories of shapes, exclusions, snapshots, broken shapes and poses, against the least over every candidate pair of points",
    ),
    dict(
        id="C31",
        title="A planned path is the smoothest through its places and is flown as planned",
        statement="Whatever places, durations and end motions are asked for, in whatever units, the planned path goes through every place, starts and ends moving as asked and jumps in no derivative up to the sixth at a join, which is what least snap means, and one planned in flight takes over without a jump. "
                  "Read on any clock, late, stuck, backward or far off, the path, its derivatives, its slope as a curve and the area under it are those of its pieces, held at the ends, and areas between ticks add up. Unsound requests, paces and pieces are refused by name.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every plan of one to six segments with durations from microseconds to hours and spread thirtyfold, every replanning in flight, every unsound request, and every sequence of clock readings.",
        why="The tests plan a few paths with durations near one second; a path refused for its units, a jump at a takeover or a wrong piece at a join needs a request and a clock of its own.",
        files=["crates/multicalc/src/motion/minimum_snap.rs", "crates/multicalc/src/polynomial/piecewise.rs", "crates/multicalc/src/polynomial/construction.rs", "crates/multicalc/src/polynomial/polynomial.rs"],
        state=[("the path being flown", "what a takeover has to continue", "crates/multicalc/src/polynomial/piecewise.rs")],
        mech=[("free derivatives solved for, pieces from their ends", "crates/multicalc/src/motion/minimum_snap.rs: plan"), ("locating the piece of a moment", "crates/multicalc/src/polynomial/piecewise.rs: locate")],
        observe=["every piece of every plan", "place, derivatives and area at every tick", "refusals"],
        tech="seeded flights that plan and replan from unsound and sound requests and read the path on a failing clock, against the conditions least snap must meet and plain arithmetic on the pieces",
    ),
    dict(
        id="C32",
        title="Frames stay the motions they stand for through any bookkeeping",
        statement="However long a history of 2D and 3D rotations and poses being made from twists, axes, angles, directions or numbers, composed, inverted, blended, normalized, written out and read back, each is the motion the matrices give, within rounding that grows only with the history; logarithm and exponential undo one another up to a half turn with small turns keeping their digits, Jacobians are their true slopes, and a blend covers its part of the shortest way. "
                  "Power, energy and momentum do not depend on the frame they are told in, a drifted or negated quaternion is the same turn put right, and what is no motion, a zero, broken, mirrored, stretched or skewed one, is refused.",
        over=["histories", "inputs", "fault_sequences"],
        all="Every history of up to sixty operations on four 3D and four 2D frames, chains of hundreds of compositions, turns from 1e-16 to several laps, near half turns and poles, and every kind of broken rotation.",
        why="The tests check each identity at a few moderate angles; digits lost at small turns, noise near a half turn and drift over long chains need angles and histories of their own.",
        files=["crates/multicalc/src/spatial"],
        state=[("the frames held", "rounding that piles up over a history", "crates/multicalc/src/spatial/lie/se3.rs: SE3")],
        mech=[("series below the cutoffs", "crates/multicalc/src/spatial/lie/mod.rs"), ("plane Jacobians", "crates/multicalc/src/spatial/lie/se2.rs: left_jacobian"), ("turn between directions", "crates/multicalc/src/spatial/quaternion.rs: from_two_vectors"), ("refusals", "crates/multicalc/src/spatial/lie/so3.rs: try_from_matrix")],
        observe=["every frame after every operation", "logarithms, blends and Jacobians", "twists, pushes and inertias carried between frames", "refusals"],
        tech="seeded histories of frame operations with drifted, negated, mirrored and broken rotations put in, beside plain matrices whose rounding is accounted for step by step",
    ),
    dict(
        id="C33",
        title="A sampled model lands where the continuous system does",
        statement="For any linear system, input and forcing, the sampled model taken over any tick, long, short, repeated or split into parts, lands where the continuous system does: a held input moves it as far, and unsteady forcing adds up to the same covariance, which is symmetric and never negative. "
                  "Ticks taken in parts compose to the whole and one of no length changes nothing; a step that is negative or no number and a model with an entry that is none are refused, and the discrete noise of a chain of integrators is one push's.",
        over=["inputs", "histories", "fault_sequences"],
        all="Every system of one to four states, stiff, swinging, drifting or a bare chain, over histories of ticks from none to many times its own time, split, repeated and broken at any point.",
        why="The tests sample two or three systems at one tick each; a wrong term in the exponential, a lost scaling step or noise that does not compose needs systems and ticks of its own.",
        files=["crates/multicalc/src/discretization/mod.rs", "crates/multicalc/src/linear_algebra/expm.rs"],
        state=[("the loop's own state and covariance", "what the ticks have added up to", "crates/multicalc/src/discretization/mod.rs")],
        mech=[("block exponentials", "crates/multicalc/src/discretization/mod.rs: van_loan"), ("scaling and squaring", "crates/multicalc/src/linear_algebra/expm.rs: expm")],
        observe=["the transition, input and noise matrices of every tick", "the state and covariance the loop carries", "refusals"],
        tech="seeded loops over systems read at long, split, repeated and broken ticks, beside the system's own power series doubled up to the tick",
    ),
    dict(
        id="C34",
        title="An integral is its rule's sum of what the caller's function answered",
        statement="Whatever a caller's function answers, an iterative or Gaussian integral reads it at its rule's places and only between its limits, each combination of places once with the other variables held still, and returns the rule's weighted sum of those answers to rounding, whether nested, over several variables, or without end; a reading that is no number is refused, never summed. "
                  "Gaussian rules are exact to twice their order, a curve's line integral and the flux across it are sums along that curve from limit to limit, and unsound limits, orders, counts and indices are refused by name before anything is read.",
        over=["inputs", "histories", "fault_sequences"],
        all="Every rule, order, count, nesting and choice of variables in both widths, over functions that answer anything at all, steadily or not, and break at any reading.",
        why="The tests integrate a dozen smooth functions at a few counts; a swapped weight, a moved variable, a place beyond the limits or a swallowed bad reading shows only for answers with no pattern at the right order, count and width.",
        files=["crates/multicalc/src/numerical_integration/iterative_integration.rs", "crates/multicalc/src/numerical_integration/gaussian_integration.rs", "crates/multicalc/src/numerical_integration/integrator.rs", "crates/multicalc/src/gaussian_tables", "crates/multicalc/src/utils/summation.rs", "crates/multicalc/src/vector_field/line_integral.rs", "crates/multicalc/src/vector_field/flux_integral.rs"],
        state=[("the running sum", "what has been added and what rounding took", "crates/multicalc/src/utils/summation.rs"), ("the sampled place", "where between the limits the walk is", "crates/multicalc/src/numerical_integration/iterative_integration.rs: next_point")],
        mech=[("composite rules", "crates/multicalc/src/numerical_integration/iterative_integration.rs: integrate_rule"), ("Gaussian tables", "crates/multicalc/src/gaussian_tables/mod.rs: nodes"), ("curve walk", "crates/multicalc/src/vector_field/line_integral.rs: get_partial")],
        observe=["every place the caller's function is read at and its answer", "the integral", "refusals"],
        tech="seeded functions without pattern that break at a seeded reading, every reading recorded, beside rules built from their own recurrences",
    ),
    dict(
        id="C35",
        title="A derivative is the function's own, to every order it is asked for",
        statement="For every function written over the scalar interface, each scalar that carries derivatives (dual, hyper-dual, jet of any length, and one nested in another) gives the function's value and its true derivatives along whatever direction or curve it was seeded with, at smooth places to rounding and at kinks as documented; "
                  "automatic derivatives, Jacobians, Hessians, curls, divergences and linear and quadratic approximations with their fit metrics are made of those; a finite difference is the quotient its mode, step and multiplier name, read only on the side its mode allows; "
                  "orders, steps, variables and function sets that cannot be are refused by name, and a function that answers no number never yields a wrong finite derivative.",
        over=["inputs", "fault_sequences"],
        all="Every composition of the scalar operations at every point away from its kinks, the kinks themselves, every order and choice of variables in both widths, every mode and step, and a function that breaks at any reading.",
        why="The tests differentiate a few dozen short formulas at one point each; a wrong term in one operation's second or sixth derivative, a swapped mixed partial or a value that changes with the scalar it is carried in shows only in compositions, orders and places nobody wrote down.",
        files=["crates/multicalc/src/scalar/numeric.rs", "crates/multicalc/src/scalar/dual.rs", "crates/multicalc/src/scalar/hyper_dual.rs", "crates/multicalc/src/scalar/jet.rs", "crates/multicalc/src/numerical_derivative/autodiff.rs", "crates/multicalc/src/numerical_derivative/finite_difference.rs", "crates/multicalc/src/numerical_derivative/jacobian.rs", "crates/multicalc/src/numerical_derivative/hessian.rs", "crates/multicalc/src/approximation/mod.rs", "crates/multicalc/src/vector_field/curl.rs", "crates/multicalc/src/vector_field/divergence.rs"],
        state=[("the derivative payload", "what a scalar carries beside its value", "crates/multicalc/src/scalar/hyper_dual.rs: chain"), ("the difference's places", "how far each level of a difference has moved", "crates/multicalc/src/numerical_derivative/finite_difference.rs: diff")],
        mech=[("seeding of directions", "crates/multicalc/src/numerical_derivative/autodiff.rs: differentiate"), ("series recurrences", "crates/multicalc/src/scalar/jet.rs"), ("fit metrics", "crates/multicalc/src/approximation/mod.rs: compute_metrics")],
        observe=["values and derivatives at every order", "which side of the point the caller's function is read on", "fits, predictions and metrics", "refusals"],
        tech="seeded programs over the scalar interface, broken at a seeded reading, run at every scalar beside their own truncated power series with running error bounds",
    ),
    dict(
        id="C36",
        title="A matrix's factors, inverse and directions make up that matrix, or it is refused",
        statement="Whatever has been done to a matrix, each factorization it grants (row-pivoted triangular, symmetric positive definite, column-pivoted orthogonal, singular value, symmetric eigenvalue) has the shape it promises and multiplies back to the matrix to rounding, orthogonal factors are orthogonal, values come in order and a direction's largest entry is positive, in both widths and at any size a number can square; "
                  "determinants, solutions, inverses, closest and damped fits, pseudo-inverses, ranks and condition numbers are the matrix's own; a matrix is refused exactly when a direction is lost, it is lopsided, not positive definite, too wide or not finite, by that name; an entry that is no number never gives a finite answer; and sums, products, rows, norms and unit vectors are as defined.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every shape up to six by six in both widths through any history of entries set, rank-one updates, scalings, gradings, lost, blanked or broken directions and repairs, with every right-hand side and damping.",
        why="The tests factor a few dozen well-sized matrices; a wrong pivot choice, a scale that overflows, a threshold on the wrong side or a column left behind shows only in shapes, sizes and near-lost directions nobody wrote down.",
        files=["crates/multicalc/src/linear_algebra/lu.rs", "crates/multicalc/src/linear_algebra/cholesky.rs", "crates/multicalc/src/linear_algebra/qr.rs", "crates/multicalc/src/linear_algebra/svd.rs", "crates/multicalc/src/linear_algebra/symmetric_eigendecomposition.rs", "crates/multicalc/src/linear_algebra/matrix.rs", "crates/multicalc/src/linear_algebra/vector.rs"],
        state=[("the matrix being kept", "its entries after every edit and fault so far", "crates/multicalc/src/linear_algebra/matrix.rs"), ("running column norms", "what is left of each column while it is reduced", "crates/multicalc/src/linear_algebra/qr.rs: decompose")],
        mech=[("pivoting and its refusals", "crates/multicalc/src/linear_algebra/lu.rs: factor_lu"), ("Jacobi sweeps", "crates/multicalc/src/linear_algebra/svd.rs: svd"), ("damping by rotations", "crates/multicalc/src/linear_algebra/qr.rs: solve_with_diagonal"), ("closed forms", "crates/multicalc/src/linear_algebra/matrix.rs: inverse")],
        observe=["factors, permutations and orders", "solutions, inverses, determinants, ranks", "refusals by name"],
        tech="seeded histories of one matrix under edits and faults, every factorization and query asked after each and held to backward-error bounds against the entries themselves",
    ),
    dict(
        id="C37",
        title="A polynomial's values, quotients and roots are its own, or it is refused",
        statement="Whatever has been done to a polynomial, its values, every derivative at a point or as a polynomial, areas, degree and leading coefficient are those of its coefficients to rounding, in both widths; sums, scalings, products, compositions, moved and stretched arguments and long division are as defined, the quotient times the divisor plus the remainder being the dividend, and a term that does not fit is refused and never dropped; "
                  "the closed forms up to the fourth power list every real root, in order, repeats included, and nothing else; no root lies past the bound; where the signs are more than rounding's to say, counts and searches find exactly the distinct roots in a range, within the tolerance or the steps allowed; curves through points, closest fits, roots, series and end conditions meet what they were made from; in several variables terms, sums, products, partial derivatives, antiderivatives, substitutions, degrees and equality are those of the terms; a misfit is refused by name.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every polynomial of up to eight coefficients in both widths, and of up to eight terms in three variables, through any history of edits, shifts, divisions, broken coefficients and refusals, at every argument and range within a number's reach.",
        why="The tests ask for a few dozen roots of round coefficients; a quartic as good as even, a coefficient that cancels to a speck, a term one past the room there is or a boundary of a range shows only in combinations nobody wrote down.",
        files=["crates/multicalc/src/polynomial/polynomial.rs", "crates/multicalc/src/polynomial/roots.rs", "crates/multicalc/src/polynomial/construction.rs", "crates/multicalc/src/polynomial/multivariate.rs"],
        state=[("the polynomial being kept", "its coefficients or terms after every edit and fault so far", "crates/multicalc/src/polynomial/polynomial.rs"), ("ranges still to look at", "the pieces a root search has yet to split", "crates/multicalc/src/polynomial/roots.rs: real_roots_in")],
        mech=[("closed forms", "crates/multicalc/src/polynomial/roots.rs: real_roots"), ("counting by signs", "crates/multicalc/src/polynomial/roots.rs: root_counting_chain"), ("differences of points", "crates/multicalc/src/polynomial/construction.rs: from_points"), ("merging terms", "crates/multicalc/src/polynomial/multivariate.rs: collect_like_terms")],
        observe=["values, derivatives, areas", "roots, counts and step counts", "coefficients of results", "refusals by name"],
        tech="seeded histories of one polynomial under edits and faults, every query asked after each and held to its coefficients' own arithmetic and to roots bracketed between turning points",
    ),
    dict(
        id="C26",
        title="No call panics, runs on or asks for memory, whatever it is fed",
        statement="Every public call of the library answers or refuses with its error, within its bounded work, for any numbers it is handed: not a number, infinite, the largest and smallest there are, zero, negative, repeated or far out of range, in its settings, in the middle of a history, or in a model file, however deep that file nests. "
                  "The fixed-size types never ask for memory, and the heap-backed filters and maps ask only when they are built.",
        over=["inputs", "fault_sequences", "histories"],
        all="Every public component and every one-shot call, with any share of its numbers replaced by the worst there are at any point of its history.",
        why="The tests feed a few broken numbers to a few constructors; a panic, an endless loop or a hidden allocation sits behind one combination of settings, state and input.",
        files=["crates/multicalc/src", "crates/multicalc-robot-model/src"],
        state=[("whatever each component carries between calls", "broken numbers that got in earlier", "crates/multicalc/src")],
        mech=[("no-panic, bounded and heap-free rules", "README.md"), ("matrix exponential scaling", "crates/multicalc/src/linear_algebra/expm.rs: expm"), ("root counting chain", "crates/multicalc/src/polynomial/roots.rs: root_counting_chain"), ("reading nested files", "crates/multicalc-robot-model/src/mjcf/body.rs"), ("drawing and casting", "crates/multicalc/src/mapping/occupancy_grid.rs"), ("scratch buffers", "crates/multicalc/src/estimation/particle_filter.rs: from_random")],
        observe=["whether a call returns", "how long it runs", "allocations counted by the global allocator", "bodies read from a nested file"],
        tech="seeded histories of every component and one-shot calls with the worst numbers put in, panics caught, endless runs cut off, allocations counted and stack kept small",
    ),
]

NOT_APPLICABLE = []
for _id, _title, _stmt, _files, _why in []:
    pass
