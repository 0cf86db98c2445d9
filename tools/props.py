#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "crates/multicalc/src/"
R = "crates/multicalc-robot-model/src/"

prop("C01", "Autodiff scalars carry exact values and derivatives",
 "Evaluating any formula built from the supported arithmetic and elementary functions on an autodiff number yields the same value as the plain float and the mathematically exact first (Dual), first/second/mixed (HyperDual) or all truncated Taylor-order (Jet) derivatives, up to rounding. This holds for nested autodiff scalars, in f32 and f64, with piecewise functions (abs, min, max, clamp, copysign, floor, ...) following the branch the value selects.",
 ["inputs", "programs"], "every expression over the numeric operations, every point inside its domain, every seed direction, every supported order",
 "The suite differentiates a fixed list of formulas at fixed points; it never composes random expression programs across all operations, nested scalars and orders.",
 [S+"scalar/dual.rs", S+"scalar/hyper_dual.rs", S+"scalar/jet.rs", S+"scalar/numeric.rs"],
 [("chain/product rule per operation", S+"scalar/dual.rs"), ("second-order chain rule", S+"scalar/hyper_dual.rs chain"), ("Taylor recurrences", S+"scalar/jet.rs")])

prop("C02", "Derivative operators return the right partial in the right slot",
 "Derivatives, partials of any supported order and index list, Jacobians and Hessians equal the true derivatives of the supplied function at the point (exactly by autodiff, to the stencil's truncation error by finite differences), with rows indexing outputs, columns indexing inputs and the Hessian symmetric. Taylor models built from them match the function's value, slope and (quadratic) curvature at the expansion point and report goodness-of-fit metrics consistent with their own predictions. Unsupported orders, out-of-range indices and unusable step sizes are reported as typed errors.",
 ["inputs", "programs", "configurations"], "every differentiable function, dimension, index list, point, stencil and step",
 "Tests use a few hand-differentiated functions with fixed index lists; they cannot cover all index orders, rectangular shapes, stencils or scalar types.",
 [S+"numerical_derivative/", S+"approximation/"],
 [("seeding of directions", S+"numerical_derivative/autodiff.rs"), ("stencil recursion", S+"numerical_derivative/finite_difference.rs"), ("Taylor model assembly", S+"approximation/")])

prop("C03", "Integration rules are exact on their polynomial class and converge",
 "Every quadrature rule reproduces the exact integral, up to rounding, of every polynomial its order promises, over every valid interval, number of repeated integrations and choice of integrated variable, and the composite rules converge at their order for smooth integrands including (semi-)infinite domains. Integrals are linear in the integrand and additive over adjoining intervals; reversed, degenerate or NaN limits, zero iterations, unsupported orders and non-finite samples give a typed error instead of a number.",
 ["inputs", "configurations"], "every rule, order 1..30, interval, nesting depth, variable list and polynomial integrand",
 "Tests integrate a handful of formulas on fixed intervals; a wrong weight at one order, a wrong nesting level or a swapped variable slot escapes them.",
 [S+"numerical_integration/", S+"gaussian_tables/", S+"utils/summation.rs"],
 [("composite weights", S+"numerical_integration/iterative_integration.rs"), ("node tables and affine map", S+"numerical_integration/gaussian_integration.rs"), ("pairwise/Kahan accumulation", S+"utils/summation.rs")])

prop("C04", "Matrix factorisations reconstruct and solve, or name the defect",
 "LU, Cholesky, column-pivoted QR, SVD and the symmetric eigendecomposition each return factors of the promised shape (triangular, orthonormal, ordered, permuted) whose product reconstructs the input, and every solve, inverse, determinant, least-squares and pseudo-inverse derived from them satisfies its defining equation to rounding for well-conditioned input. Singular, indefinite, asymmetric or underdetermined input is answered with the matching typed error where the operation documents one, never a panic or a silently wrong result.",
 ["inputs"], "every matrix size and shape, scaling, rank and conditioning, f32 and f64",
 "Tests factor small fixed matrices and sampled 3x3/4x4 ones; rank-deficient, badly scaled, tall and f32 inputs across all sizes are not covered.",
 [S+"linear_algebra/lu.rs", S+"linear_algebra/cholesky.rs", S+"linear_algebra/qr.rs", S+"linear_algebra/svd.rs", S+"linear_algebra/symmetric_eigendecomposition.rs"],
 [("pivoted elimination", S+"linear_algebra/lu.rs"), ("Householder QR", S+"linear_algebra/qr.rs"), ("Jacobi sweeps", S+"linear_algebra/svd.rs")])

prop("C05", "Matrix and vector algebra agrees with elementwise definitions",
 "Construction, indexing, arithmetic, products, transposes, blocks, norms, cross/dot/outer products and views of vectors and matrices equal their textbook elementwise definitions for every dimension, including rectangular and single-row/column shapes, and obey the usual algebraic laws up to rounding. Norms do not overflow or underflow when the true result is representable where the library promises scaling.",
 ["inputs"], "every shape and every finite content",
 "Tests check literal 2x2/3x3 examples.",
 [S+"linear_algebra/matrix.rs", S+"linear_algebra/vector.rs", S+"linear_algebra/macros.rs"],
 [("elementwise operators", S+"linear_algebra/matrix.rs"), ("vector operators", S+"linear_algebra/vector.rs")])

prop("C06", "Matrix exponential, discretisation and matrix equations hold",
 "The matrix exponential satisfies its group law and differential equation, zero-order hold and Van Loan discretisation reproduce the exact sampled dynamics and process noise of the continuous system, and the discrete Riccati and Lyapunov solvers return symmetric solutions satisfying their equations (stabilising / positive semidefinite) for any stable or stabilisable system whose weights are of ordinary scale. Discretising twice with a half step equals discretising once with the full step; invalid timesteps and non-convergence are typed errors.",
 ["inputs"], "every system matrix size, norm, stiffness, timestep",
 "Fixtures cover a few systems; scaling/squaring branches and near-marginal systems are sampled at isolated points.",
 [S+"linear_algebra/expm.rs", S+"linear_algebra/riccati.rs", S+"linear_algebra/lyapunov.rs", S+"discretization/mod.rs"],
 [("Pade scaling-and-squaring", S+"linear_algebra/expm.rs"), ("doubling iterations", S+"linear_algebra/riccati.rs")])

prop("C07", "Root finders return a genuine root within tolerance and budget",
 "Whenever bisection, Brent, Newton or the Newton system solver reports convergence, the reported point lies in the bracket (for bracketed methods) and satisfies the tolerance the caller configured with the reported residual being the true residual there; otherwise a typed error or an explicit unconverged outcome is returned. Function evaluations never exceed what the configured iteration budget allows, and invalid brackets or non-finite values are reported as such.",
 ["inputs", "configurations"], "every continuous function, bracket orientation, start point, tolerance and budget",
 "Tests use a handful of textbook functions and default settings.",
 [S+"root_finding/"],
 [("bracket maintenance", S+"root_finding/brent.rs"), ("damped line search", S+"root_finding/newton_system.rs")])

prop("C08", "Least-squares solvers only improve and report truthfully",
 "From any start, Levenberg-Marquardt and backtracking Gauss-Newton never return a point with a larger residual norm than the start, and every least-squares solver reports the true objective at the returned point and stops for a reason that is actually satisfied. On linear problems they return the least-squares solution and on well-posed zero-residual problems near the minimiser they reach it; iteration and evaluation budgets are honoured and failures are typed errors.",
 ["inputs", "configurations"], "every residual function, size, start, tolerance and budget",
 "The fixed registry of test problems reaches a few trajectories of the trust-region logic only.",
 [S+"optimization/"],
 [("trust-region update", S+"optimization/levenberg_marquardt.rs"), ("lmpar", S+"optimization/trust_region.rs")])

prop("C09", "ODE integrators follow the true flow to their promised order",
 "Fixed-step integration reproduces the exact flow up to an error shrinking with its order in the step, adaptive integration meets the requested tolerance at the end point and at every dense-output sample, both land exactly on the requested final time in either direction they accept, and the orientation integrator always returns a unit rotation equal to the exact flow for steady rates. Step budgets, minimum steps and non-finite states are reported as typed errors.",
 ["inputs", "configurations"], "every smooth system, interval, step, tolerance and output grid",
 "Tests integrate a few scalar problems over fixed intervals.",
 [S+"ode/"],
 [("PI step controller and dense output", S+"ode/rk45.rs"), ("classical RK4", S+"ode/rk4.rs"), ("rotation exponential step", S+"ode/exponential_map.rs")])

prop("C10", "Polynomial algebra and fitting match exact arithmetic",
 "Evaluation with any number of derivatives, addition, multiplication, composition, division with remainder, differentiation, integration, interpolation and least-squares fitting of single- and multi-variable polynomials equal exact polynomial arithmetic up to rounding, and report a typed error when a result does not fit or the input is unusable. Piecewise polynomials evaluate the piece that owns the parameter, with local parameters, derivatives, integrals and end behaviour consistent with their pieces.",
 ["inputs"], "every degree, capacity, coefficient set, evaluation point and span layout",
 "Tests use low-degree literals.",
 [S+"polynomial/polynomial.rs", S+"polynomial/construction.rs", S+"polynomial/multivariate.rs", S+"polynomial/piecewise.rs"],
 [("Horner with derivatives", S+"polynomial/polynomial.rs"), ("piece lookup", S+"polynomial/piecewise.rs"), ("term algebra", S+"polynomial/multivariate.rs")])

prop("C11", "Real-root finding reports exactly the real roots",
 "For every polynomial with separated roots the closed-form solvers report every real root, in order, accurate to its conditioning and carrying its derivatives with respect to the coefficients, and nothing that is not a root or not finite; the isolating solver and the root counter report each simple root in the half-open range exactly once within the tolerance and step budget. Malformed ranges, tolerances and leading coefficients are typed errors.",
 ["inputs"], "every polynomial with up to its capacity of real or complex roots, of any scaling and multiplicity",
 "Tests use polynomials with a few hand-picked roots.",
 [S+"polynomial/roots.rs"],
 [("closed forms", S+"polynomial/roots.rs"), ("Sturm isolation", S+"polynomial/roots.rs")])

prop("C12", "Rotations and rigid motions obey the Lie-group laws",
 "Quaternions and SO(2)/SE(2)/SO(3)/SE(3) elements compose associatively, invert, act on points consistently with their matrices and stay normalised; exponential and logarithm are mutual inverses on the principal domain (including near zero and near half turns), and left/right Jacobians, adjoints and interpolation satisfy their defining identities. Conversions between quaternion, matrix, axis-angle and Euler forms round-trip.",
 ["inputs"], "every rotation, translation, tangent vector incl. tiny and near-pi angles, f32/f64",
 "Fixed samples miss small-angle and half-turn branch boundaries and the f32 thresholds.",
 [S+"spatial/quaternion.rs", S+"spatial/lie/"],
 [("series/closed-form branches", S+"spatial/lie/so3.rs"), ("largest-component quaternion extraction", S+"spatial/quaternion.rs")])

prop("C13", "Spatial velocity, force and inertia algebra is consistent",
 "Twists, wrenches and spatial inertia transform between frames so that power, kinetic energy and momentum are frame-invariant, motion and force cross products are dual, combining bodies adds their inertias about the common centre of mass, and single-body dynamics satisfies the Newton-Euler equations and conserves energy and momentum when unforced. Unphysical mass properties are rejected with a typed error.",
 ["inputs"], "every pose, twist, wrench, mass distribution and applied force",
 "Tests use single poses and single bodies.",
 [S+"spatial/twist.rs", S+"spatial/wrench.rs", S+"spatial/inertia.rs", S+"spatial/free_joint.rs", S+"dynamics/rigid_body.rs"],
 [("adjoint transport", S+"spatial/twist.rs"), ("parallel-axis composition", S+"spatial/inertia.rs"), ("bias wrench", S+"dynamics/rigid_body.rs")])

prop("C14", "Rotor mixing and lag respect physics and limits",
 "A mixer's allocation is the physical one for its rotor positions, spins and torque ratio; a demand whose minimum-norm share lies within the thrust limits is delivered exactly and reported unsaturated, every other share is held at the limit it crosses and reported saturated, and no rotor ever leaves its limits. Rotor lag moves every rotor along the exact first-order response without overshoot, ticks compose, and it settles on the command; unusable layouts, limits or constants are rejected with the documented error.",
 ["inputs", "histories"], "every layout, limit pair, demand and command sequence",
 "Tests use one symmetric quad layout and a few demands.",
 [S+"plant/multirotor_mixing.rs", S+"plant/rotor_lag.rs"],
 [("rotor clamp and saturation flag", S+"plant/multirotor_mixing.rs"), ("exact discretised lag", S+"plant/rotor_lag.rs")])

prop("C15", "Forward kinematics and its Jacobians match composed joint motion",
 "For every tree of fixed, revolute, continuous, prismatic and floating joints, the solved frames equal the composition of joint transforms along each chain, configuration updates and differences are mutually inverse and respect limits and mimic-free indexing, and the kinematic Jacobian in either frame equals the true derivative of the tool pose, so joint rates map to the tool twist. Malformed trees, configurations and tool indices give typed errors.",
 ["inputs", "configurations"], "every tree topology, joint kind, axis, placement and configuration",
 "Tests use a few arms; arbitrary branching topologies with mixed joints and floating roots are not explored.",
 [S+"kinematics/joint.rs", S+"kinematics/kinematic_tree.rs", S+"kinematics/kinematic_tree_state.rs", S+"kinematics/kinematic_jacobian.rs"],
 [("parent-before-child sweep", S+"kinematics/kinematic_tree.rs"), ("column assembly", S+"kinematics/kinematic_jacobian.rs")])

prop("C16", "Inverse kinematics reports true errors and respects limits",
 "Whatever the target, inverse kinematics returns a configuration inside every joint limit whose reported position and orientation errors are the true errors of the returned configuration, and it reports success only when those meet the requested tolerance; well-conditioned reachable targets near the start are reached. Secondary objectives, weights and multiple starts never break these guarantees and iteration budgets hold.",
 ["inputs", "configurations"], "every tree, target, start, limit set, weight set and secondary objective",
 "Tests solve for a handful of reachable targets.",
 [S+"kinematics/inverse_kinematics.rs", S+"kinematics/multi_start_inverse_kinematics.rs"],
 [("damped least squares with clamping", S+"kinematics/inverse_kinematics.rs"), ("best-of-starts", S+"kinematics/multi_start_inverse_kinematics.rs")])

prop("C17", "Collision distances are the true primitive distances",
 "Every reported distance between spheres and capsules on robot frames and in the world equals the true surface separation (negative on overlap) of the placed shapes, and the reported clearance and pair are those of the closest pair that is not excluded. Results do not depend on the order of primitives, shapes with non-finite poses or sizes are refused, and capacities are enforced with typed errors.",
 ["inputs", "configurations"], "every primitive set, pose and exclusion set",
 "Tests use a few axis-aligned placements.",
 [S+"kinematics/collision.rs"],
 [("segment-segment distance", S+"kinematics/collision.rs")])

prop("C18", "Wheeled kinematics and odometry invert and integrate exactly",
 "Wheel-to-body and body-to-wheel maps are mutual inverses, odometry from constant wheel motion follows the exact circular arc, splitting a motion into pieces composes to the same pose, and straight-line and tiny-turn cases join smoothly. Unusable vehicle geometry is refused with a typed error when the model is built.",
 ["inputs", "histories"], "every wheel geometry and motion sequence",
 "Tests use a few arcs.",
 [S+"kinematics/differential_drive.rs", S+"kinematics/odometry.rs", S+"kinematics/unicycle.rs"],
 [("exact arc increment", S+"kinematics/differential_drive.rs")])

prop("C19", "Kalman-type filters equal exact Bayesian updates",
 "For linear models every filter variant (linear, extended, unscented) and covariance form reproduces the exact Gaussian posterior of the batch problem over any sequence of predictions and updates, and for nonlinear models the extended filter uses the true model Jacobians and the unscented filter the standard weighted sigma-point statistics. The covariance stays symmetric positive semidefinite along every history, updates never increase it, and a failed update leaves the estimate and its covariance unchanged.",
 ["inputs", "histories"], "every model, dimension, noise and predict/update history",
 "Tests follow a few short recorded histories.",
 [S+"estimation/kalman_filter.rs", S+"estimation/extended_kalman_filter.rs", S+"estimation/unscented_kalman_filter.rs", S+"estimation/models.rs"],
 [("Joseph form / simple form", S+"estimation/kalman_filter.rs"), ("sigma points", S+"estimation/unscented_kalman_filter.rs")])

prop("C20", "Inertial and attitude filters keep valid, converging orientation",
 "Over any history of finite inertial and reference readings the attitude and error-state filters keep a unit orientation and (where kept) a symmetric positive semidefinite covariance; without corrections they integrate the rates exactly, and with consistent references they converge to the true attitude up to what is observable unless started exactly opposite to it. Unusable readings are rejected or skipped without disturbing the estimate.",
 ["inputs", "histories"], "every sensor history, initial attitude, gain and timestep",
 "Tests simulate a few fixed motions.",
 [S+"estimation/error_state_kalman_filter.rs", S+"estimation/madgwick_filter.rs", S+"estimation/mahony_filter.rs", S+"estimation/attitude_correction.rs"],
 [("error injection and reset", S+"estimation/error_state_kalman_filter.rs"), ("gradient/PI correction", S+"estimation/mahony_filter.rs")])

prop("C21", "Particle filters keep a valid weighted cloud and sample fairly",
 "Through any history of predictions, updates and resampling, particle weights stay non-negative and normalised, reweighting is proportional to the likelihood, resampling draws each particle within the bounds its scheme guarantees and never invents particles, and estimates equal the weighted statistics of the cloud. Runs are reproducible from the seed, and degenerate likelihoods are reported without changing the cloud or its weights.",
 ["inputs", "histories"], "every cloud size, likelihood, resampling scheme, threshold and seed",
 "Tests run a few fixed seeds and clouds.",
 [S+"estimation/particle_filter.rs", S+"estimation/monte_carlo_localizer.rs"],
 [("log-weight normalisation", S+"estimation/particle_filter.rs"), ("resampling schemes", S+"estimation/particle_filter.rs"), ("beam model", S+"estimation/monte_carlo_localizer.rs")])

prop("C22", "The random generator is reproducible and correctly distributed",
 "Equal seeds and streams give equal sequences that match the published PCG32 algorithm, different streams differ, uniform draws always lie in their half-open range whatever words the source yields, uniform and normal draws follow their distributions, the second normal of each pair is handed out once and without drawing words, and any interleaving of calls depends only on the seed, the stream and the calls made.",
 ["inputs", "histories"], "every seed, stream, range and call sequence",
 "Tests check a few seeds.",
 [S+"random.rs"],
 [("PCG32 step and output", S+"random.rs"), ("Box-Muller / polar transform", S+"random.rs")])

prop("C23", "Feedback controllers follow their control law and limits",
 "PID output equals its documented discrete law over every input history, always lies within the output limits, its integral never winds up beyond what the limits allow, and reset restores the initial behaviour; LQR gains are the stabilising optimum whose cost-to-go matches the closed loop. Geometric attitude and thrust commands point the body as demanded for every attitude, and path curvature commands steer through the lookahead point.",
 ["inputs", "histories"], "every gain set, limit pair, setpoint/measurement history, attitude and target",
 "Tests replay short fixed histories.",
 [S+"control/pid.rs", S+"control/lqr.rs", S+"control/geometric_attitude.rs", S+"control/thrust_command.rs", S+"control/pure_pursuit.rs"],
 [("anti-windup", S+"control/pid.rs"), ("Riccati gain", S+"control/lqr.rs"), ("rotation error", S+"control/geometric_attitude.rs")])

prop("C24", "Reactive avoidance never steers or speeds into a seen obstacle",
 "For every range scan the gap follower steers, in proportion, toward a direction inside the field of view and inside a free gap wide enough for the robot, chosen by the documented trade of width against the goal direction, at a speed that falls to zero as the frontal clearance reaches the stopping distance and never exceeds the cruise speed. When every direction is blocked it reports so, and an unusable reading counts as open space at the scan's maximum range, as documented.",
 ["inputs", "configurations"], "every scan content, beam count, field of view, chassis width and goal bearing",
 "Tests use a few synthetic scans.",
 [S+"control/follow_the_gap.rs"],
 [("bubble inflation and gap choice", S+"control/follow_the_gap.rs")])

prop("C25", "Planned motions hit their endpoints and never break their limits",
 "Every point-to-point profile starts at rest at zero, ends at rest exactly at the commanded displacement, is continuous in position, velocity (and acceleration when jerk limited), never exceeds the velocity, acceleration and jerk ceilings, takes no longer than needed, and synchronised axes finish together. Minimum-snap trajectories pass through every waypoint with the promised boundary derivatives and continuity and have minimal snap cost among such curves.",
 ["inputs", "configurations"], "every start/goal state, limit set, waypoint set and duration set",
 "Tests plan a few moves and sample them coarsely.",
 [S+"motion/motion_profile.rs", S+"motion/minimum_snap.rs"],
 [("segment timing", S+"motion/motion_profile.rs"), ("constrained QP in closed form", S+"motion/minimum_snap.rs")])

prop("C26", "Path queries return the true closest, arc-length and lookahead points",
 "On every waypoint path, arc length, point-at-distance, closest-point projection and lookahead agree with brute-force geometry: the projection is never beaten by any other point on the path, distances are along-path, lookahead stops at or wraps around the ends as configured, and building a path incrementally or at once gives identical answers. Paths that are too short or invalid points are typed errors that leave the path unchanged.",
 ["inputs", "histories"], "every polyline incl. repeated points, every query point and lookahead",
 "Tests use L-shaped paths.",
 [S+"motion/polyline_path.rs"],
 [("cumulative arc length cache", S+"motion/polyline_path.rs")])

prop("C27", "Occupancy maps, ray casts and scans agree with plane geometry",
 "World/cell conversions round-trip, reads return exactly what was last written with out-of-range access handled as documented, and a ray cast reports the distance at which the ray first enters an occupied cell (never passing through one, never stopping in free space) or the maximum range. Fixed and heap grids behave identically and scan geometry maps beams to angles and points consistently.",
 ["inputs", "histories"], "every grid size, origin, resolution, occupancy pattern, ray and write sequence",
 "Tests cast a few axis-aligned rays on small maps.",
 [S+"mapping/occupancy_grid.rs", S+"mapping/scan_geometry.rs"],
 [("grid traversal", S+"mapping/occupancy_grid.rs"), ("beam angles", S+"mapping/scan_geometry.rs")])

prop("C28", "Digital filters realise their designed response over any signal",
 "Every filter output equals the direct evaluation of its difference equation over the whole input history, designed biquads have the promised gain at DC, Nyquist and their corner or centre and are stable, cascades equal the sequence of their sections, channels never mix, and reset or seeding gives the documented steady start. Retuning keeps state as documented, and designs with an unusable frequency, quality or bandwidth (as wide as half the sampling rate or more) are typed errors.",
 ["inputs", "histories", "configurations"], "every design frequency, quality factor, signal, section and channel count",
 "Tests filter short fixed signals.",
 [S+"signal_processing/biquad.rs", S+"signal_processing/cascade.rs", S+"signal_processing/one_pole.rs"],
 [("transposed direct form II", S+"signal_processing/biquad.rs"), ("harmonic notch layout", S+"signal_processing/cascade.rs")])

prop("C29", "Windows and signal conditioners follow their definitions exactly",
 "Over every history the moving average, running median and polynomial smoother equal the brute-force statistic of the last window of samples (including the warm-up), and deadband, hysteresis and slew limiting follow their defining rule at every sample with outputs inside their bounds. Reset forgets the history completely.",
 ["inputs", "histories"], "every window length and signal",
 "Tests replay short fixed signals.",
 [S+"signal_processing/window.rs", S+"signal_processing/savitzky_golay.rs", S+"signal_processing/conditioning.rs"],
 [("ring buffer", S+"signal_processing/window.rs"), ("fit weights", S+"signal_processing/savitzky_golay.rs")])

prop("C30", "Vector calculus operators match analytic fields",
 "Curl and divergence equal the true field derivatives, and line and flux integrals equal the analytic integral along the parametrised curve for every field (in the plane the flux is the integral of P dy - Q dx, positive out of the right-hand side), so gradient fields integrate to potential differences, curl of a gradient and divergence of a curl vanish, and reversing or splitting a curve negates or adds. Invalid parameters are typed errors.",
 ["inputs", "programs"], "every smooth field, point and curve",
 "Tests use one or two fields.",
 [S+"vector_field/"],
 [("partials of components", S+"vector_field/curl.rs"), ("curve quadrature", S+"vector_field/line_integral.rs")])

prop("C31", "Robot model files load to the tree and inertia they describe",
 "Loading a URDF or MJCF document yields exactly the bodies, joints, placements, axes, limits and mass properties the document describes under the format's rules (units, angle conventions, frame orientation forms, defaults inheritance, includes, geometry-derived inertia), so forward kinematics of the loaded tree equals that of the description. Equivalent ways of writing the same model load identically, and a model written out as source describes the same tree.",
 ["inputs", "programs"], "every well-formed document in the supported subset",
 "Tests load a fixed set of files.",
 [R+"urdf/", R+"mjcf/", R+"lib.rs", R+"codegen.rs"],
 [("defaults inheritance", R+"mjcf/defaults.rs"), ("geometry inertia", R+"mjcf/geometry.rs"), ("tree ordering", R+"urdf/tree.rs")])

prop("C32", "Malformed model files are refused with a named error, never a panic",
 "Any text given to the model loaders, however malformed, truncated, inconsistent or hostile, produces either a model whose every number is finite and whose tree is valid, or a typed error naming the problem; nothing that changes a mass, joint or placement is silently dropped. Loading is deterministic.",
 ["inputs"], "every byte string / XML document, in particular mutations of valid models",
 "Tests have a few hand-written bad files.",
 [R+"xml.rs", R+"error.rs", R+"urdf/", R+"mjcf/"],
 [("typed model errors", R+"error.rs"), ("attribute parsing", R+"xml.rs")])

prop("C33", "No input makes the library panic; bad input gives typed errors",
 "Across the whole public surface, any combination of finite, extreme, infinite, NaN or degenerate numeric arguments and any sequence of calls returns normally: fallible calls give a typed error, infallible calls return a value, and no call panics, overflows an integer, indexes out of bounds or loops beyond its configured iteration limit. Constructors that promise to reject non-finite or out-of-range parameters always do.",
 ["inputs", "histories", "configurations"], "every public entry point with hostile numeric values",
 "Tests check single bad arguments on some constructors; the cross product of hostile values and call orders is not covered.",
 [S+"lib.rs", S+"error.rs"],
 [("lint wall denying unwrap/expect/panic", "Cargo.toml"), ("typed error enums", S+"error.rs")])

prop("C34", "The library's algorithms carry derivatives at an autodiff scalar",
 "Everything generic over the scalar also runs at the forward-mode scalars (dual, hyper-dual, jet, nested dual): the same inputs are accepted and refused, the value equals that of the plain run, and the derivative part is the true derivative of the outputs with respect to the inputs (second derivatives likewise). This covers the algorithms themselves, not only scalar functions: factorisations and solves, matrix exponential, discretisation and Riccati solutions, quaternions, rotations, rigid motions, polynomials and their roots, motion profiles, splines, paths, ODE steps, kinematics, collision distances, drive models, controllers, filter design and signal filters, Kalman and attitude estimators. Points where the output is not differentiable (ties, saturation edges, exactly zero entries an algorithm skips) and searches that iterate to a tolerance (root finding, optimisation, inverse kinematics) are outside the claim.",
 ["inputs", "configurations"], "every scalar-generic algorithm, at every differentiable point of its domain",
 "Tests differentiate scalar test functions and run a few algorithms at a dual number; a branch that returns a constant, compares or converts through a plain number keeps the value right and drops the derivative.",
 [S+"control/mod.rs", S+"plant/mod.rs", S+"kinematics/mod.rs", S+"signal_processing/mod.rs", S+"scalar/numeric.rs"],
 [("control at f32/f64/autodiff", S+"control/mod.rs"), ("an odometry step through an autodiff scalar", S+"kinematics/mod.rs"), ("autodiff signal processing", S+"signal_processing/mod.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
