"""The properties: text for properties.jsonl, and level notes for MANIFEST.json."""
REAL = ("Every claim is decided for all real values of the symbolic inputs within the stated sizes and steps, in exact real "
        "arithmetic on the same generic source that is compiled for f64/f32; floating-point rounding, overflow and larger sizes are outside. ")
def P(id, title, statement, quant, why, files, mech, level=REAL, **k):
    return dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, level=level, **k)
PROPS = [
P("C01", "Autodiff scalars propagate exact derivatives",
  "Dual, hyper-dual and jet numbers carry the exact value and the exact derivatives of every arithmetic operation and elementary function they implement, as the calculus rules give them, and seeding, comparison and extraction never change a value. Nested and mixed use agrees: a hyper-dual carries the second derivative a dual of a dual would, and a jet's coefficients are the Taylor coefficients of the composed function.",
  "all real operand values, first and second derivative parts, and seeds, for every operation of the scalar types",
  "tests evaluate a few functions at a few points; a wrong chain rule term can vanish at the sampled point and only shows for general operands",
  ["scalar/dual.rs", "scalar/hyper_dual.rs", "scalar/jet.rs", "scalar/numeric.rs"],
  [("first-order rules", "scalar/dual.rs"), ("second-order rules", "scalar/hyper_dual.rs"), ("truncated Taylor arithmetic", "scalar/jet.rs")],
  REAL + "Elementary functions are uninterpreted except for their derivative and functional identities; jets up to order 4."),
P("C02", "Automatic derivatives, Jacobians, gradients and Hessians are exact",
  "The autodiff front-ends return exactly the derivatives of the function given: value, first, second, partial, mixed and gradient entries, Jacobian rows in the order of outputs and columns in the order of inputs, and a symmetric Hessian. Variable indices or orders out of range are reported as the documented error, never as a wrong entry.",
  "all real evaluation points and function coefficients, every index combination up to 3 variables",
  "tests differentiate fixed functions at fixed points; placement of each entry and mixed partials must hold for any function and point",
  ["numerical_derivative/autodiff.rs", "numerical_derivative/jacobian.rs", "numerical_derivative/hessian.rs", "numerical_derivative/derivator.rs"],
  [("seeding and extraction", "numerical_derivative/autodiff.rs"), ("matrix layout", "numerical_derivative/jacobian.rs"), ("second derivatives", "numerical_derivative/hessian.rs")],
  REAL + "Up to 3 inputs and 3 outputs."),
P("C23", "Finite differences are exact on polynomials of their order and fail cleanly",
  "A forward, backward or central difference reproduces the derivative of every polynomial up to the degree its stencil is exact for, in any requested variable and order, moving only that variable and with the step it was configured with. Steps, orders and indices that the documentation rules out are rejected with the documented error.",
  "all real points, steps and polynomial coefficients, every stencil and variable",
  "tests compare with a tolerance on few functions, which hides a wrong stencil weight or step of small effect",
  ["numerical_derivative/finite_difference.rs", "numerical_derivative/mode.rs"],
  [("stencils", "numerical_derivative/finite_difference.rs"), ("step configuration", "numerical_derivative/mode.rs")],
  REAL + "Derivative orders up to 3, up to 3 variables."),
P("C07", "Quaternions are exact rotations under every conversion",
  "Quaternion arithmetic is the Hamilton algebra with multiplicative norm, and a unit quaternion, its rotation matrix, axis and angle, rotation vector, logarithm and yaw-pitch-roll angles all describe the same rotation in every direction of conversion, including both poles and all extraction branches. The rotation between two directions is the shortest one that maps the first to the second, also for opposite ones; slerp keeps unit length, goes the short way at uniform speed and hits its endpoints; the reported angle between rotations is the least one. Zero or non-finite inputs give None or the identity as documented.",
  "all quaternions, rotations, points, angles and interpolation amounts, with the axis or plane from a set of directions where an angle is transcendental",
  "tests convert a few rotations; sign, branch and half-turn conventions differ by region of the rotation group",
  ["spatial/quaternion.rs"],
  [("algebra and normalization", "spatial/quaternion.rs"), ("conversions", "spatial/quaternion.rs"), ("interpolation", "spatial/quaternion.rs")],
  REAL + "Sines, cosines and arctangents are related by their exact identities and by proved bounds; where noted in the harness the axis is one of four."),
P("C08", "Rotation and pose groups: group laws, exp/log and Jacobians agree",
  "SO2, SO3, SE2 and SE3 compose, invert, act and convert to matrices as the matrix group does; hat and vee are inverse and the adjoint satisfies T·hat(x)·T⁻¹ = hat(Ad·x). The exponential is the one-parameter subgroup of the twist, the logarithm its principal inverse, the left and right Jacobians its exact derivatives, with inverses that are inverse, through the small-angle branches; interpolation starts and ends where asked at constant speed. A matrix is accepted as a rotation or pose exactly when it is one, and two consistent direction pairs give the rotation between them.",
  "all poses, twists, points and perturbations above 1e-6 of a matrix entry; rotation angles up to 3 rad about several axes",
  "tests sample some twists; Jacobians, adjoints and branch switches at small angles must be consistent over the whole group",
  ["spatial/lie/so2.rs", "spatial/lie/so3.rs", "spatial/lie/se2.rs", "spatial/lie/se3.rs", "spatial/lie/mod.rs"],
  [("group operations and matrices", "spatial/lie/se3.rs"), ("Jacobians of the exponential", "spatial/lie/mod.rs"), ("acceptance of matrices", "spatial/lie/so3.rs")],
  REAL + "Derivatives come from running the real code on dual numbers; near zero the comparison is with the power series to 1e-9."),
P("C09", "Spatial vector algebra conserves power, momentum and inertia",
  "Moving twists and wrenches between frames agrees with the adjoint matrices, is undone by the inverse, and never changes power; the motion cross product is antisymmetric, satisfies Jacobi's identity and is dual to the force cross product. A rigid body's momentum, energy, bias force and inertia about any point follow from its 6x6 inertia, bodies combine by adding those matrices, and inertia moves with the frame. Bodies and free-joint states are accepted exactly for positive, symmetric, finite data, with the orientation normalized.",
  "all twists, wrenches, poses, bodies and joint states",
  "tests check some configurations; the identities are universally quantified and used by every dynamics routine above them",
  ["spatial/twist.rs", "spatial/wrench.rs", "spatial/inertia.rs", "spatial/free_joint.rs", "spatial/lie/se3.rs"],
  [("frame changes", "spatial/lie/se3.rs"), ("motion and force products", "spatial/twist.rs"), ("inertia", "spatial/inertia.rs"), ("free joint", "spatial/free_joint.rs")],
  REAL),
P("C10", "PID loop obeys its control law, saturation and anti-windup",
  "For any gains, limits, timestep and error history, each step returns the proportional, integral and filtered-derivative sum clamped to the output limits, and the integral is held exactly on the steps where accumulating would push further into saturation. Changing gains, resuming from a given output and resetting leave the internal state so that the next output is what is documented (no bump, or as freshly built). Invalid or non-finite configuration is rejected with the documented error and a controller built is never in an invalid state.",
  "all real gains, limits, timesteps and every error sequence up to 3 steps, with every saturated/unsaturated combination",
  "tests sample a few step responses with positive gains; saturation with negative gains, mixed gain changes and resumption need every sign combination",
  ["control/pid.rs"], [("anti-windup and clamping", "control/pid.rs"), ("configuration checks", "control/pid.rs")],
  REAL + "At most 3 consecutive steps.", over=["inputs", "histories"]),
P("C11", "Geometric attitude control and thrust commands follow the error on SO(3)",
  "The attitude a desired acceleration and heading ask for carries the mass along exactly that acceleration against gravity, with its forward axis on the heading's side. The attitude and rate errors are those of the documented geometric law, zero exactly when the attitudes agree, and the commanded torque is their gain-weighted sum plus the gyroscopic term; free fall, a heading along the thrust and non-finite inputs get the documented error.",
  "all headings, tilts up to 50 degrees, pairs of attitudes, rates, gains and thrusts",
  "tests evaluate a few attitudes near hover; sign and frame mistakes cancel at symmetric poses",
  ["control/thrust_command.rs", "control/geometric_attitude.rs"],
  [("frame from acceleration and heading", "control/thrust_command.rs"), ("attitude error and torque law", "control/geometric_attitude.rs")],
  REAL + "Attitudes are parametrised rationally; torque laws over a family of inertias."),
P("C12", "Pursuit, gap following and LQR commands meet their objective",
  "The pursuit curvature is the arc through the robot tangent to its heading and through the target, and a gap follower aims inside an open run wide enough for its chassis, the best by its documented score, slowing with the space ahead and stopping when there is none. The LQR law attains its own cost to go and no other input does better from any state, and its stability certificate is a Lyapunov certificate. Every invalid argument is refused with the documented error.",
  "all poses, targets, obstacle distances, every open/blocked pattern of 5 beams, all system costs in the family",
  "tests use a handful of scans and one LQR example; optimality is a statement over every input and state, gap choice over every pattern of obstacles",
  ["control/pure_pursuit.rs", "control/follow_the_gap.rs", "control/lqr.rs"],
  [("curvature", "control/pure_pursuit.rs"), ("gap selection and speed", "control/follow_the_gap.rs"), ("Riccati gain and certificate", "control/lqr.rs")],
  REAL + "5 beams over half a turn; LQR over 2-state 1-input families whose Riccati iteration ends exactly."),
P("C13", "Digital filters realise their difference equation as linear systems",
  "A second-order section driven by any input sequence outputs exactly its difference equation; filtering is linear, settling puts it in the steady state of a constant input, and swapping coefficients keeps the filter memory. A cascade equals its sections applied in order, a filter bank treats each channel independently, and a one-pole smoother follows its exponential recurrence and never leaves the range of its inputs.",
  "all real coefficients, filter memories and input sequences up to 4 samples; cascades of 2 sections and banks of 2 channels",
  "tests compare a few numeric responses; linearity, memory preservation and channel independence quantify over all signals and coefficients",
  ["signal_processing/biquad.rs", "signal_processing/cascade.rs", "signal_processing/one_pole.rs"],
  [("direct form II transposed update", "signal_processing/biquad.rs"), ("section cascade and channels", "signal_processing/cascade.rs"), ("one-pole smoothing", "signal_processing/one_pole.rs")],
  REAL + "Sequences of up to 4 samples.", over=["inputs", "histories"]),
P("C14", "Designed filters are stable and have the gains they promise",
  "Every low-pass, high-pass, band-pass and notch design accepted has both poles strictly inside the unit circle, and its gain at zero frequency, at half the sampling rate and at the design frequency is the promised one; band-pass and notch never amplify at any frequency. Reported magnitude, phase and delay are those of the transfer function on the unit circle, and for cascades they multiply and add. Designs are rejected with the documented error exactly for the arguments documented as out of range, and a harmonic notch set is exactly one notch per multiple.",
  "all design frequencies, sharpness values, timesteps and probe frequencies",
  "tests probe a handful of designs; stability and gain ceilings must hold for every frequency, sharpness and sampling rate",
  ["signal_processing/biquad.rs", "signal_processing/cascade.rs"],
  [("coefficient design", "signal_processing/biquad.rs"), ("stability test", "signal_processing/biquad.rs"), ("harmonic notch set", "signal_processing/cascade.rs")],
  REAL + "Sines and cosines are symbols related by their algebraic identities, with the signs they take on the stated angle ranges."),
P("C15", "Signal conditioning blocks keep their windows, limits and fits",
  "A dead band, hysteresis switch and slew limiter respond exactly by their documented thresholds and rate limits for every input sequence. A moving average equals the mean and a running median the median of the samples currently in the window, from the first sample on. A Savitzky-Golay filter reproduces any polynomial up to its order exactly, with its derivative, and rejects the window and order combinations documented.",
  "all real inputs, thresholds and rates; sequences up to twice the window, windows up to 5 samples",
  "tests feed fixed signals; ordering of samples, threshold crossings and polynomial inputs are unbounded",
  ["signal_processing/conditioning.rs", "signal_processing/window.rs", "signal_processing/savitzky_golay.rs"],
  [("dead band, hysteresis, slew limiter", "signal_processing/conditioning.rs"), ("window statistics", "signal_processing/window.rs"), ("polynomial window fit", "signal_processing/savitzky_golay.rs")],
  REAL + "Window sizes 3 and 5.", over=["inputs", "histories"]),
P("C03", "LU, determinant, inverse and linear solves are exact",
  "For every square matrix the determinant is the exact one, and an inverse or solution that is returned satisfies A·A⁻¹ = A⁻¹·A = I or A·x = b, with the permutation and sign of the pivoting accounted for. A singular matrix is refused with the documented error, and refusal happens only for a determinant or pivot that is negligible against the entries.",
  "all real matrices up to 4x4 (closed forms) and up to 5x5 (pivoted factorization) for every pivot order reached, and all right-hand sides",
  "tests invert a few matrices; each pivot order and each entry pattern is a separate code path with its own sign and permutation bookkeeping",
  ["linear_algebra/lu.rs", "linear_algebra/matrix.rs"],
  [("pivoted factorization and substitution", "linear_algebra/lu.rs"), ("closed-form inverse and determinant", "linear_algebra/matrix.rs")],
  REAL + "Sizes 1 to 5; the larger sizes with several entries fixed."),
P("C04", "Cholesky, QR and least squares factor and solve exactly",
  "Cholesky of a symmetric positive definite matrix returns L with L·Lᵀ = A, solves, inverts and gives the determinant exactly, and refuses exactly the matrices that are not positive definite or not symmetric where documented. QR returns orthonormal Q and upper triangular R with Q·R = A, and its solution is the least-squares one: the residual is orthogonal to every column, also with damping.",
  "all real symmetric matrices up to 3x3 by their factor, all tall matrices up to 3x2 built from any triangular factor, all right-hand sides",
  "tests factor fixed matrices; acceptance versus refusal and the normal equations must hold for every matrix, including those with non-finite entries",
  ["linear_algebra/cholesky.rs", "linear_algebra/qr.rs"],
  [("factorization and its refusals", "linear_algebra/cholesky.rs"), ("Householder reduction and least squares", "linear_algebra/qr.rs")],
  REAL + "Sizes up to 3x3; orthogonal factors from rational families."),
P("C05", "Symmetric eigendecomposition and SVD reconstruct the matrix",
  "The eigendecomposition of a symmetric matrix returns orthonormal directions and descending eigenvalues with V·diag(w)·Vᵀ = A; the singular value decomposition returns orthonormal factors and descending non-negative values with U·diag(s)·Vᵀ = A, each with the documented sign convention. What is derived from them is exact: determinant, definiteness, condition number, clamped eigenvalues, rank for any tolerance, the Moore-Penrose inverse and the minimum-norm least-squares solution. Lopsided, wide and non-finite inputs are refused as documented.",
  "all eigenvalues and singular values (any order, sign, tolerance and right-hand side) on several families of directions; all symmetric 2x2 matrices in the thorough tier",
  "tests compare a few matrices with reference values; ordering, sign convention and tolerance decisions depend on the values and directions",
  ["linear_algebra/symmetric_eigendecomposition.rs", "linear_algebra/svd.rs"],
  [("cyclic Jacobi and sorting", "linear_algebra/symmetric_eigendecomposition.rs"), ("one-sided Jacobi, rank and pseudo-inverse", "linear_algebra/svd.rs")],
  REAL + "Sizes up to 3x3; directions from rational rotations for which the iteration ends in finitely many steps."),
P("C06", "Matrix algebra, exponential, Lyapunov and Riccati solutions hold",
  "Vector and matrix operations are the textbook ones: products, transposes, norms, traces, cross and triple products, normalization, element and slice access inside and outside the bounds. The matrix exponential agrees with its series and undoes its own scaling, a discrete Lyapunov solution satisfies AᵀPA − P + Q = 0 and is refused when A does not contract, and a discrete Riccati solution satisfies its equation and is at least the state cost. Non-finite, lopsided or indefinite inputs are refused with the documented error.",
  "all real entries up to 3x4 for the algebra; exponentials of nilpotent, diagonal and rotation generators; Lyapunov and Riccati equations of nilpotent systems in two coordinate systems and a contraction with any cost",
  "tests compare with a few reference matrices to a tolerance; the equations must hold for every system and cost",
  ["linear_algebra/matrix.rs", "linear_algebra/vector.rs", "linear_algebra/expm.rs", "linear_algebra/lyapunov.rs", "linear_algebra/riccati.rs"],
  [("element arithmetic", "linear_algebra/matrix.rs"), ("scaling and squaring", "linear_algebra/expm.rs"), ("doubling", "linear_algebra/lyapunov.rs"), ("structured doubling", "linear_algebra/riccati.rs")],
  REAL + "Sizes up to 3; iterative solvers on systems for which the iteration ends exactly, or with the residual bounded."),
P("C17", "Kalman filters apply the documented recursion and reject bad data",
  "Predict and update of the linear Kalman filter are the textbook equations, with the gain stationary for the posterior spread, covariances kept symmetric, and a batch of readings equal to the readings one after another. The extended filter is the linear filter on the Jacobian of its models, and the unscented filter reproduces mean and spread exactly for linear models and its documented sigma-point sums for bent ones. Gated, non-finite or malformed readings and arguments are refused with the documented error and leave the estimate as it was.",
  "all states, readings, models of the stated sizes, covariances given by their factor, every tuning of the unscented spread in range",
  "tests run a few trajectories and compare with tolerances; the recursion must hold for every state, covariance and reading, including rejected ones",
  ["estimation/kalman_filter.rs", "estimation/extended_kalman_filter.rs", "estimation/unscented_kalman_filter.rs", "estimation/models.rs"],
  [("predict and update", "estimation/kalman_filter.rs"), ("linearisation", "estimation/extended_kalman_filter.rs"), ("sigma points", "estimation/unscented_kalman_filter.rs"), ("motion models", "estimation/models.rs")],
  REAL + "States of 2, readings of 1 or 2; turn models of 4 and 5 states."),
P("C19", "Particle weights and resampling follow the probabilities",
  "Each resampling scheme picks the particles its draws call for: only possible ones, at the places where the running weight crosses its positions, with at least the whole share where promised. Reweighting multiplies each weight by its score and keeps the sum at one, the cloud moves by its model and noise, and it is redrawn exactly when the effective size falls below the threshold. A localizer casts every beam from every guess, scores it as documented, and answers with the weighted mean, the heading averaged on the circle.",
  "all weights including zeros, all draws, scores, models, readings and map answers",
  "tests fix the generator seed and look at averages; which particle a draw selects must hold for every draw and weight vector, including the ends of the range",
  ["estimation/particle_filter.rs", "estimation/monte_carlo_localizer.rs"],
  [("resampling schemes", "estimation/particle_filter.rs"), ("log-weight normalization and threshold", "estimation/particle_filter.rs"), ("beam scoring and pose average", "estimation/monte_carlo_localizer.rs")],
  REAL + "2 or 3 particles, 2 beams; scripted draws, and for the localizer the generator's own draws from a fixed seed."),
P("C18", "The error-state filter tracks a rigid body consistently",
  "A state with an error folded in and the error read back between two states are inverse, with the facing taken on the rotation group; one inertial step moves position, speed and facing by the documented kinematics, and the step matrix is the derivative of that step in the rows documented as exact. Prediction and correction carry the fifteen-number spread by the documented equations, including the carry to the new facing, leave it even, and a reading of another width keeps the last innovation. Non-finite or unusable input is refused and leaves estimate and spread as they were.",
  "all states, inertial readings, timesteps, sensor models of the stated forms, spreads with free entries; turns of any angle about several axes",
  "tests fly a few trajectories; the equations couple fifteen error numbers and must hold for every state, reading and spread",
  ["estimation/error_state_kalman_filter.rs"],
  [("error injection and extraction", "estimation/error_state_kalman_filter.rs"), ("inertial propagation and transition", "estimation/error_state_kalman_filter.rs"), ("measurement Jacobian over dual numbers and correction", "estimation/error_state_kalman_filter.rs")],
  REAL + "Spreads with up to four free entries over a fixed background; turn axes from a fixed set."),
P("C20", "Attitude filters turn toward what their sensors say",
  "Each step turns the facing by the reading less its offset plus the gain times the turn that would bring the estimated up and north onto what the sensors see, and moves the offset the documented way; the magnetometer's dip is taken from the reading itself. Readings of zero add nothing, sensors that agree with the facing leave a Mahony filter where it is, and a Madgwick filter always pulls by the same amount. Non-finite input and unusable reference directions leave the filter untouched.",
  "all gains, readings, offsets, dips and reference frames; step rotations of any angle about a known axis",
  "tests watch convergence from a few starts; a sign or gain slip shows only for particular combinations of readings and offsets",
  ["estimation/mahony_filter.rs", "estimation/madgwick_filter.rs", "estimation/attitude_correction.rs"],
  [("correction from measured directions", "estimation/attitude_correction.rs"), ("proportional and integral pull", "estimation/mahony_filter.rs"), ("fixed-rate pull", "estimation/madgwick_filter.rs")],
  REAL + "One step at a time; the facing fixed in the quick tier."),
P("C21", "ODE steppers are the documented Runge-Kutta methods",
  "A fixed step is the classical fourth-order combination of the rate at the documented stages, and an adaptive step is the fifth-order combination with the embedded error estimate, accepted exactly when the scaled error is within tolerance, its next size within the documented growth limits. Solutions end on the final time, dense and grid output interpolate the steps taken, and steps on manifolds compose the exponential of the averaged rate. Bad tolerances, spans, steps and non-finite rates are refused with the documented error.",
  "any rate function (uninterpreted), all states, times, steps and tolerances",
  "tests integrate a few smooth problems to a tolerance, which hides a slip in one coefficient or in step acceptance; the stages must hold for every rate function",
  ["ode/rk4.rs", "ode/rk45.rs", "ode/tableau.rs", "ode/exponential_map.rs"],
  [("fixed step", "ode/rk4.rs"), ("adaptive step and dense output", "ode/rk45.rs"), ("manifold step", "ode/exponential_map.rs")],
  REAL + "Up to three steps; one or two state variables.", over=["inputs", "histories"]),
P("C22", "Quadrature is exact for its degree and refuses bad requests",
  "Each Gaussian rule integrates every polynomial up to its degree exactly against its documented weight, over any interval for Legendre, and the composite rules apply their documented weights to every function and are exact up to their own degree. Multiple and partial integrals are nested single ones along the requested variables, half-infinite and infinite ranges are transformed without changing the value, and reversed, equal or undefined limits, an order or count out of range, a variable that is not there and non-finite samples are refused with the documented error.",
  "all polynomials of the stated degree, all intervals, any integrand (uninterpreted) for the composite rules",
  "tests integrate a few functions with one setting each; weights and nodes must be right in every rule and order, and iterated limits in every position",
  ["numerical_integration/gaussian_integration.rs", "numerical_integration/iterative_integration.rs"],
  [("node and weight tables applied over an interval", "numerical_integration/gaussian_integration.rs"), ("composite rules", "numerical_integration/iterative_integration.rs")],
  REAL + "Small numbers of panels; all published rule orders."),
P("C24", "Root finders keep their bracket and stop for a true reason",
  "Bisection and Brent start from a sign change, evaluate inside the current bracket only, and report an end of it with its own value, the better one for Brent; Newton takes the tangent's root, or solves the linearised system, and with backtracking halves the step until the residual shrinks. A result is returned only when the named tolerance is met, with the true residual and count; missing sign changes, flat slopes, singular systems, non-finite values and exhausted rounds are errors as documented.",
  "any sequence of function values and slopes (scripted, so any function), all brackets, guesses and tolerances",
  "tests solve a few equations; which end survives and which reason stops depends on the whole sequence of values",
  ["root_finding/bisection.rs", "root_finding/brent.rs", "root_finding/newton.rs", "root_finding/newton_system.rs"],
  [("bracket halving", "root_finding/bisection.rs"), ("secant, inverse parabola and fallback", "root_finding/brent.rs"), ("tangent step and backtracking", "root_finding/newton.rs"), ("linearised system", "root_finding/newton_system.rs")],
  REAL + "Two to four rounds; two equations.", over=["inputs", "histories"]),
P("C38", "Discretization matches the continuous system exactly",
  "Zero-order hold returns the exact state transition and held-input response of the continuous system, and Van Loan returns that transition with the exact accumulated noise. The discrete white-noise covariance is the outer product of the integrator gains times the variance. A negative or non-finite step and non-finite matrices are refused; a step of zero changes nothing.",
  "all steps, inputs and noise densities on chains of integrators and on one state with any rate",
  "tests compare a few steps with reference numbers; block placement and transposes show only for uneven systems and coupled noise",
  ["discretization/mod.rs"],
  [("augmented-matrix exponentials", "discretization/mod.rs"), ("closed-form white noise", "discretization/mod.rs")],
  REAL + "Up to three states and two inputs; steps below 1.5."),
P("C39", "Least-squares solvers descend and report what they reached",
  "On linear residuals both solvers return the point where the residual is orthogonal to every column, Levenberg-Marquardt also where the columns are dependent. Gauss-Newton takes the full least-squares step, halved with backtracking until the residual shrinks; Levenberg-Marquardt keeps its step within a tenth of the trust radius, moves only to points that reduce the residual, and never reports one worse than the start. The reported objective is half the squared residual at the reported point, the reason is the test that was met, and bad problems are refused as documented.",
  "any sequence of residuals and slopes of one parameter (scripted), all right-hand sides of linear problems of two parameters",
  "tests fit a few curves; acceptance, radius update and the reason to stop depend on the whole history of residuals",
  ["optimization/gauss_newton.rs", "optimization/levenberg_marquardt.rs", "optimization/trust_region.rs", "linear_algebra/qr.rs"],
  [("full and halved steps", "optimization/gauss_newton.rs"), ("acceptance and radius update", "optimization/levenberg_marquardt.rs"), ("damping search", "optimization/trust_region.rs")],
  REAL + "Two or three rounds; the damping search decided for one parameter.", over=["inputs", "histories"]),
P("C40", "Taylor approximations and their fit metrics are the documented ones",
  "A linear approximation is the value and gradient at its base point, a quadratic one adds half the Hessian form, both exact for polynomials of their degree and with the expanded intercept consistent. The fit metrics are the mean absolute and squared errors, their root, and the plain and adjusted shares explained, with the share undefined for a constant truth and the adjusted one for too few points, whichever summation is chosen.",
  "all cubic polynomials of two variables, all base and query points, several sets of sample points",
  "tests approximate a few functions at one point; each mixed derivative and metric formula must hold for all coefficients and points",
  ["approximation/linear_approximation.rs", "approximation/quadratic_approximation.rs", "approximation/mod.rs"],
  [("first-order model", "approximation/linear_approximation.rs"), ("second-order model", "approximation/quadratic_approximation.rs"), ("metrics", "approximation/mod.rs")],
  REAL + "Two or three variables, two to four sample points."),
P("C41", "Curl, divergence, line and flux integrals obey vector calculus",
  "Curl and divergence are the documented combinations of partial derivatives with any derivator. Line and flux integrals apply the trapezoid rule between evenly spaced stations to any field on any curve; they are exact for linear fields on segments, change sign with direction, depend only on the ends for gradient fields, and around a rectangle equal curl or divergence times area. Reversed or non-finite limits and a count of zero are refused.",
  "any field and curve (uninterpreted functions), all limits; all quadratic fields for the operators",
  "tests use one or two symmetric fields for which swapped components or a wrong sign cancel",
  ["vector_field/curl.rs", "vector_field/divergence.rs", "vector_field/line_integral.rs", "vector_field/flux_integral.rs"],
  [("partial derivatives combined", "vector_field/curl.rs"), ("trapezoids along a curve", "vector_field/line_integral.rs"), ("flux across a curve", "vector_field/flux_integral.rs")],
  REAL + "Up to four stations for arbitrary curves."),
P("C42", "Summation drops and repeats no term",
  "Pairwise and compensated summation return the sum of all the terms handed to them, each exactly once, for every number of terms, including the counts at which blocks fill up and stack levels merge.",
  "any terms, for counts around the block boundaries",
  "tests sum a few sequences whose slips hide in a tolerance; a dropped or doubled term must show for every term and count",
  ["utils/summation.rs"],
  [("cascaded blocks and compensation", "utils/summation.rs")],
  REAL + "Counts 126 to 300, in the thorough tier to 1000."),
P("C25", "Polynomial algebra and construction are exact",
  "Evaluation, derivatives, integrals, sums, products, composition, argument shift and scale, reversal, degree and division with remainder are those of the polynomial the coefficients denote. Construction from roots, jets, points, endpoint derivatives or least squares yields the polynomial with those roots, derivatives and values, or with residuals orthogonal to every power. Too little room, too few or repeated points, an empty or reversed range, division by zero and non-finite input are refused with the documented error.",
  "all coefficients, arguments, roots, sample values and spans, every pattern of zero coefficients",
  "tests check a few round polynomials; a shifted index or a lost carry shows only for particular degrees, zero patterns or point orders",
  ["polynomial/polynomial.rs", "polynomial/construction.rs"],
  [("ring operations and division", "polynomial/polynomial.rs"), ("interpolation, endpoints and fitting", "polynomial/construction.rs")],
  REAL + "Degrees to 7, four sample points; least-squares positions from several sets.", over=["inputs"]),
P("C26", "Polynomial real-root finding is complete and correct",
  "Closed-form roots up to the fourth degree are all the real roots with their multiplicities, in rising order, and nothing else. Counting in an interval returns the number of distinct real roots in (lower, upper], the Cauchy bound encloses them all, and isolating search returns each once within tolerance or the documented error. A leading zero, a constant, non-finite coefficients and bad ranges, tolerances or caps are refused as documented.",
  "all polynomials of first and second degree, cubics of every root pattern, biquadratic and paired quartics, families of higher degree with symbolic roots, arbitrary ranges",
  "tests solve a few polynomials with well separated roots; repeated roots, sign patterns and interval ends on a root are the cases that miscount",
  ["polynomial/roots.rs"],
  [("closed forms", "polynomial/roots.rs"), ("root-counting chain", "polynomial/roots.rs"), ("isolation by halving", "polynomial/roots.rs")],
  REAL + "Cubics in trigonometric branch parametrised by their roots; quartics from stated families; counting to degree 5."),
P("C27", "Piecewise and multivariate polynomials denote what they are built from",
  "A piecewise polynomial evaluates, differentiates and integrates the piece that covers the parameter, with the boundary and outside rules documented, and its integral is additive and signed over any bounds. Multivariate polynomials add, multiply, differentiate, integrate, substitute and collect terms as the functions they denote, agree with univariate form, and report degrees that are attained. Overfull results, out-of-range powers and variables, empty or mismatched pieces, and bad spans are refused as documented.",
  "all coefficients, spans, parameters and bounds, on either side of every knot",
  "tests use one layout; the choice of piece at a knot, the sign of reversed bounds and cancelling terms need every order of the parameters",
  ["polynomial/piecewise.rs", "polynomial/multivariate.rs"],
  [("locating the piece", "polynomial/piecewise.rs"), ("term collection and capacity", "polynomial/multivariate.rs")],
  REAL + "Up to three cubic pieces, two variables and four terms."),
P("C28", "Motion profiles arrive exactly and never exceed their limits",
  "A planned profile starts and ends at rest, covers exactly the displacement asked, in either direction, and position, velocity and (with a jerk limit) acceleration are continuous and are each the integral of the next. At every time the velocity, acceleration and jerk stay within their limits, and before the start and after the end the state rests at the end point. Stretching scales time alone, synchronized axes finish together within their limits, and bad limits, displacements and durations are refused as documented.",
  "every displacement and every time, arbitrary trapezoid limits, s-curves of all four shapes",
  "tests sample a few profiles at a few times; the limits must hold at every instant of every shape, also at the displacements where the shape changes",
  ["motion/motion_profile.rs"],
  [("phase planning", "motion/motion_profile.rs"), ("evaluation in a phase", "motion/motion_profile.rs"), ("synchronisation", "motion/motion_profile.rs")],
  REAL + "Time-dependent claims use fixed limit triples in the quick tier."),
P("C29", "Minimum-snap trajectories pass every waypoint with least snap",
  "The planned trajectory passes through each waypoint at its time, meets the boundary velocity, acceleration and jerk, and is continuous through its sixth derivative at interior waypoints, the condition of least integrated squared snap. Durations from an average speed are the leg lengths over that speed. Too few waypoints, mismatched or non-positive durations and non-finite input are refused as documented.",
  "all waypoints and boundary motions, for several timings",
  "tests plan a few courses and check position only; optimality and smoothness depend on every entry of the constraint mapping",
  ["motion/minimum_snap.rs"],
  [("snap cost and reduction to the free derivatives", "motion/minimum_snap.rs")],
  REAL + "Up to three segments, listed durations."),
P("C30", "Path queries return the nearest and the looked-ahead point",
  "The closest point is on the path, no point of the path is nearer, its distance, arc length and leg index are those of that point. Looking ahead walks exactly the arc length asked, stopping at the end or wrapping around a loop, across repeated waypoints and doubled-back legs. Lengths are the sums of legs; empty paths, full buffers and non-finite points give the documented result.",
  "any query position and any arc length on four path shapes; arbitrary waypoints for lengths",
  "tests query a few points; the leg chosen must be right for every position, including behind corners and on degenerate legs",
  ["motion/polyline_path.rs"],
  [("projection on each leg", "motion/polyline_path.rs"), ("walking along the path", "motion/polyline_path.rs")],
  REAL + "Four fixed paths of up to three legs for the searches."),
P("C31", "Grid maps: cells, rays and drawn shapes match the geometry",
  "A position belongs to the one cell whose half-open square contains it, or is off the map. A cast ray stops at the first blocked cell along it, at the distance where it enters that cell, never passes through a blocked cell or skips one it crosses, and reports nothing beyond the maximum range or off the map. Drawn edges and circles block every cell whose inside they cross and only cells within a cell of the curve; a grid store keeps each cell apart and refuses shapes that do not fit.",
  "any start, bearing, corner and cell size; every blocked or free pattern (chosen lazily as the ray asks)",
  "tests cast a few rays on one map; stepping order, entry from outside and sign handling depend on where in the cell and in which direction a ray starts",
  ["mapping/occupancy_grid.rs", "mapping/mod.rs"],
  [("stepping from cell to cell", "mapping/occupancy_grid.rs"), ("entry from outside", "mapping/occupancy_grid.rs"), ("drawing", "mapping/occupancy_grid.rs")],
  REAL + "Maps up to 3x2 cells; edges up to 1.5 cells, circles up to 1.2 cells."),
P("C32", "Scan geometry: beams spread evenly and map back to their index",
  "Beam angles run from minus half to plus half the field of view in equal steps, and none past the last beam. The nearest beam to a direction is the one at the least angle from it, the nearest beam to each beam's own angle is that beam, and a direction outside the arc belongs to none. A reading is valid exactly when it is finite and between the minimum and maximum range; impossible arcs and ranges are refused.",
  "any field of view, direction, ranges and reading",
  "tests use one arc; rounding at its ends and ties between beams need every arc",
  ["mapping/scan_geometry.rs"],
  [("angle of a beam and back", "mapping/scan_geometry.rs"), ("validity of a reading", "mapping/scan_geometry.rs")],
  REAL + "Two to five and eight beams."),
P("C33", "Kinematic trees: frames, Jacobians and refusals",
  "Forward kinematics places each link frame where the composition of its ancestors' origins and joint motions puts it, and the geometric Jacobian of any tool is the derivative of that placement with respect to each joint reading, in the frame asked for, with zero columns for joints off the path. A tree accepts a joint only when its numbers, limits, parent and configuration slots are valid, and queries with readings, tools or states that do not fit are refused with the documented error. The distance between configurations is the weighted joint-by-joint distance, the short way round for continuous and floating joints.",
  "all origins' places, anchors, zero offsets, readings and tool places over scenes of up to four joints of every kind; any number, finite or not, in each validated place",
  "tests check a few arms at a few readings; sign and frame errors vanish when an origin is unturned, an anchor is zero or an axis is shared",
  ["kinematics/kinematic_tree.rs", "kinematics/joint.rs", "kinematics/kinematic_jacobian.rs", "kinematics/kinematic_tree_state.rs"],
  [("frame composition", "kinematics/kinematic_tree.rs"), ("joint motion and its derivative", "kinematics/joint.rs"), ("validation", "kinematics/kinematic_tree.rs")],
  REAL + "Scenes listed in the evidence; orientations of origins from a finite set of rational turns, angles 0.1 to 2.5 of either sign."),
P("C34", "Inverse kinematics reports truthfully and stays within limits",
  "A solve that reports convergence is at the target within its tolerances, the reported errors are those of the configuration returned, and joints respect their limits and the step norm its cap when asked. Each step is the weighted damped least-squares step, with the secondary objective acting only in its null space; a continuous joint goes the short way round. Multi-start solves return distinct solutions in order of error, singularities are named by what is lost, and the damped inverse and null-space projector satisfy their defining equations.",
  "all seeds, targets, limits, weights, dampings and random draws on small arms whose step is rational; any number, finite or not, in each validated place",
  "tests solve a few poses of a few arms; a report that is untrue in one exit path, or a limit crossed in the last step, needs the right seed, budget and target together",
  ["kinematics/inverse_kinematics.rs", "kinematics/multi_start_inverse_kinematics.rs", "kinematics/kinematic_jacobian.rs"],
  [("iteration and exits", "kinematics/inverse_kinematics.rs"), ("starts and duplicates", "kinematics/multi_start_inverse_kinematics.rs"), ("damped inverse, singularities", "kinematics/kinematic_jacobian.rs")],
  REAL + "One to three joints, budgets of up to three steps; the singular values come from the stated decomposition of small matrices.", over=["inputs", "histories"]),
P("C35", "Clearance between spheres and capsules is the true distance",
  "The clearance between two primitives is the least distance between their axes less both radii: negative exactly when they overlap, symmetric, and continuous through parallel, crossing and end-to-end layouts at any size. A collision check reports the least clearance over every pair that is neither excluded nor on one link, with the pair that has it, and says clear exactly when that is at least the required clearance. Capacities, missing frames and unknown indices are refused.",
  "all places and radii, half-lengths from zero and micrometres to metres, several turns; any slide of the links in a query",
  "tests measure a few round layouts; the nearest points of two segments fall in one of nine regions and each needs its own placement, and the parallel case a degenerate formula",
  ["kinematics/collision.rs"],
  [("nearest points of two segments", "kinematics/collision.rs"), ("pair selection and least clearance", "kinematics/collision.rs")],
  REAL + "Axes from a finite set of turns; up to three balls on two links and two on the ground."),
P("C36", "Differential drive and odometry follow the wheels exactly",
  "Wheel speeds and body motion, and wheel rotations and arcs, convert into each other and back without loss for every valid geometry, with turning to the left when the right wheel is faster, and invalid geometries are refused. Odometry moves a pose along the exact circular arc of the travelled length and turn, straight when the turn vanishes and continuously near it. The unicycle and odometry models agree with that motion and with its derivative.",
  "all geometries, speeds, poses, arc lengths and turns up to 2.5 either way; any number, finite or not, in the validated places",
  "tests drive a few arcs; the small-turn branch, backward motion and a turned start each hide sign and factor errors",
  ["kinematics/differential_drive.rs", "kinematics/odometry.rs", "kinematics/unicycle.rs"],
  [("wheel mixing", "kinematics/differential_drive.rs"), ("arc integration", "kinematics/odometry.rs"), ("plant model", "kinematics/unicycle.rs")],
  REAL + "Turns 0.001 to 2.5, and below 6e-15."),
P("C37", "Rigid body and rotors obey Newton, Euler and the rotor layout",
  "A rigid body accelerates as Newton's law for its balance point and Euler's for its spin require, referred to the body origin, and its tick is the midpoint step, exact when nothing turns; its state vector and back are inverse, and a state without a direction gives no derivative. A mixer's wrench is the sum of the rotors' pushes, tips and twists, its shares give back the wanted push and turn with the least effort, each held inside its limits and flagged exactly when held, and layouts that lack a direction are refused. A rotor's thrust closes the gap exponentially, never past the command, whatever the tick.",
  "all masses, balance points, gravity, orientations, spins and wrenches; any limits, wanted push and turn, thrusts, time constants and ticks; any number, finite or not, in the validated places",
  "tests drop and spin a few bodies centred on their origin; the swing terms vanish there, and saturation of one rotor in either direction needs a chosen wrench",
  ["dynamics/rigid_body.rs", "plant/multirotor_mixing.rs", "plant/rotor_lag.rs"],
  [("accelerations and midpoint tick", "dynamics/rigid_body.rs"), ("allocation and sharing out", "plant/multirotor_mixing.rs"), ("exact lag step", "plant/rotor_lag.rs")],
  REAL + "Inertia along the axes, or any multiple of three others; layouts of four to eight rotors listed in the evidence, whose fixed numbers are computed in double precision.", over=["inputs", "histories"]),
P("C16", "The random generator is the published one, uniform draws are in range",
  "For every seed and stream the generator's words are those of the published PCG-XSH-RR generator, the default stream is fixed, and different streams never share a state, so that a run repeats exactly. A uniform draw lies in the half-open unit interval and carries exactly the top 53 bits of two words, or the top 24 of one, in double and single precision. A value kept for the next normal draw is handed out once, unchanged.",
  "every 64-bit seed and stream, every pair of 32-bit words, every bit pattern kept",
  "tests compare one seed against stored words and sample the range; a truncated stream or a draw of exactly one needs particular bits",
  ["random.rs"],
  [("state step and output permutation", "random.rs"), ("bits to unit interval", "random.rs")],
  "Bit-precise: the compiled library (MIR through Kani to CBMC) is executed symbolically for every input, decided by cvc5 and cadical side by side; counterexamples are replayed natively. Three words after seeding, twelve in the thorough tier.",
  technique="Kani (CBMC symbolic execution of the compiler's MIR), verdict by cvc5 on bit-vectors or cadical, for every seed, stream and word", over=["inputs", "histories"]),
P("C43", "Normal draws are the polar pair of an accepted point",
  "Two successive normal draws are the two coordinates of a point in the open unit disc, uniform draws mapped to (-1, 1), stretched so that the sum of their squares is minus twice the logarithm of the point's squared distance, in the point's own direction. Points outside the disc and its centre are drawn again. The second draw of the pair takes no new uniform draws, and the third starts afresh.",
  "all uniform draws of two pairs, the first accepted or refused",
  "tests compare mean and variance of many draws; a pair that is correlated, a point kept from outside the disc or a draw handed out twice shifts them too little",
  ["random.rs"],
  [("polar method and the kept draw", "random.rs")],
  REAL + "At most one refused point.", over=["inputs", "histories"]),
P("C44", "Loaded robot models say exactly what the file says",
  "Loading an MJCF or URDF model keeps every body's name, parent, placement, inertia and joint as the file states them, parents before children: MJCF angles in degrees unless the compiler says radians, quaternions of any length, own attributes before the named class, that before the inherited childclass and that before the unnamed block, limits by range and the compiler's autolimits; inertia as stated or summed over the shapes that carry mass, turned into body axes; URDF origins by fixed-axis roll, pitch and yaw. Included files stand where they are named. The whole model, or the chain to one body, becomes a tree whose forward kinematics are the file's, and files that cannot be read faithfully are refused with the documented error.",
  "all numbers a file can state in the listed model shapes; every combination of the listed attributes and levels, every order of links and joints, every graph of three links",
  "tests load a dozen files; precedence of defaults, a unit applied to the wrong attribute, a turned or off-centre shape and an odd link graph each need the right combination",
  ["crates/multicalc-robot-model/src/lib.rs", "crates/multicalc-robot-model/src/mjcf/body.rs", "crates/multicalc-robot-model/src/mjcf/joint.rs", "crates/multicalc-robot-model/src/mjcf/geometry.rs", "crates/multicalc-robot-model/src/mjcf/defaults.rs", "crates/multicalc-robot-model/src/mjcf/document.rs", "crates/multicalc-robot-model/src/urdf/joint.rs", "crates/multicalc-robot-model/src/urdf/link.rs", "crates/multicalc-robot-model/src/urdf/tree.rs"],
  [("MJCF body walk and inertia", "crates/multicalc-robot-model/src/mjcf/body.rs"), ("shape integration", "crates/multicalc-robot-model/src/mjcf/geometry.rs"), ("defaults", "crates/multicalc-robot-model/src/mjcf/defaults.rs"), ("URDF link graph", "crates/multicalc-robot-model/src/urdf/tree.rs"), ("conversion to a tree", "crates/multicalc-robot-model/src/lib.rs")],
  REAL + "The loaders name f64: their source is read at build time and compiled with the engine's scalar in its place, and numbers in the text stand for symbolic values. Text and model shapes are the listed ones; quaternion lengths 0.01-100."),
P("C45", "A model written out as Rust source builds the same tree",
  "Running the Rust source a model is written out as gives the tree the model itself gives, whole or down to the named body: the same kinds, parents, places, turns, axes, anchors, limits, offsets and losses, every number the same in double precision and the nearest one in single. Slots and numbers are those asked for, or as many as the model needs, with six more for a free base. Header, documentation and function name stand where asked; no body name changes what the source does; too few slots, unknown bodies, followers and unusable joints are refused with the documented error.",
  "all numbers in a model with every kind of joint, with or without a free base, three tips, both precisions, the listed size choices and body names",
  "tests look for three fragments of text in one small file; a swapped, dropped or misplaced number in the source compiles and passes them",
  ["crates/multicalc-robot-model/src/codegen.rs", "crates/multicalc-robot-model/src/lib.rs"],
  [("source of one joint", "crates/multicalc-robot-model/src/codegen.rs"), ("sizes and refusals", "crates/multicalc-robot-model/src/codegen.rs"), ("joints and parents", "crates/multicalc-robot-model/src/lib.rs")],
  REAL + "The writer names f64: its source is read at build time and compiled with the engine's scalar in its place; a symbolic number is written @n and narrowing to single precision is an unspecified function that keeps zero and lengths near one. The written text is run by a small reader of the Rust it uses."),
]
