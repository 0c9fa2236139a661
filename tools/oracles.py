ORACLE = {
"C01": "Oracle: the calculus rules written out (value, first and second parts, Taylor coefficients), with elementary functions as uninterpreted atoms tied to each other only by their identities. Nested types are compared with the un-nested ones.",
"C02": "Oracle: polynomials with symbolic coefficients whose derivatives are written by hand; every index pattern; out-of-range indices and orders must be the documented error.",
"C03": "Oracle: A A^-1 = 1, P A = L U, determinant by Laplace expansion; refusal exactly when the determinant is small against the stated scale.",
"C04": "Oracle: L L^T = A with positive diagonal, refusal exactly when a leading minor (Sylvester) is not positive; Q^T Q = 1, Q R = A; normal equations of least squares.",
"C05": "Oracle: inputs built as U S V^T or V D V^T from symbolic spectra and rational rotations, so the answer is known; definitions of rank, condition and the four Penrose equations.",
"C06": "Oracle: index definitions of the products, e^A from its series on nilpotent matrices and e^A e^-A = 1, residuals of the Lyapunov and Riccati equations.",
"C07": "Oracle: v -> q v q* expanded, group laws, Euler composition axis by axis, round trips away from the documented cuts.",
"C08": "Oracle: the exponential of a twist from its definition (rotation about the axis, V matrix), homomorphism laws with matrices, log(exp) and exp(log), least-squares meaning of two pairs.",
"C09": "Oracle: motion and force transforms by cross products, power invariance, parallel-axis theorem, momentum and energy from point mechanics.",
"C10": "Oracle: the documented recurrence re-implemented from the text (proportional, integral with conditional anti-windup, filtered derivative, clamp), compared over operation sequences.",
"C11": "Oracle: orthonormal frame with z along the wanted thrust, heading in the stated half-plane, torque as the stated law; refusals when directions vanish.",
"C12": "Oracle: circle through the robot and the target, widest admissible gap by exhaustive symbolic comparison, Riccati-based gain equation.",
"C13": "Oracle: the difference equation, linearity, steady state, composition of sections; all memories free.",
"C14": "Oracle: Jury conditions for stability, closed-form gains at DC, Nyquist and the centre, |H| and arg H from the coefficients.",
"C15": "Oracle: definitions (sorted middle, mean of the window, least-squares polynomial through the window, rate limit, dead zone, two thresholds).",
"C16": "Oracle: a transcription of the published C reference; exact integer statements about the bits of uniform draws.",
"C17": "Oracle: textbook predict and update equations in matrix form, Joseph form symmetric and positive, scripted models, sigma-point moments of affine and quadratic maps.",
"C18": "Oracle: nominal kinematics, first-order error transition obtained by symbolic differentiation of the composed motion, injection and reset round trip.",
"C19": "Oracle: cumulative weights and the draw that falls in each, normalization and effective size, scripted random source; scan likelihood from its definition.",
"C20": "Oracle: the published filter laws with symbolic gains and readings; agreement with the reference attitude when readings agree.",
"C21": "Oracle: Taylor expansion of the flow to the method's order with uninterpreted right-hand sides, error control rule, Hermite conditions, grid nodes reached exactly.",
"C22": "Oracle: exact integrals of polynomials up to each rule's degree, change of variables for infinite limits, sums of the published nodes.",
"C23": "Oracle: difference quotient of an uninterpreted function; exactness on polynomials to the scheme's degree.",
"C24": "Oracle: bracket invariants, residual at the answer within tolerance, documented stopping reason, scripted (arbitrary) function values.",
"C25": "Oracle: coefficient algebra, interpolation conditions, endpoint conditions, orthogonality of least-squares residuals.",
"C26": "Oracle: polynomials built from symbolic roots of every multiplicity pattern; count and order of returned roots; Cauchy bound.",
"C27": "Oracle: the covering piece by comparison with the knots, additivity and sign of integrals; term-by-term polynomial algebra.",
"C28": "Oracle: kinematic integrals between phases, end conditions, limits at every symbolic time, least duration by monotonicity.",
"C29": "Oracle: way points, boundary derivatives, continuity to the sixth derivative (the stationarity condition), leg durations.",
"C30": "Oracle: distance to every point of every leg (a symbolic parameter), arc length re-walked.",
"C31": "Oracle: half-open squares; a ray against every cell by interval arithmetic on the crossing parameters, obstacles chosen lazily as the code asks; drawn cells against the geometry of the shape.",
"C32": "Oracle: linear spacing; nearest by comparing with every beam.",
"C33": "Oracle: homogeneous matrices multiplied from the definition of each joint; Jacobian columns by symbolic differentiation (dual numbers) and by the cross-product rule.",
"C34": "Oracle: re-computed error at the returned configuration, closed-form damped step on arms whose step is rational, null-space conditions, normal equations of the damped inverse.",
"C35": "Oracle: point-to-segment distance by clamping; segment-to-segment as the least over the nine regions.",
"C36": "Oracle: circle of radius length/turn in rational half-angle form; its limit; linear wheel equations.",
"C37": "Oracle: m(a - g) = R f at the balance point and I a + w x I w = t - c x f; rotor cross products; c + (x0 - c) e^(-h/tau).",
"C38": "Oracle: augmented exponentials summed exactly on nilpotent chains, closed-form white-noise covariances, semigroup law.",
"C39": "Oracle: normal equations on linear problems; on scripted (arbitrary) residuals and slopes, the accepted-step and damping rules.",
"C40": "Oracle: Taylor polynomial with symbolic coefficients, central differences, error metrics by definition.",
"C41": "Oracle: hand-derived curl, divergence and work of polynomial fields; Green's theorem on a symbolic rectangle.",
"C42": "Oracle: the exact sum of all terms, as a linear form in which every term has coefficient one.",
"C44": "Oracle: the numbers written into the text; textbook tensors of solids; homogeneous matrices; the link graph searched independently. The loaders are not generic, so a build script reads their source from /repo, replaces the type f64 by the symbolic scalar (float literals become its constants, nothing else changes) and compiles the result; an attribute written @n reads as symbolic value n. Native replay loads the same text through the crate itself.",
"C45": "Oracle: the tree RobotModel::kinematic_tree gives for the same file. The writer's source is compiled over the symbolic scalar as for C44, so the text it produces carries symbolic values as tokens; the text is parsed as Rust and run by a small interpreter that calls the crate's own Joint, SE3 and KinematicTree, and anything a compiler would refuse or that would panic is a violation. Native replay runs the text the crate itself writes.",
"C43": "Oracle: a^2 + b^2 = -2 ln r, a y = b x with matching signs, number of uniform draws taken.",
}
