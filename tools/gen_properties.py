#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "A successful cut never discards a point it was told to keep",
  "Whenever an ellipsoid (plain or numerically stable representation) accepts a cut, every point of the old ellipsoid that satisfies the cut lies in the new ellipsoid, up to floating-point rounding. This holds for central, deep/shallow bias and discrete-search ('q') cuts, single or parallel, in every dimension from two up, whatever cuts came before.",
  ["inputs","histories"], "all ellipsoids (any centre, size, shape), all gradients and cut offsets in the documented domain, all sequences of cuts",
  "Unit tests apply one cut to a 4-dimensional sphere with gradient 0.5*ones; containment is never tested at all, and no test looks at the centre or shape after a second cut.",
  ["src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"],
  [("rank-one shape update, centre shift, kappa scaling","Ell::update_core; EllStable::update_core"),("rho/sigma/delta formulas","EllCalcCore")],
  [("xc, mq, kappa","centre, shape and scale of the ellipsoid","src/ell.rs, src/ell_stable.rs")],
  ["SearchSpace::{xc,tsq,update_*}"])
p("C02", "Every successful cut shrinks the ellipsoid at the guaranteed rate",
  "An accepted cut never increases the ellipsoid's volume. A central or deep cut in n dimensions reduces it by at least the factor exp(-1/(2(n+1))), and a parallel cut shrinks it at least as much as the single cut with the same near bound.",
  ["inputs","histories"], "all ellipsoids, cuts and cut sequences in the documented domain, n >= 2",
  "Tests compare three numbers for one 4-dimensional instance; the geometric-rate guarantee, which is what bounds the number of iterations, is never evaluated.",
  ["src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"],
  [("sigma/delta formulas","EllCalcCore"),("kappa and shape update","Ell::update_core; EllStable::update_core")],
  [("kappa, mq","determine the volume","src/ell.rs")], ["SearchSpace::{xc,tsq,update_*}"])
p("C03", "Cut parameters are those of the minimum-volume enclosing ellipsoid",
  "For every cut the calculator accepts, the centre step, shape reduction and scale factor it returns describe the smallest-volume ellipsoid containing the kept part of the old one. All the calculator's routes to the same cut (fast and original formulas, 'single or parallel' dispatch with or without a second bound, an inactive second bound, parallel cuts switched off) agree.",
  ["inputs","configurations"], "all dimensions n >= 2, all tau, all offsets, parallel cuts on or off",
  "Unit tests pin a handful of (beta0, beta1, tsq) triples for n=4; formulas that agree there and differ for other n or at negative/asymmetric offsets pass.",
  ["src/ell_calc.rs"],[("closed-form rho/sigma/delta","EllCalcCore::calc_*"),("route selection","EllCalc::calc_*")],
  [("use_parallel_cut","whether the second bound is used","src/ell_calc.rs")],["EllCalc::calc_*","EllCalcCore::calc_*"])
p("C04", "Cut verdicts are right and a refused cut changes nothing",
  "A cut is reported as having no solution exactly when no point of the ellipsoid satisfies it, and a discrete-search cut is reported as having no effect exactly when it cannot shrink the ellipsoid; every other cut with offsets in the documented range succeeds. When the verdict is not success, centre and shape are left exactly as they were.",
  ["inputs","histories"], "all ellipsoids, gradients, offsets (including contradictory, outside and boundary ones) and cut kinds",
  "Tests pin a few verdicts for one sphere; bounds lying wholly on the far side, sign-mixed bounds and other dimensions are not sampled.",
  ["src/ell_calc.rs","src/ell.rs","src/ell_stable.rs"],[("guards on beta, tau and eta","EllCalc::calc_*"),("early return before mutation","update_core")],
  [],["returned CutStatus; xc() and shape before/after"])
p("C05", "Plain, non-deferred and stable ellipsoids stay the same ellipsoid",
  "Started from the same ellipsoid and fed the same sequence of cuts, the plain representation, the plain one with deferral off, and the numerically stable one report the same verdicts and size measures and represent the same ellipsoid (centre and shape), up to rounding, after every step.",
  ["histories"], "all starting ellipsoids (scalar, diagonal, full matrix) and all cut sequences in the documented domain",
  "Each representation is tested alone, mostly for one step from a sphere; the stable one's tests never look at the centre after the second cut.",
  ["src/ell.rs","src/ell_stable.rs"],[("dense rank-one update","Ell::update_core"),("LDL^T factor update and triangular solves","EllStable::update_core")],
  [("mq of the stable representation","unit-triangular factor above the diagonal, D on it, scratch below","src/ell_stable.rs")],["SearchSpace::{xc,tsq,update_*}"])
p("C06", "The ellipsoid stays valid and is the one its constructor describes",
  "Each constructor builds exactly the ellipsoid it documents (scalar radius squared, diagonal, full matrix, covariance), and after any sequence of cuts the shape is finite, symmetric and positive definite. The size measure reported after a cut is the squared half-width, along that cut's gradient, of the ellipsoid as it was before the cut; moving the centre or copying the ellipsoid affects nothing else.",
  ["histories","inputs"], "all constructors and arguments with positive-definite shapes, all cut sequences, set-centre and clone operations at any point",
  "Constructor tests check stored fields for one instance and not the represented set; positive definiteness over histories is not tested.",
  ["src/ell.rs","src/ell_stable.rs"],[("constructors","Ell::new*, EllStable::new*"),("symmetric in-place update","update_core")],
  [("tsq","kappa * g' M g of the last cut","src/ell.rs")],["SearchSpace::{xc,tsq,set_xc}"])
p("C07", "Cuts do not depend on gradient scale, coordinates or origin",
  "Multiplying a cut's gradient and offsets by the same positive number gives the same resulting ellipsoid. Applying an invertible linear change of variables or a translation to ellipsoid and cuts, and then cutting, gives the transformed result of cutting first.",
  ["inputs","histories"], "all ellipsoids, cut sequences, positive scalings, invertible linear maps and translations",
  "Metamorphic relation between two runs; no test runs two related instances.",
  ["src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"],[("normalisation by omega = g'Mg","update_core")],[],["SearchSpace::{xc,tsq}"])
p("C08", "The feasibility loop returns only certified points and stops on time",
  "The feasibility driver asks the oracle at the current centre each round, applies the returned cut as a bias cut, and returns a point only if the oracle accepted exactly that point; otherwise it returns none. It stops at the first unsuccessful cut, the first time the size measure drops below the tolerance, or after the iteration limit, and reports the round it stopped in.",
  ["histories","configurations"], "all oracle answer sequences, all search-space verdict/size sequences, all iteration limits and tolerances",
  "Tests run two toy oracles; stop conditions, their order and the reported counts are not separated.",
  ["src/cutting_plane.rs"],[("feasibility loop","cutting_plane_feas")],[],["return value; calls seen by oracle and space"])
p("C09", "The optimisation loop returns the last improving point and stops on time",
  "The optimisation driver returns the centre at the most recent round in which the oracle reported an improvement (none if there was none), with the target left at the oracle's last value. Improving rounds use a central cut and the others a bias cut with the oracle's own cut, and it stops at the first unsuccessful cut, when the size measure is below tolerance, or at the iteration limit, reporting that round.",
  ["histories","configurations"], "all oracle answer sequences, space verdict/size sequences, iteration limits and tolerances",
  "Tests run a few convex toys to the end; orders in which improvement, failure and size coincide are not sampled.",
  ["src/cutting_plane.rs"],[("optimisation loop","cutting_plane_optim")],[],["return value; gamma; calls seen by oracle and space"])
p("C10", "The discrete loop retries with alternatives and keeps the best point",
  "The discrete-search driver returns the oracle's own reported point from the most recent improving round (none if none). After a no-effect cut it asks the oracle again with the retry flag set while the oracle still has alternatives, clears the flag after a successful cut, gives up when there are none or on a no-solution verdict, and stops at tolerance or the iteration limit, reporting that round.",
  ["histories","configurations"], "all oracle answer sequences (cut, improved, point, more-alternatives) and space verdict/size sequences, iteration limits and tolerances",
  "One discrete profit run pins an iteration count; the retry protocol itself is not tested.",
  ["src/cutting_plane.rs"],[("retry state machine","cutting_plane_optim_q")],[("retry","whether the oracle must offer an alternative cut","src/cutting_plane.rs")],["return value; calls seen by oracle and space"])
p("C11", "Bisection brackets the feasibility threshold and reports it",
  "Bisection on a monotone criterion leaves the caller's interval bracketing the threshold: the upper end was reported feasible or is the original one, the lower end was reported infeasible or is the original one, and it has halved once per query until its half-width is below tolerance or the iteration limit is hit. It reports feasible exactly when some queried value was feasible. The adaptor that answers queries by running the feasibility loop passes each target on, never lets a failed query disturb its ellipsoid, and after a success its centre is a point feasible for that target.",
  ["inputs","histories","configurations"], "all intervals, thresholds (inside, outside, at ends), tolerances, limits, and all feasibility oracles driven through the adaptor",
  "Tests check only the boolean and a round count for two intervals; the interval that carries the answer is never read back.",
  ["src/cutting_plane.rs"],[("interval halving","bsearch"),("clone, run, set centre","BSearchAdaptor::assess_bs")],[("interval","current bracket","bsearch argument")],["return value, interval argument, adaptor.space.xc()"])
p("C12", "Feasible problems get solved, infeasible ones are never claimed solved",
  "Given a convex feasibility problem whose solution set contains a ball of radius r inside the initial ellipsoid, the feasibility driver returns a point satisfying every constraint within the theoretical number of rounds, with either ellipsoid representation and with single or parallel cuts. On a problem with no solution it never returns a point.",
  ["inputs","configurations"], "all polyhedral/ball-constrained instances with a planted interior ball or a planted contradiction, all starting ellipsoids containing the ball",
  "Tests solve two or three fixed 2-variable problems.",
  ["src/cutting_plane.rs","src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"],[("whole method","cutting_plane_feas + Ell/EllStable")],[],["return value"])
p("C13", "Convex optimisation reaches the true optimum within tolerance",
  "On a convex problem with a known optimum inside the initial ellipsoid, the optimisation driver returns a feasible point whose objective value is the final target value and is within a tolerance-dependent gap of the true optimum, with either representation. Plain and stable runs agree on the result.",
  ["inputs","configurations"], "all linear and quadratic objectives over ball, box and polyhedral sets with known optimum, all starting ellipsoids containing it",
  "Tests solve a few fixed 2-variable problems and mostly assert only that something was found.",
  ["src/cutting_plane.rs","src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"],[("whole method","cutting_plane_optim + Ell/EllStable")],[],["return value, gamma"])
p("C14", "Factorisation decides definiteness and produces a true witness",
  "Factoring a symmetric matrix reports positive definite exactly when it is, and then its square root R satisfies R'R = A with R upper triangular. When it is not, the witness v, supported on the reported index range and ending in one, satisfies v'Av = -(reported value) <= 0, and the quadratic form it exposes for another matrix is v'Bv; the semidefinite-tolerant variant never rejects a positive semidefinite matrix and its rejections carry a strictly negative witness. Results do not depend on what the same object factored before; asking for a witness of an accepted matrix or the root of a rejected one is refused.",
  ["inputs","histories"], "all symmetric matrices of any size (definite, semidefinite, indefinite, singular), all reuse histories",
  "Tests factor about ten fixed 3x3-5x5 matrices.",
  ["src/oracles/ldlt_mgr.rs"],[("row-wise LDL^T with early stop","LDLTMgr::factor*"),("back substitution","LDLTMgr::witness")],[("pos","index range of the failing leading block","src/oracles/ldlt_mgr.rs"),("wit","witness vector","src/oracles/ldlt_mgr.rs")],["factor*, is_spd, witness, sym_quad, sqrt"])
p("C15", "LMI oracles accept exactly feasible points and cut validly otherwise",
  "A linear-matrix-inequality oracle accepts a point exactly when the matrix inequality holds there strictly, and otherwise returns a cut that the point violates or touches and that every feasible point satisfies. The lazy, the matrix-building and the constant-free oracles give the same answers on the same problem, in any query order.",
  ["inputs","histories"], "all symmetric coefficient matrices, dimensions, and query sequences",
  "Tests run one 3-variable instance end to end and check only found/not found.",
  ["src/oracles/lmi_oracle.rs","src/oracles/lmi_old_oracle.rs","src/oracles/lmi0_oracle.rs","src/oracles/ldlt_mgr.rs"],[("witness-based cut","assess_feas")],[],["assess_feas result"])
p("C16", "The lowpass oracle enforces its spectral mask and its cuts are valid",
  "The lowpass-filter oracle accepts coefficients exactly when the sampled response is within the passband bounds, nonnegative and at most the stopband bound, and otherwise returns a parallel cut that the query violates and that every mask-satisfying filter obeys. In optimisation an accepted query lowers the stopband target to that filter's peak stopband response and every strictly better filter obeys the returned cut; the standard test case describes a satisfiable mask and is solved to a filter meeting it.",
  ["inputs","histories","configurations"], "all filter orders, band edges, mask levels and query sequences",
  "Tests call the oracle once or twice and discard the result of the full run.",
  ["src/oracles/lowpass_oracle.rs"],[("round-robin scan of the frequency grid","LowpassOracle::assess_feas"),("target update","LowpassOracle::assess_optim")],[("idx1, idx2, idx3","scan positions kept between queries","src/oracles/lowpass_oracle.rs")],["assess_feas, assess_optim"])
p("C17", "Profit oracles report true profit and cut only worse plans",
  "At a plan within capacity whose profit beats the target, the profit oracle sets the target to exactly that profit and reports improvement; otherwise it returns a cut. Every plan that is within capacity and strictly beats the target satisfies every returned cut; the robust oracle does the same for the worst-case profit over its parameter intervals, and solving reaches the maximum profit.",
  ["inputs","histories"], "all prices, scales, capacities, elasticities, uncertainty intervals, plans, targets and query orders",
  "Tests solve one textbook instance and compare three digits.",
  ["src/oracles/profit_oracle.rs"],[("constraint round-robin","ProfitOracle::assess_feas"),("worst-case elasticities","ProfitRbOracle::assess_optim")],[("idx","next constraint to examine","src/oracles/profit_oracle.rs")],["assess_optim"])
p("C18", "The discrete profit oracle returns whole-unit plans with true profit",
  "When the discrete profit oracle reports an improvement, the reported plan has positive whole-number quantities, is within capacity, and its profit is exactly the new target, which never decreases. A retry re-examines the same rounded plan and never promises further alternatives, and no returned cut excludes a better whole-unit plan.",
  ["inputs","histories"], "all parameters, query points, targets and retry sequences",
  "One run is pinned to an iteration count; the reported plan is never examined.",
  ["src/oracles/profit_oracle.rs"],[("rounding and cut transport","ProfitOracleQ::assess_optim_q")],[("yd","last rounded plan (logarithms)","src/oracles/profit_oracle.rs")],["assess_optim_q"])
p("C19", "The SVM oracle finds the worst sample and separates separable data",
  "The SVM oracle reports the smallest signed margin over all samples and, as cut, the negated labelled sample (with the bias component) of a sample attaining it with that margin as offset; zero target with a null cut exactly when all margins are at least one. On linearly separable data the optimisation driver ends with a classifier that separates every sample with margin one.",
  ["inputs"], "all data sets, labellings, feature counts and classifiers",
  "Tests use one four-sample data set and check only that something is returned.",
  ["src/oracles/svm_oracle.rs"],[("minimum-margin scan","SvmOracle::assess_optim")],[],["assess_optim"])
p("C20", "Max-cut targets are values of real cuts and never decrease",
  "The max-cut oracle evaluates the cut given by the signs of the query, reports improvement exactly when its weight exceeds the target and then sets the target to that weight, and returns the negated weight-of-crossing-edges gradient. After any run the target equals the weight of the cut of the returned point and never exceeds the true maximum cut.",
  ["inputs","histories"], "all symmetric weight matrices, query points, targets and runs",
  "Tests use a three-node graph and check only that a value is found.",
  ["src/oracles/maxcut_oracle.rs"],[("sign rounding, pair scan","MaxcutOracle::assess_optim")],[],["assess_optim"])
p("C21", "The quasiconvex example oracle is exact and reaches the known optimum",
  "The quasiconvex example oracle reports improvement exactly at feasible points whose ratio is at least the target and sets the target to that ratio; otherwise its cut is violated by the query and satisfied by every feasible point with a better ratio. From any suitable starting ellipsoid the driver reaches the analytic maximum.",
  ["inputs","histories","configurations"], "all query points and targets, all query orders, all starting ellipsoids containing the optimum",
  "Tests run one or two starting ellipsoids and compare the iteration count.",
  ["src/quasicvx.rs"],[("constraint round-robin","MyOracle::assess_optim")],[("idx","next constraint","src/quasicvx.rs")],["assess_optim"])
p("C22", "Array algebra matches ordinary vector and matrix arithmetic",
  "Every array operation (construction, indexing, elementwise and scalar arithmetic in all ownership forms, products, outer product, symmetric rank-one update, reductions, maps, ranges) computes what ordinary vector/matrix arithmetic gives, with the expected shape, for any sizes. Operands passed by reference are not modified and mismatched sizes, matrices where a vector is needed and out-of-range rows are rejected instead of producing a value.",
  ["inputs","histories"], "all shapes (including empty, single, rectangular), all values, all operation sequences",
  "Tests use 2-5 element vectors and square matrices; rectangular matrices and mismatches are barely touched.",
  ["src/arr.rs"],[("flat row-major storage","Arr")],[("rows, cols","shape; zero columns means vector","src/arr.rs")],["Arr API"])
p("C23", "Conjugate gradient solves every positive-definite system it accepts",
  "For a symmetric positive-definite matrix, conjugate gradient returns a vector whose residual is below the tolerance whenever the iteration limit allows the method to converge, from any starting guess including an exact one. For positive-definite and singular diagonal matrices it returns an error rather than a vector whose residual is not below the tolerance, and the answer does not depend on the inputs being otherwise used.",
  ["inputs","configurations"], "all well-conditioned SPD systems of any size, right-hand sides (including zero), starting guesses, tolerances, limits",
  "Tests solve a few fixed systems of size 2-5 from the zero guess.",
  ["src/conjugate_gradient.rs"],[("CG recurrence","conjugate_gradient")],[],["returned Result"])
p("C24", "All power-iteration variants find the dominant eigenpair",
  "For a symmetric matrix with a separated dominant eigenvalue and a start not orthogonal to its eigenvector, all four variants converge to that eigenvalue (with its sign) and leave a unit-length dominant eigenvector in the argument. The returned value is always the Rayleigh quotient of the vector left behind, which has unit length even when the iteration limit stops the run; a run stops at the first iterate whose change (of the normalised vector up to sign, or of the Rayleigh quotient for the two value-based variants) is within tolerance, and the reported count never exceeds the limit.",
  ["inputs","configurations"], "all symmetric matrices with a spectral gap (either sign, any scale), starts, tolerances and limits",
  "Tests use one 3x3 matrix.",
  ["src/power_iteration.rs"],[("normalise-multiply loop","power_iteration{,2,3,4}")],[],["returned pair, final vector"])
p("C25", "Python port: drivers follow the protocol and bisection brackets",
  "The Python drivers query the oracle at the current centre, pass its cut on unchanged as a bias cut, and stop with the space's own verdict, on acceptance, below tolerance or at the iteration limit, reporting that round. Python bisection keeps the threshold bracketed, halves once per query, and returns the midpoint of the final bracket.",
  ["histories","configurations"], "all oracle/space scripts, limits, tolerances, intervals and thresholds",
  "The Python driver tests do not even import at this commit.",
  ["python_ai/ellalgo/cutting_plane.py"],[("loops","cutting_plane_feas, cutting_plane_optim, cutting_plane, binary_search")],[],["return values; calls seen"])
p("C26", "Python port: ellipsoid bookkeeping is consistent and inputs are untouched",
  "The Python ellipsoid rejects malformed shapes, never modifies or aliases the caller's arrays, and reports as size measure the scaled quadratic form of the gradient. A cut whose verdict is not success changes neither centre, shape nor scale, and a successful one applies exactly the step, symmetric rank-one reduction and scaling its calculator returned for that cut kind, with deferral only moving the scale into the shape.",
  ["inputs","histories"], "all ellipsoids, gradients, offsets (single, parallel, pair with no second bound), cut kinds and sequences",
  "Python tests check one update each and accept any status.",
  ["python_ai/ellalgo/ell.py","python_ai/ellalgo/ell_calc.py"],[("update","Ell._update_core"),("dispatch on cut kind","Ell.update_*, EllCalc.calc_single_or_parallel_*")],[("xc, mq, kappa, tsq","ellipsoid state","python_ai/ellalgo/ell.py")],["attributes and return status"])
p("C27", "Python port: oracles classify correctly and give true gradients",
  "The Python matrix-inequality oracle accepts a point exactly when the matrix is positive semidefinite and otherwise returns the minimum eigenvalue with the derivative of that eigenvector's quadratic form, so that the linearisation bounds the form at every other point. The Python profit oracle flags capacity violations with their exact amount, computes the true profit and its true negative gradient, and declares optimality only at stationary plans within capacity.",
  ["inputs"], "all symmetric matrices and points; all economic parameters and plans",
  "Python tests evaluate one point each.",
  ["python_ai/ellalgo/oracles/lmi_oracle.py","python_ai/ellalgo/oracles/profit_oracle.py"],[("eigen decomposition","LmiOracle.assess_feas"),("profit model","ProfitOracle")],[],["assess_feas, assess_optim"])
p("C28", "Diagnostics carry the values they report",
  "Every error's message contains its own reason or detail text, counts and, when present, value, and identifies its kind distinctly; cut verdicts print distinctly. Equal errors compare equal, clones compare equal and errors differing in any field compare different.",
  ["inputs"], "all field values including empty and non-ASCII text, extreme numbers, present or absent values",
  "Tests print a few fixed errors.",
  ["src/error.rs","src/cutting_plane.rs"],[("Display implementations","EllipsoidError, CutStatus")],[],["Display output"])
p("C29", "Python port: cut verdicts, routes and units of the calculator are consistent",
  "In the Python cut calculator a nonpositive size measure is no-effect for every cut kind; a single bias or discrete cut is no-solution for a nonnegative offset, no-effect at or beyond minus the half-width and otherwise succeeds; a two-sided one is no-solution exactly when the product of its offsets is not positive. The combined entry points agree exactly with the single or two-sided ones, refused cuts return identity parameters, and a successful single cut has a negative step within the half-width, a positive reduction and a scale factor (n/(n+1))^2 (1 - alpha^2) that do not depend on the unit of length, the discrete variant moving no further than the plain one.",
  ["inputs"], "all dimensions from two up, offsets (on, near and off the boundaries), size measures (positive, zero, negative) and units",
  "Python tests evaluate one offset per verdict in dimension two.",
  ["python_ai/ellalgo/ell_calc.py"],[("guards","EllCalc.calc_*"),("dispatch","EllCalc.calc_single_or_parallel_*")],[],["return values of EllCalc.calc_*"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in P))
print(len(P))
