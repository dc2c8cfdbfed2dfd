#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here so that it stays diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

DP = ["src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/stages.rs", "src/dorm_prince/dp5/error.rs",
      "src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/constants.rs"]
RA = ["src/radau/algorithm.rs", "src/radau/newton.rs", "src/radau/dec.rs", "src/radau/linear_solve.rs",
      "src/radau/error_estimate.rs", "src/radau/step_size_control.rs", "src/radau/constants.rs"]
OD = ["src/ode/integrator.rs", "src/ode/solution.rs", "src/ode/statistics.rs", "src/ode/options.rs"]

p("C01", "The explicit solver delivers the accuracy the user asked for",
  "Integrating a smooth, non-stiff, well-conditioned initial-value problem with the Dormand-Prince solver ends with Success at the final time, for any dimension, time span, direction, tolerances that resolve the solution and step-control options in their documented ranges. "
  "Every recorded state then differs from the exact solution by no more than a fixed modest multiple of the requested tolerance (abstol + reltol*|u|, accumulated over the steps taken and amplified by no more than the problem's own conditioning). "
  "Each single step's true local error likewise stays within a modest multiple of the tolerance.",
  ["inputs", "configurations"],
  "all right-hand sides with a known exact solution from the generated families (linear blocks, rotations, forced, logistic, Gaussian, tangent-free nonlinear), dimensions 1..16, tolerances 1e-2..1e-11, spans of both signs, all option combinations",
  "test_ho checks one 2-dimensional oscillator at one tolerance with a factor 10; test_balldrop asserts nothing.",
  DP + ["src/ode/integrator.rs"],
  [("embedded 5(4) Runge-Kutta stages", "src/dorm_prince/dp5/stages.rs"), ("weighted RMS error test", "src/dorm_prince/dp5/error.rs"), ("accept/reject", "src/dorm_prince/dp5/prepare.rs")],
  ["recorded solution (ts, us, retcode)"])

p("C02", "The implicit solver delivers the requested accuracy, stiff or not",
  "Integrating a smooth well-conditioned initial-value problem, stiff or non-stiff, with the Radau solver ends with Success at the final time for any dimension, span, direction, tolerances that resolve the solution and options in their documented ranges, with a user-supplied or a finite-difference Jacobian. "
  "Every recorded state differs from the exact solution by no more than a fixed modest multiple of the requested tolerance, and stiffness costs no accuracy or excessive work: the number of steps stays bounded as the stiffness ratio grows. (For nonlinear problems this is with the default choice of Newton starting values.)",
  ["inputs", "configurations"],
  "generated linear, forced, Prothero-Robinson and nonlinear problems with exact solutions, decay rates up to 1e10, dimensions 1..12, tolerances 1e-2..1e-10, both directions where well posed, all option combinations",
  "The only Radau test integrates one van der Pol problem and prints it; it asserts nothing, not even the return code.",
  RA + ["src/linalg/dec.rs", "src/linalg/sol.rs", "src/ode/jacobian.rs"],
  [("simplified Newton on the collocation equations", "src/radau/newton.rs"), ("filtered error estimate", "src/radau/error_estimate.rs"), ("step control", "src/radau/step_size_control.rs")],
  ["recorded solution (ts, us, retcode)", "right-hand-side call count"])

p("C03", "Every accepted explicit step is a Dormand-Prince 5(4) step within tolerance",
  "Each step the Dormand-Prince solver accepts advances the state by exactly the fifth-order Dormand-Prince formula (up to rounding) from the state, time and parameters it started from, and its time advances by exactly the step size used. "
  "A step is accepted only if the embedded error estimate, in the root-mean-square norm over all components weighted by abstol + reltol*max(|u_old|,|u_new|), does not exceed one, and is retried only if it does.",
  ["inputs", "histories", "configurations"],
  "every step of every generated problem (smooth, kinked, discontinuous, stiff, autonomous or not), option set, direction and history of rejections",
  "test_ho looks at one trajectory with a 10*reltol band; a wrong stage time, coefficient or skipped component passes on autonomous two-component problems.",
  DP, [("stage evaluation", "src/dorm_prince/dp5/stages.rs"), ("error norm", "src/dorm_prince/dp5/error.rs"), ("accept/reject and first-same-as-last reuse", "src/dorm_prince/dp5/prepare.rs")],
  ["public integrator state before and after each step"])

p("C04", "Every accepted implicit step solves the Radau IIA equations within tolerance",
  "Each step the Radau solver accepts satisfies the three-stage Radau IIA collocation equations for the state, time, parameters and step size it started from, up to the Newton tolerance requested by the options, whatever happened on the attempts before it (for nonlinear problems, where the stopping rule only estimates the remaining error, in the great majority of a run's steps). "
  "A step is accepted only if the solver's filtered error estimate, formed with the Jacobian in use and weighted by the effective tolerances, is below one (for a first or retried step, the re-filtered estimate).",
  ["inputs", "histories", "configurations"],
  "every step of every generated problem (linear, stiff, nonlinear, discontinuous), with Newton failures, kept and refreshed factorizations and Jacobians, all options, both directions",
  "No assertion exists on any Radau step; reuse of matrices across steps is never exercised against an oracle.",
  RA + ["src/linalg/dec.rs", "src/linalg/sol.rs"],
  [("simplified Newton", "src/radau/newton.rs"), ("matrices rebuilt when the step changes", "src/radau/algorithm.rs, src/radau/dec.rs"), ("error estimate", "src/radau/error_estimate.rs")],
  ["public integrator state before and after each step", "logged Jacobian evaluations"])

p("C05", "Integration always ends, and the return code says truthfully how",
  "For every right-hand side, including ones that blow up, become undefined or chatter, integration finishes after a bounded number of evaluations without panicking and leaves a return code other than Continue. "
  "Success is reported exactly when the current time has reached the requested final time; a run that exhausts its step budget reports MaxIters and one whose step size underflows, to ten roundings of the current time or less, reports DtLessThanMin without attempting that step (Dormand-Prince: unless it ends the span). "
  "Once finished an integrator is inert: further stepping or integrating changes neither the recorded solution, the state, the statistics nor the return code and invokes no user function.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "all generated problems plus finite-time blow-up, domain errors, injected non-finite values at any call, tiny step budgets, any valid options, any number of calls after completion",
  "All tests are well behaved and finish; none looks at the return code and none steps after the end.",
  DP[:1] + ["src/dorm_prince/dp5/prepare.rs", "src/radau/algorithm.rs", "src/radau/dec.rs", "src/radau/newton.rs", "src/ode/integrator.rs", "src/ode/code.rs"],
  [("minimum step test", "src/dorm_prince/dp5/algorithm.rs, src/radau/algorithm.rs"), ("step budget", "same"), ("completion guard", "src/ode/integrator.rs")],
  ["return code", "number of user-function calls", "state before/after calls on a finished integrator"])

p("C06", "The recorded solution is a faithful log of the accepted steps",
  "The recorded solution starts with the initial time and state, has one time per state, gains exactly one entry per accepted step and none for rejected or failed ones, and its times advance strictly in the direction of integration and never pass the final time. "
  "After each accepted step the previous time, state and step size describe the point that step started from, and the newest entry is the state the step produced. "
  "Iterating over a solution yields exactly these entries in order.",
  ["inputs", "histories", "configurations"],
  "all generated problems, options, directions, spans (including ones crossing zero and far from zero), with rejections and failures, for both solvers",
  "Existing tests iterate and print; lengths, order, end point and previous-state fields are never checked.",
  OD + ["src/dorm_prince/dp5/algorithm.rs", "src/radau/step_size_control.rs"],
  [("append on accept", "src/dorm_prince/dp5/algorithm.rs, src/radau/step_size_control.rs"), ("solution iterators", "src/ode/solution.rs")],
  ["recorded solution after every step", "solution iterators"])

p("C07", "Backward integration is the mirror image of forward integration",
  "Integrating from a later to an earlier time is equivalent to integrating the time-reversed problem forward: same return code, same number of points and statistics, mirrored times and step sizes, and equal states. "
  "This holds for both solvers, any span and any options.",
  ["inputs", "configurations"],
  "pairs (problem, mirrored problem) over all generated problems, spans, options, both solvers, with user or finite-difference Jacobians",
  "No test integrates backward.",
  ["src/ode/integrator.rs", "src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/prepare.rs", "src/radau/algorithm.rs", "src/radau/step_size_control.rs"],
  [("direction sign applied to the first step, the end test and every proposed step", "src/ode/integrator.rs, */algorithm.rs, prepare.rs, step_size_control.rs")],
  ["recorded solutions of paired runs"])

p("C08", "Step sizes honour the user's limits and never leave the time span",
  "The first attempted step has the size of the requested initial step, of either sign (in the direction of integration, capped at the maximum step and the remaining span), no accepted step exceeds the maximum step apart from the small stretch (1%, or one over the keep-step ratio for Radau, also when the stretched step is retried) that absorbs a sliver at the end of the span, and consecutive steps never grow or shrink beyond the configured ratios unless cut by a rejection or the end of the span. "
  "A step following a rejected one does not grow. "
  "User functions are evaluated only at times between the initial and the final time.",
  ["inputs", "histories", "configurations"],
  "all generated problems and histories of rejections, any valid initial step, maximum step, ratio limits and safety factor, both solvers and directions",
  "No test sets a step-size option or looks at step sizes or evaluation times.",
  ["src/ode/integrator.rs", "src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/step_size_control.rs", "src/radau/algorithm.rs"],
  [("step proposal with clamps", "src/dorm_prince/dp5/prepare.rs, src/radau/step_size_control.rs"), ("end-of-span clamp", "*/algorithm.rs")],
  ["accepted step sizes", "times passed to user functions"])

p("C09", "Non-finite values from the model never contaminate the solution",
  "If the right-hand side returns NaN or infinity, permanently beyond some boundary or for any single evaluation of an attempted step, no non-finite state or time is ever recorded and the integration never reports Success beyond the point where the model is defined (a boundary crossed within the very last step of an otherwise complete span aside). "
  "A transient non-finite evaluation inside a step attempt only causes a retry with a smaller step: the run still reaches the end with its usual accuracy.",
  ["inputs", "fault_sequences"],
  "fault injection at every evaluation index, in any component, NaN or either infinity, and domain boundaries in time and state, for both solvers",
  "No test ever returns a non-finite value.",
  ["src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/error.rs", "src/radau/newton.rs", "src/radau/error_estimate.rs", "src/radau/step_size_control.rs"],
  [("an unordered error estimate counts as rejection", "prepare.rs, step_size_control.rs"), ("a non-finite Newton update counts as divergence", "src/radau/newton.rs")],
  ["recorded solution", "return code"])

p("C10", "Statistics count the work that actually happened",
  "At any time after building, the accepted-step count equals the number of recorded steps; the function-evaluation count equals the right-hand-side calls made since building other than those inside finite-difference Jacobians; and the Jacobian count equals the number of Jacobians evaluated since building. "
  "The rejected-step count equals the number of attempts rejected by the error test after the first acceptance; step, decomposition and linear-solve counts never decrease and are consistent with the evaluations observed (explicit: six per attempt; implicit: three per linear solve, and one decomposition per attempt except for one that keeps the step size and Jacobian of the accepted step before it).",
  ["inputs", "histories", "configurations"],
  "after every step of every generated run (callbacks, rejections, Newton failures, failures), both solvers, user or finite-difference Jacobian",
  "No test reads the statistics.",
  ["src/ode/statistics.rs", "src/dorm_prince/dp5/stages.rs", "src/dorm_prince/dp5/prepare.rs", "src/radau/newton.rs", "src/radau/step_size_control.rs", "src/radau/error_estimate.rs", "src/radau/dec.rs"],
  [("counter updates beside each user call", "listed files")],
  ["statistics fields vs logged user-function calls"])

p("C11", "A callback runs once per step and its changes take full effect",
  "The user's callback runs exactly once after each step taken, sees the state the step produced together with the previous state, and its change of state or parameters is what the next step starts from, including the derivative used there; a return code it sets ends the integration. "
  "A callback that changes nothing does not change the solution.",
  ["inputs", "histories"],
  "callbacks that jump, reflect, rescale, reset or switch parameters at any subset of steps, or stop the run, on all generated problems with both solvers",
  "test_balldrop has a callback but asserts nothing.",
  ["src/ode/integrator.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/algorithm.rs"],
  [("callback after the algorithm's step", "src/ode/integrator.rs"), ("derivative refreshed when a callback is installed", "*/algorithm.rs")],
  ["callback invocations", "state before/after each step"])

p("C12", "The solution does not depend on how or where the integrator is driven",
  "Driving the same problem by integrate, by repeated single steps, by the consuming or the borrowing iterator, interleaved with other integrators or on another thread records bit-identical solutions, statistics and return codes, and repeated runs are bit-identical. "
  "The iterators yield every accepted step's time and state, including the final one, with the state as the callback left it, and then end; a single step returns the step count while the integration goes on and nothing once it has ended; started or left in the middle of a run they yield the steps taken through them. "
  "Requesting dense output does not change the recorded solution.",
  ["histories", "schedules", "configurations"],
  "all generated problems, all driving styles and mixtures of them (switching midway), interleavings of several integrators and threads, dense output on or off",
  "Each test uses one driving style once.",
  ["src/ode/integrator.rs", "src/ode/solution.rs", "src/dorm_prince/dp5/dense.rs", "src/radau/step_size_control.rs"],
  [("all drivers delegate to the single step function", "src/ode/integrator.rs"), ("all working memory owned by the integrator", "cache.rs files")],
  ["recorded solutions", "yielded items"])

p("C13", "Dense factor-and-solve returns the solution or reports singularity",
  "For every non-singular square matrix, real or complex, of any size, factorization reports success and the solve returns a solution with backward error of the order of rounding, for any right-hand side and any number of right-hand sides. "
  "A matrix found exactly singular at any elimination stage, including the first and the last, is reported with the number of that stage, counted from one.",
  ["inputs"],
  "random, graded, permuted, badly scaled, tiny-pivot and structured matrices of size 1..40, purely real, purely imaginary and mixed; exactly singular matrices for every stage",
  "One 3x3 system per routine is tested; singularity is never tested.",
  ["src/linalg/dec.rs", "src/linalg/sol.rs"],
  [("Gaussian elimination with partial pivoting", "src/linalg/dec.rs"), ("forward/back substitution", "src/linalg/sol.rs")],
  ["residual of the computed solution", "return code"],
  hook="guarded re-export of the crate-private linear algebra")

p("C14", "Banded and Hessenberg factor-and-solve agree with the dense solution",
  "For every non-singular banded or Hessenberg matrix, real or complex, with any valid bandwidths, factorization reports success and the solve returns a solution with backward error of the order of rounding; exact singularity at any stage is reported with the number of that stage, counted from one. "
  "Reduction to Hessenberg form is a similarity transformation of the original matrix, reproducible from the stored multipliers and interchanges.",
  ["inputs", "configurations"],
  "random, tiny-pivot and badly scaled matrices of size 1..24, every lower/upper bandwidth, exactly singular ones",
  "Only one 4x4 real Hessenberg system is tested; the source says TODO for the others.",
  ["src/linalg/dec.rs", "src/linalg/sol.rs"],
  [("banded/Hessenberg elimination", "src/linalg/dec.rs"), ("substitution", "src/linalg/sol.rs")],
  ["residual of the computed solution", "return code"],
  hook="guarded re-export of the crate-private linear algebra")

p("C15", "The built-in finite-difference Jacobian matches the true Jacobian",
  "When the user supplies no Jacobian, the numerical Jacobian agrees with the analytic one, entry by entry in the right position, to the accuracy a one-sided difference allows, for states of any sign and magnitude, and leaves the state unchanged; a supplied Jacobian is used as is. "
  "Implicit integration with and without a supplied Jacobian therefore gives solutions that agree within tolerance with comparable work.",
  ["inputs"],
  "random smooth right-hand sides, dimensions 1..12, component magnitudes 1e-8..1e8 of either sign, state and time derivatives, and paired integrations",
  "No test runs without a supplied Jacobian.",
  ["src/ode/jacobian.rs", "src/radau/algorithm.rs", "src/radau/newton.rs", "src/radau/step_size_control.rs"],
  [("one-sided differences with magnitude-scaled increments", "src/ode/jacobian.rs")],
  ["Jacobian matrices", "states at which the right-hand side is probed", "recorded solutions of paired runs"],
  hook="guarded re-export of the crate-private Jacobian routines")

p("C16", "Dense output interpolates each accepted step",
  "With dense output requested, the interpolant of either solver reproduces the recorded states at both ends of the last accepted step and, inside a step that resolves the solution, generally stays within a modest multiple of the tolerance of the true solution; it is the interpolation polynomial of the method (exact for solutions that are polynomials of degree up to four for Dormand-Prince and three for Radau).",
  ["inputs", "configurations"],
  "every accepted step of generated problems with dense output on, at random interior points, both solvers and directions",
  "Dense output is never called by a test.",
  ["src/dorm_prince/dp5/dense.rs", "src/radau/continuous_output.rs", "src/radau/step_size_control.rs"],
  [("continuous-output coefficients", "src/dorm_prince/dp5/dense.rs, src/radau/step_size_control.rs"), ("evaluation", "src/dorm_prince/dp5/dense.rs, src/radau/continuous_output.rs")],
  ["interpolant values"],
  hook="guarded public wrapper around the crate-private dense-output routines")

p("C17", "Linear invariants, equilibria and low-degree polynomials are preserved exactly",
  "Along every computed solution, any linear quantity the model conserves stays constant to rounding, an equilibrium stays put, and a right-hand side that is a polynomial in time of degree at most four is integrated exactly to rounding, at any tolerance, step size and option setting, for both solvers.",
  ["inputs", "histories", "configurations"],
  "random mass-action and compartment models with known conservation laws, random equilibria, random polynomials, loose tolerances and large steps included",
  "No test checks an invariant.",
  DP[1:] + RA[1:],
  [("consistent Runge-Kutta weights and nodes", "constants.rs files"), ("linear-invariant-preserving Newton updates", "src/radau/newton.rs, src/radau/linear_solve.rs")],
  ["recorded solution"])

p("C18", "Solutions are equivariant under relabelling, replication and change of units",
  "Permuting the components of the system, replicating the system, or rescaling states or time by a change of units (with the tolerances and step options rescaled accordingly) permutes, replicates or rescales the recorded solution and leaves return code and step counts unchanged, up to the rounding errors of sums and linear solves taken in another order. "
  "In particular every component is treated alike.",
  ["inputs", "configurations"],
  "random permutations, replication factors and power-of-two unit changes on all generated problems, options, both solvers",
  "Every test has two components and one scale.",
  DP + RA, [("component-wise loops and dimensionless control", "listed files")],
  ["recorded solutions of paired runs"])

p("C19", "The step budget is exact and only truncates",
  "A run limited to a step budget takes at most that many steps (accepted steps for Dormand-Prince, attempts for Radau) and records exactly a prefix of the unlimited run's solution. "
  "A budget equal to what the unlimited run needs gives the same successful result; one less reports MaxIters.",
  ["inputs", "configurations"],
  "all generated problems, every budget from one to beyond the need, both solvers",
  "No test sets a budget.",
  ["src/dorm_prince/dp5/algorithm.rs", "src/radau/algorithm.rs"],
  [("budget test in the step loop", "*/algorithm.rs")],
  ["recorded solutions and return codes of paired runs"])

p("C20", "A built integrator reflects exactly what the user configured",
  "Building stores the given right-hand side, Jacobian, parameters, initial state and time span unchanged (time, state and step size also as the previous ones), with every option that was set holding its given value and every other its default for that algorithm; for Radau the tolerances hold the documented internal rescaling and a non-positive Newton threshold its derived value. "
  "Setting one option never changes another, in any order of setters, and user functions always receive the configured parameters and arrays of the system's dimension.",
  ["configurations", "inputs"],
  "all subsets and orders of builder calls with random valid values, both algorithms, dimensions 1..40",
  "Tests set at most reltol, abstol, Jacobian and callback and never read the options back.",
  ["src/ode/integrator.rs", "src/ode/options.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/algorithm.rs"],
  [("builder setters", "src/ode/integrator.rs"), ("per-algorithm defaults", "*/algorithm.rs")],
  ["integrator fields after build", "arguments of user functions"])

p("C21", "Explicit step sizes follow the stabilised controller with the user's settings",
  "After an accepted Dormand-Prince step with error estimate e, the next step proposed is the step size times safe * e^-(0.2-0.75*beta) * e_prev^beta, where e_prev is the previous accepted estimate (at least 1e-4, initially 1e-4), limited to the ratios [facl, facr], to the maximum step, and to no growth right after a rejection. "
  "After a rejected attempt the retry uses the step size times safe * e^-(0.2-0.75*beta), shrinking by no more than facl.",
  ["inputs", "histories", "configurations"],
  "every step and retry of generated problems, safe 0.5..0.99, beta 0..0.2, facl, facr and maximum step in their valid ranges, both directions",
  "No test looks at step sizes.",
  ["src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/algorithm.rs"],
  [("Lund-stabilised step control", "src/dorm_prince/dp5/prepare.rs")],
  ["proposed and accepted step sizes"])

p("C22", "No valid input triggers a panic, arithmetic overflow or memory error",
  "Building, stepping, integrating, iterating and reading back either implemented solver with any valid configuration never panics, overflows an integer, indexes out of bounds or accesses memory wrongly, whatever values the user functions return.",
  ["inputs", "configurations", "fault_sequences"],
  "all generated workloads including faults, dimension 1, extreme option values, run under overflow and debug assertions, AddressSanitizer and (small workloads) Miri",
  "Tests cover a few well-behaved two-component runs.",
  DP + RA + OD + ["src/linalg/dec.rs", "src/linalg/sol.rs", "src/ode/jacobian.rs"],
  [("bounds-checked array code", "whole crate")],
  ["process under sanitizers"])

p("C23", "Implicit step sizes follow the predictive controller with the user's settings",
  "After an accepted Radau step of size h with error estimate e (at least 1e-10) and k Newton iterations the next proposal is h/q, with q = e^(1/4)/fac and fac = min(safe, safe*(1+2m)/(k+2m)) for m = max_newt_iter, limited to [facr, facl]. "
  "With modern_pred and a previous accepted step of size h' and estimate e' (at least 1e-2), q is at least (h'/h)*(e^2/e')^(1/4)/safe, limited likewise. "
  "The proposal never exceeds dtmax and never grows after a retried step; it is replaced by the rest of the interval if it reaches the end within 1/quot1, and by h itself if the Newton iteration converged fast (rate at most 0.001) and the ratio lies in [quot1, quot2]. "
  "A step is rejected exactly if e is not below one (filtered a second time if that happens in the first step or in a retry); a rejected first step is retried with h/10, any other with h/q. "
  "When the Newton iteration is given up the step size is halved, or, if it converges too slowly with predicted remaining error d in units of its tolerance, multiplied by 0.8*min(20,d)^(-1/(3+m-k)). "
  "A singular Newton matrix halves the step size, and the fifth one ends the integration with SingularMatrix.",
  ["inputs", "histories", "configurations"],
  "every accepted step, rejection, abandoned iteration and singular matrix of generated problems, all controller options in their valid ranges, both directions, callbacks",
  "No test looks at step sizes.",
  ["src/radau/step_size_control.rs", "src/radau/newton.rs", "src/radau/error_estimate.rs", "src/radau/dec.rs", "src/radau/algorithm.rs"],
  [("Gustafsson predictive controller", "src/radau/step_size_control.rs"), ("step reduction on slow convergence", "src/radau/newton.rs"), ("step reduction on singular matrices", "src/radau/dec.rs")],
  ["proposed and attempted step sizes", "logged stage and Jacobian evaluations"])

p("C24", "The implicit solver's Newton iteration follows the published strategy",
  "In every attempt of the Radau solver the simplified Newton iteration starts from the collocation polynomial of the previous accepted step, extrapolated to the new stages (from zero in the first step or without use_ext_col), and every sweep adds the exact solution of the linearised collocation system with the Jacobian in use. "
  "It stops at the first sweep whose update, in the scaled norm of the transformed variables and times the rate factor theta/(1-theta), is at most fnewt; it is given up when theta reaches 0.99, when the predicted remaining error after max_newt_iter sweeps is too large, or after max_newt_iter sweeps. "
  "Theta is the ratio of the last two updates (geometric mean of the last two ratios from the third sweep on); a single sweep uses the rate factor of the last attempt to the power 0.8, or one after a change of the model. "
  "The Jacobian is only ever evaluated at the current time and state: after each accepted step that converged slower than the theta setting (0.001 unless changed; always if negative) unless the integration is over, before every retry, and after a callback changed the derivative; otherwise it is kept.",
  ["inputs", "histories", "configurations"],
  "every sweep of every attempt of generated problems (linear, nonlinear, stiff, switching) with supplied Jacobian, max_newt_iter, fnewt, use_ext_col and tolerances in their valid ranges, both directions, callbacks",
  "No test looks inside an implicit step; the iteration can deteriorate without changing the result.",
  ["src/radau/newton.rs", "src/radau/linear_solve.rs", "src/radau/step_size_control.rs", "src/radau/algorithm.rs", "src/radau/constants.rs"],
  [("simplified Newton iteration with starting values by extrapolation", "src/radau/newton.rs"), ("Jacobian reuse", "src/radau/step_size_control.rs")],
  ["logged stage and Jacobian evaluations"])

p("C25", "Settings changed while the integration is running take effect from the next step",
  "When a callback, or the caller between two steps, changes the step size (within the maximum step), moves the final time (still ahead) or changes tolerances, step limits, step budget, controller or Newton options of either solver, every following step behaves as if these settings had always been in force. "
  "The next attempt has exactly the step size set, cut only at the final time in force; it solves the method's equations for that step size, is accepted by the error test with the tolerances in force, and the proposal after it follows the controller with the options in force. "
  "The run ends with Success exactly at the final time in force and with MaxIters at the budget in force. "
  "For Dormand-Prince without stabilisation (beta zero) the rest of the run is therefore identical to that of a new integrator built with these settings at that point. (The predictive controller of Radau may be switched off, but has no history when switched on.)",
  ["inputs", "histories", "configurations"],
  "one to four changes per run at any point, by callback or between steps, random subsets of options, step size factors 0.03..4, rest of the interval times 0.02..3, both solvers and directions",
  "No test changes a setting after building.",
  ["src/radau/algorithm.rs", "src/radau/step_size_control.rs", "src/radau/newton.rs", "src/radau/dec.rs", "src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/error.rs"],
  [("settings read at every step", "*/algorithm.rs"), ("step-size control", "src/radau/step_size_control.rs, src/dorm_prince/dp5/prepare.rs")],
  ["public settings around every step", "logged evaluations", "recorded solution"])

p("C26", "How a problem is posed, and settings the solver has no use for, do not matter",
  "A run depends only on the problem and on the settings its solver uses. "
  "Dormand-Prince gives bit for bit the same run (statistics included) for every value of the implicit options (Newton sweeps and factor, collocation start, predictive control, step-holding quotients, Hessenberg reduction) and of the stiffness-detection limit, and never calls a supplied Jacobian; Radau for every value of beta and of the stiffness-detection limit; neither ever calls a supplied time derivative. "
  "Radau hands a supplied Jacobian a matrix to which writing only the entries that are ever nonzero suffices. "
  "Assigning the builder's public fields is equivalent to calling its setters, and the memory layout of the initial state (strided, reversed) is irrelevant.",
  ["inputs", "histories", "configurations"],
  "random problems up to dimension 30, options, callbacks, non-finite evaluations, successful and failing runs, both solvers",
  "No test runs a problem twice, sets an option foreign to the solver or passes anything but a contiguous array.",
  ["src/ode/integrator.rs", "src/ode/options.rs", "src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/prepare.rs", "src/radau/algorithm.rs", "src/radau/newton.rs", "src/radau/step_size_control.rs"],
  [("shared options of all solvers", "src/ode/options.rs"), ("builder", "src/ode/integrator.rs"), ("Jacobian storage", "src/radau/algorithm.rs")],
  ["recorded solution and statistics", "intercepted user-function calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
