"""Writes /verif/properties.jsonl."""
import json, os
A = "src/quocslib/"
OA, DC, DS = A + "optimizationalgorithms/OptimizationAlgorithm.py", A + "optimizationalgorithms/dCRABAlgorithm.py", A + "optimizationalgorithms/DirectSearchAlgorithm.py"
TE, GR, AD = A + "optimizationalgorithms/AlgorithmTemplate.py", A + "optimizationalgorithms/GRAPEAlgorithm.py", A + "optimizationalgorithms/ADAlgorithm.py"
CO, BD, OP = A + "communication/AllInOneCommunication.py", A + "utils/BestDump.py", A + "Optimizer.py"
NM, CM, DSM = A + "gradientfreemethods/NelderMead.py", A + "gradientfreemethods/CMAES.py", A + "gradientfreemethods/DirectSearchMethod.py"
SC, SCN, SCC = A + "stoppingcriteria/StoppingCriteria.py", A + "stoppingcriteria/NelderMeadStoppingCriteria.py", A + "stoppingcriteria/CMAESStoppingCriteria.py"
CT, BP, PA, TP, BPA = A + "Controls.py", A + "pulses/BasePulse.py", A + "parameters/Parameter.py", A + "parameters/TimeParameter.py", A + "parameters/BaseParameter.py"
UN, CB = A + "pulses/superparameter/Uniform.py", A + "pulses/basis/ChoppedBasis.py"
RG, HE, FF = A + "tools/randomgenerator.py", A + "handleexit/HandleExit.py", A + "utils/FilesUpdateFom.py"
GT = A + "gradientfreemethods/GradientFreeTemplate.py"
P = []
def p(i, title, st, over, q, why, files, mech, obs, state=()):
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": obs, "hook_needed": None}})

p("C01", "The reported optimum is the best figure of merit that was really measured",
  "When an optimization ends, the figure of merit it reports in its result file is the best value (smallest in a minimization, largest in a maximization) among all successful evaluations of the run, and no placeholder, failed or averaged-with-placeholder value is ever reported. When re-evaluation or drift compensation is active the reported value is the mean belonging to the current record as those features define it. If nothing was ever measured, no finite figure of merit is claimed.",
  ["histories", "inputs", "configurations"], "every sequence of figure-of-merit values (ties, noise, failures) and every combination of algorithm, direct search, direction, re-evaluation and drift settings",
  "The tests run a handful of smooth toy problems and check that the run finishes; none compares the reported optimum with the sequence of values that was measured.",
  [DC, DS, GR, AD, OA], [("record bookkeeping (_inner_routine_call, _routine_call)", DC), ("record bookkeeping", DS), ("_get_final_results", DC)],
  ["*_optimized_parameters.json in the results folder", "the figure-of-merit object"], [("best_FoM", "record value", DC)])
p("C02", "The best-controls file always holds the record's controls and value",
  "From the first successful evaluation on, at every moment between evaluations the best-controls file in the results folder is complete, readable and contains exactly the pulses, time grids, parameters, figure of merit (in the user's sign) and evaluation number of the current record. It is never overwritten by a worse, failed or not performed evaluation, so a crash at any point leaves the best controls known so far.",
  ["crash_points", "histories", "configurations"], "every point of a run at which the process could die, for every sequence of values and setting",
  "Tests look at the file, if at all, after a clean end; nobody reads it between evaluations.",
  [BD, CO, DC, DS, GR, AD], [("dump_controls(is_record)", BD), ("update_controls", CO)], ["best_controls.npz/json read at every evaluation"])
p("C03", "Best controls handed out after the run are those of the record",
  "After a run, the controls returned by the algorithm's best-controls accessors, and the parameters in the result file of a direct search, are exactly the controls at which the record was measured, whatever super-iteration, re-evaluation or stop came afterwards.",
  ["histories", "configurations"], "every run of every algorithm, including runs stopped anywhere",
  "The examples call the accessors, no test compares their result with what was sent to the evaluation.",
  [DC, DS, GR, AD, CT], [("get_best_controls", DC), ("get_best_controls", DS), ("_get_controls", GR)], ["get_best_controls()", "get_best_bare_controls()", "result file"])
p("C04", "The total evaluation budget is never exceeded and the count is exact",
  "If a total number of evaluations is set, the user's figure of merit is evaluated at most that many times over all super-iterations, re-evaluations and drift measurements together, and the optimization then ends by itself in an orderly way. The number of evaluations that is reported always equals the number of evaluations that took place.",
  ["configurations", "histories"], "every budget, direct search, number of super-iterations and re-evaluation/drift setting",
  "Tests with a budget do not count the evaluations, and use one budget value.",
  [OA, DC, DS, GR, AD], [("_is_higher_order_stopping_criteria... / max_eval_total check", OA)], ["number of calls of the figure of merit", "result file"])
p("C05", "A user's stop takes effect at once and the run still ends gracefully",
  "After the user asks to stop (stop request through the exit object at any moment, or Ctrl+C), no further evaluation starts except one that was already being prepared, no further super-iteration starts, no exception escapes, and the result file with the best value so far is written.",
  ["schedules", "crash_points", "configurations"], "every moment of the run at which the request can arrive (any line of the library, any signal, inside an evaluation), every algorithm",
  "Tests never interrupt a run at all; the quantifier is over all interruption points.",
  [OA, CO, HE, DC, DS, GR, AD, NM, CM], [("get_user_running checks", OA), ("callback", NM), ("KeyboardInterrupt handler", OA)], ["evaluations after the request", "result file", "exceptions"])
p("C06", "Reaching the goal figure of merit ends the optimization",
  "If a goal is set, no new evaluation starts once the record is at least as good as the goal (in the user's direction), and the run ends in an orderly way; it never stops for the goal when no measured value has reached it.",
  ["histories", "inputs", "configurations"], "every goal (including values equal to a measured one), value sequence and direction",
  "The suite has no run in which the goal is reached at a chosen evaluation with equality or in a maximization.",
  [OA, DC, DS], [("FoM_goal check", OA)], ["evaluations after the goal", "termination message"])
p("C07", "A failed evaluation never becomes a result and stops the optimization",
  "An evaluation that returns a non-zero status code never becomes the record, is never written to the best-controls file and never enters a reported list or average, even if its value looks excellent or is missing. No further evaluation starts after it, and the run ends in an orderly way with the results obtained before.",
  ["fault_sequences", "histories", "configurations"], "every position of the failure, value and status code, including failures in re-evaluations and drift measurements",
  "No test returns a failing status code.",
  [CO, DC, DS, GR, AD, OA], [("status_code handling (get_data, send_FoM_response)", CO)], ["record, file, lists after a failure"])
p("C08", "Per-search limits and the total run time are enforced where they apply",
  "Each direct search stops at the end of the iteration in which its own evaluation limit or its own time limit is reached, counted anew for every super-iteration, and no evaluation starts once the total time limit, counted from the start of the run, is over. No search and no run ends for one of these limits before it is reached.",
  ["schedules", "configurations", "histories"], "every duration of every evaluation, pauses before the start, every limit",
  "Tests would have to wait; durations are not controlled and limits are not reached.",
  [SC, SCN, SCC, OA, DC, DS, NM, CM], [("check_direct_search_time_out", SC), ("check_func_eval_single_direct_search", SC), ("total_time_lim", OA)], ["virtual clock at every evaluation and iteration"])
p("C09", "Convergence criteria fire exactly when their condition holds",
  "The tolerance criteria (simplex size, spread of the values) and the change-based criterion (slope of the last values of the current search) end a search only when their condition holds on the values the search has seen, and the search does not continue with another iteration once the condition holds.",
  ["histories", "inputs"], "every sequence of values and every tolerance, window and threshold",
  "Tests do not observe at which evaluation a criterion fires.",
  [SC, SCN, SCC, NM, CM, DC, DS], [("check_simplex_criterion, check_f_size, _check_cbs_stopping_crit", SC)], ["iteration at which the search ends", "terminate reason"])
p("C10", "Runs end only for a true reason, and report that reason",
  "An optimization goes on until all super-iterations are finished or one of the configured limits, a stop request or a failure really occurred. The termination reason reported for a search and for the run is one that holds at that moment, is not left over from an earlier search, and an interrupted search is never reported as converged.",
  ["histories", "configurations", "schedules"], "every combination of limits and the moment each is reached",
  "No test inspects termination reasons or checks that a run did not end too early.",
  [OA, NM, CM, SC, SCN, SCC, DC, DS], [("terminate_reason", NM), ("higher_order_terminate_reason", OA)], ["result file", "log", "number of super-iterations"])
p("C11", "Super-iterations continue from the best controls found so far",
  "A dCRAB run performs exactly the configured number of super-iterations unless it is stopped, and the first evaluation of every later super-iteration uses exactly the best controls of the ones before (the dressed pulse is continuous across super-iterations). The coefficient and super-parameter lists that are reported have one entry per super-iteration performed.",
  ["histories", "configurations"], "every number of super-iterations, basis, value sequence, search method",
  "Tests only look at the end of runs with one or two super-iterations.",
  [DC, CT, BP, AD], [("_dsm_build / _update_base_pulses", DC), ("update_base_controls", CT)], ["controls sent to the figure of merit", "result file"])
p("C12", "Re-evaluation follows its protocol and averages exactly",
  "With re-evaluation steps, a point that could become the record is measured again with unchanged controls as long as the probability of being better stays at or above the next threshold and never more often; it becomes the record only after all steps and above the last threshold. The value given to the search, the reported value and its standard deviation are the exact means of all measurements of that point.",
  ["histories", "inputs", "configurations"], "every sequence of noisy values and standard deviations, threshold lists, interruption points",
  "One example exists; the tests never check the number of repetitions, the thresholds, or the averages.",
  [DC, DS, OA], [("_inner_routine_call / _reevaluation", DC), ("get_is_record / probability", OA)], ["sequence of controls and values", "values returned to the search"])
p("C13", "Drift compensation re-measures the record and re-bases it exactly",
  "After a super-iteration (or after the configured time inside a Nelder-Mead search) the current best controls are measured again the configured number of times and the mean of exactly these measurements replaces the record's value, also when it is worse. It happens neither without need nor too early, is not skipped, and never uses an evaluation that did not take place.",
  ["schedules", "histories", "configurations"], "all durations, drift settings, number of averages and interruption points",
  "The only drift tests check that a run finishes.",
  [DC, DS, NM, CM], [("_drift_compensation", DC), ("drift_comp in run_dsm", NM)], ["controls and values during the compensation", "value handed back to the search"])
p("C14", "Maximizing F is minimizing -F",
  "A run that maximizes a figure of merit and a run that minimizes its negative, with otherwise equal settings and seed, send exactly the same controls in the same order, and all values they report, dump, plot and log are each other's negatives. The user's own return values are left untouched.",
  ["configurations", "histories", "inputs"], "every algorithm, setting and value sequence, for both directions in lockstep",
  "It relates two runs (a 2-safety property); the tests look at single runs.",
  [CO, OP, OA, DC, DS, GR, AD], [("FoM_factor", CO)], ["both runs' evaluations and results"])
p("C15", "A seed makes a run reproducible, and only the seed",
  "With a seed in the settings, two runs that receive the same values send identical controls, whatever the state of the global random generators, whatever ran before in the same process and whatever else runs; different super-iterations and pulses still get different random numbers. Building and running an optimization does not change the random numbers of an independent optimization.",
  ["configurations", "histories", "schedules"], "every algorithm and search method, any preceding run, pollution of global generators at any moment",
  "It relates two runs; the tests do not run anything twice.",
  [RG, OA, DC, DS, CM, GT, UN], [("RandomNumberGenerator", RG), ("rng hand-over", OA)], ["controls of paired runs"])
p("C16", "Nelder-Mead performs exactly the moves of the simplex method",
  "Every point requested by the Nelder-Mead search is the one the (adaptive or standard) method prescribes for the values seen so far: reflection, expansion, outside or inside contraction, or shrink, with strict and non-strict comparisons as specified and the best vertex never lost. The result is the best vertex and its value, with the true number of iterations and requests.",
  ["histories", "inputs"], "every value sequence up to a bounded length (all orderings including ties), dimension 1 and up, adaptive or not",
  "Tests minimize two smooth functions; wrong moves still converge there.",
  [NM, GT], [("run_dsm", NM)], ["points requested from a scripted function"])
p("C17", "CMA-ES respects its generation protocol",
  "Each generation requests exactly population-size many points (the configured one, or the default for the dimension), ranks them by value and moves the mean to the weighted recombination of the best half; the first point requested is the starting point. Stopping is checked only at generation boundaries, and the result is that of the best point of the last generation, with true counts.",
  ["histories", "inputs", "configurations"], "every ranking of the values (ties included), population size, dimension",
  "The tests only look at the convergence of an easy problem.",
  [CM, SCC], [("run_dsm", CM)], ["points requested from a scripted function"])
p("C18", "Pulses and parameters handed to the user respect their limits",
  "With the default shaping (and whenever limiting is the last step) every pulse, and always every parameter, that is sent to the evaluation, dumped or returned respects its lower and upper limit for any coefficients; with the shrink option a pulse that exceeds the limits is rescaled to fit them instead of being cut, one that fits is unchanged, and cutting never changes a value that is inside.",
  ["inputs", "configurations"], "every coefficient vector, guess, base pulse and limit, cut or shrink, all shaping options",
  "Tests use limits which are not reached.",
  [BP, BPA, PA, CT], [("_get_limited_pulse / _shrink_pulse_2", BP), ("get_parameter", BPA)], ["controls sent to the figure of merit"])
p("C19", "A pulse is assembled from its parts in the documented order",
  "The pulse is the result of applying the configured shaping operations (by default: add the limited initial guess, the base pulse and the new contribution, then scale, then limit) in exactly the configured order to zero, at every evaluation and for every kind of guess and scaling (function, list, file); the base pulse is the sum of the best contributions of earlier super-iterations, or only the last one if overwriting is chosen.",
  ["inputs", "configurations", "histories"], "every sequence of shaping options, guess and scaling kinds, several super-iterations",
  "Tests exercise the default order once, with trivial guess and scaling.",
  [BP, CT, A + "pulses/basis/PiecewiseBasis.py"], [("shaping_options, _get_build_pulse, set_base_pulse", BP)], ["controls sent to the figure of merit"])
p("C20", "Each coefficient of the search drives exactly one control",
  "The coordinates of the search vector are partitioned among the pulses and parameters, in order, without gap or overlap, before and after any change of the basis; the start point and the search widths use the same assignment. Every pulse is sampled on the grid of its own time with its own number of bins, and evaluating twice with the same vector gives the same controls.",
  ["configurations", "inputs", "histories"], "every mix of pulses, bases, parameters and times, any number of super-iterations",
  "Tests have at most two pulses with equal settings.",
  [CT, BP, BPA, TP], [("control_parameters_list / last_index", CT), ("_set_time_grid", BP)], ["change of the controls when one coordinate changes"])
p("C21", "Super-parameters are fresh, in range and constant within a search",
  "At every super-iteration each random basis draws the configured number of super-parameters, one in each of the equal subdivisions of the configured range, they stay constant within the super-iteration, the pulses of the super-iteration are made of exactly these basis functions, and they are reported for it together with its best coefficients. Draws of different super-iterations and pulses are independent.",
  ["configurations", "histories"], "every range, number of vectors, seed, number of super-iterations and pulses",
  "The tests never look at the drawn values.",
  [UN, CB, CT, RG, DC], [("set_random_super_parameter", UN), ("select_basis", CT)], ["reported super-parameters", "shape of the pulses"])
p("C22", "Result and best-controls files contain everything, under unique names",
  "In both dump formats, reading back the best-controls file gives exactly the arrays that were evaluated: each pulse and its own time grid under its name and each parameter under its name, none missing or overwritten whatever names were chosen, together with the figure of merit, evaluation number and status. The settings that were used and the final results are written next to it and can be read back.",
  ["inputs", "configurations"], "every choice of names (equal, colliding with other entries), number of pulses and parameters, format and algorithm",
  "Tests use two fixed pulse names.",
  [BD, CO, A + "utils/inputoutput.py"], [("dump_controls", BD), ("dump_dict", BD), ("print_optimization_dictionary", CO)], ["files in the results folder"])
p("C23", "Every optimization writes only to its own new folder",
  "Each optimization object gets a results folder of its own below the current folder, named after start time and job name; it never reuses, deletes or writes into the folder of another run, also when several are created at the same instant or at the same time in several processes or interleaved in one process: one of them gets the folder, the other is refused with an error and leaves no trace in it. Each file of a run, and its log lines until another optimization is created in the same process, end up in its own folder.",
  ["schedules", "histories", "configurations"], "every interleaving of creation, execution and end of two or more runs, equal or different names and times",
  "Tests create runs one after another with different names, waiting between them.",
  [CO, A + "tools/logger.py", OP], [("results folder creation", CO), ("create_logger", A + "tools/logger.py")], ["contents of QuOCS_Results"])
p("C24", "File exchange: fresh values only, complete controls, bounded waiting",
  "With the file-based figure of merit, the value used for a set of controls is one written after these controls were put in the exchange folder; a file that was there before the request is never used. The controls file contains all pulses, grids and parameters of the request; waiting ends at the configured time with a failure, not before and not noticeably later, and an unreadable value is reported as a failure.",
  ["schedules", "fault_sequences"], "every interleaving of the other program's reads and writes (early, late, never, stale, garbage) with the library",
  "The tests have no partner program at all.",
  [FF, A + "utils/inputoutput.py"], [("get_FoM, read_FoM_values", FF)], ["exchange folder", "return value"])
p("C25", "Progress reports tell the truth",
  "Every evaluation is announced to the user interface with its controls before it is made and, if successful, exactly once afterwards with its own consecutive number and value (mean so far, with re-evaluation) in the user's sign. The lists of values and numbers kept for the user contain exactly the successful evaluations, in order.",
  ["histories", "configurations"], "every run, with and without re-evaluation, drift and failures",
  "No test connects the signals.",
  [CO, DC, DS, GR, AD], [("send_controls / send_FoM_response", CO), ("FoM_list, iteration_number_list", DC)], ["signals", "lists"])
p("C26", "Piecewise propagators are those of the sliced Hamiltonian, in time order",
  "For every drift, list of control Hamiltonians, drive and slice duration, the propagator stored for slice i is exp(-i dt (A + sum_k drive[k, i] B_k)), all requested slices are stored and returned, and the final propagator is their product with later slices to the left, applied to the initial propagator. The inputs are not changed and repeated calls give the same result. This holds for the numpy and for the automatic-differentiation versions.",
  ["inputs"], "every number of qubits, controls and slices, every slice duration and drive on an exact lattice of rotations; arrays or matrices, preallocated lists or arrays",
  "The tests run one Ising chain and only look at the final figure of merit, most errors still leave unitary propagators.",
  [A + "timeevolution/piecewise_integrator.py", A + "timeevolution/piecewise_integrator_AD.py"],
  [("pw_evolution, pw_final_evolution", A + "timeevolution/piecewise_integrator.py"), ("pw_evolution_AD, pw_final_evolution_AD", A + "timeevolution/piecewise_integrator_AD.py")],
  ["returned propagators", "stored propagators"])
p("C27", "GRAPE and AD give the search the value and gradient at the requested point",
  "For every point the gradient search asks for, the propagators (GRAPE) and the figure of merit are evaluated at exactly the controls belonging to this point, the search receives the figure of merit with the sign of the direction, and the gradient is: for AD the derivative of that value with respect to every coefficient of every pulse and parameter, including guess, scaling, limits (zero beyond a limit) and the base of earlier super-iterations; for GRAPE the first-order GRAPE gradient dt Re(i tr(lambda_t^+ [B, rho_t])) of each slice, with rho_t evolved forward from the initial state and lambda_t evolved backward from the target with the user's propagators, whatever the number types of the user's matrices. The search runs with the configured tolerances and limits.",
  ["inputs", "histories", "configurations"], "every sequence of requested points, user propagators, states and control Hamiltonians (complex, real, integer), pulses, parameters, scaling, direction and number of super-iterations",
  "Tests only check that an easy problem converges; a wrong gradient still does, slowly.",
  [GR, AD, CT, BP], [("get_gradient, inner_routine_call", GR), ("_routine_call and value_and_grad", AD)], ["values handed to the gradient search", "calls of the user's propagator and figure of merit"])
p("C28", "State and signal tools compute what their documentation says",
  "Partial traces over any set of subsystems of any dimensions, in any order of naming, keep the remaining subsystems in order and sum over the traced ones; positions outside the system are refused. Density matrices of states, commutators, square roots of positive matrices (also singular ones), fidelities of mixed and pure states, displacement operators, Liouvillians (for column-stacked matrices) and Gram-Schmidt orthonormalization are the mathematical ones. A start simplex has its first vertex at the mean and orthonormal edges in units of the variations. Resampling a pulse takes the nearest sample and extends the edges. Ornstein-Uhlenbeck noise has one value per complete slice, starts at the start value, decays with the correlation time, has the stationary variance c tau / 2 with independent normal innovations, and the trajectories of an ensemble are independent.",
  ["inputs"], "integer matrices, states and pulses of every small size, all subsets of subsystems, random seeds",
  "No test calls these tools except through one toy problem.",
  [A + "tools/partial_trace.py", A + "tools/operations.py", A + "tools/fidelities.py", A + "tools/linearalgebra.py", A + "tools/pulsetools.py", A + "noiseprocesses/ornsteinuhlenbeckprocess.py"],
  [("jax_partial_trace_transform", A + "tools/partial_trace.py"), ("get_noise_realization", A + "noiseprocesses/ornsteinuhlenbeckprocess.py")], ["return values"])
p("C29", "The example problems evaluate the figure of merit they describe",
  "OneQubit and OneQubit2Fields evolve the initial state with the documented Hamiltonian slice by slice in time order and return the infidelity with the target (independent of the norm of the states) with the sign of the optimization factor, the detuning taken from the first parameter if there is one (OneQubit), the linear drift growing with the number of evaluations and noise bounded by the noise factor; the list of figures of merit that can be saved is the list of returned values. The Ising chains have the documented ring Hamiltonian, controls, initial and target state and return the (signed) transfer probability of the controls they were given. The Rosenbrock problem is Rosenbrock's function.",
  ["inputs", "histories", "configurations"], "every sequence of evaluations with drives on an exact lattice of rotations, states, detunings, factors and flags",
  "The tests only use these problems as a black box to be optimized.",
  [A + "optimalcontrolproblems/OneQubitProblem.py", A + "optimalcontrolproblems/OneQubitProblem_2fields.py", A + "optimalcontrolproblems/IsingModelProblem.py", A + "optimalcontrolproblems/IsingModelADProblem.py", A + "optimalcontrolproblems/RosenbrockProblem.py"],
  [("get_FoM", A + "optimalcontrolproblems/OneQubitProblem.py"), ("get_propagator, get_FoM", A + "optimalcontrolproblems/IsingModelProblem.py")], ["returned figure of merit", "saved list"])
p("C30", "Every basis builds its documented functions for all coefficients",
  "For any super-parameters and coefficients a Fourier pulse is the sum of the sines and cosines of its frequencies over the pulse's duration, a Chebyshev pulse the sum of the cosines with their phases, a Sinc pulse the sum of the shifted band-limited kernels, and a sigmoid pulse the sum of smooth steps of the given width at the start offset and at the step times, minus the sum of all amplitudes at the end offset, so that it ends at zero. In the bases with adjustable steps, the further coefficients shift the steps by the given variation and widen them by it; steps that stay inside the pulse are shifted exactly, and steps shifted beyond the ends are moved back between the offsets in the same order. The number of coefficients searched for is that of the functions, and the start value is zero. This holds in every super-iteration and for every mix of pulses.",
  ["inputs", "configurations"], "all integer coefficients, super-parameters, offsets, widths and grids at which the functions have exactly known values, any time unit, user-defined super-parameter distributions",
  "The tests never look at the shape of a pulse.",
  [A + "pulses/basis/Fourier.py", A + "pulses/basis/Chebyshev.py", A + "pulses/basis/Sinc.py", A + "pulses/basis/Sigmoid.py", A + "pulses/basis/SigmoidTimeDep.py", A + "pulses/basis/SigmoidSigmas.py", A + "pulses/basis/SigmoidAllParas.py", CB],
  [("_get_shaped_pulse", A + "pulses/basis/Fourier.py"), ("_get_shaped_pulse", A + "pulses/basis/SigmoidAllParas.py")], ["pulses sent to the figure of merit"])
p("C31", "Settings that mean the same give the same optimization",
  "Two sets of settings that mean the same according to the documentation lead to the same optimization: the same controls are evaluated in the same order, with the same record, best-controls file, reported result, counts and reasons for stopping. This holds for leaving out a setting or giving its documented default, for selecting an algorithm, direct search, basis or distribution by its name, by module and class or (where offered) by the class itself, for the order of the entries, further entries at the top level, the order of the times and times that are not used, consistent renaming, the name of the optimization, its logging and file format, for guesses and scalings given as lambda, list or function in a file, for integer, float and numpy numbers, for settings that went through a JSON file and for the settings that the optimization itself stored in its results folder.",
  ["configurations", "histories"], "every seeded optimization and every combination of equivalent ways of writing its settings",
  "Tests use one way of writing each setting, and never compare two optimizations.",
  [OP, CT, BP, BPA, A + "utils/dynamicimport.py", A + "utils/inputoutput.py", A + "utils/map_dictionary.json", SC, CM, NM, A + "pulses/basis/Sigmoid.py", OA, "Documentation/Settings_in_Optimization_Dict.md"],
  [("default values", BP), ("dynamic_import", A + "utils/dynamicimport.py"), ("print_optimization_dictionary", CO)], ["calls of the figure of merit", "result files"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
