#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I, M = "src/xrtm_interface.c", "src/xrtm_model.c"

prop("C01", "Solutions depend only on the current inputs, not on the call history",
 "After any sequence of input settings, changes of inputs, saved-state clears and earlier solutions with any enabled solver, a solution (radiance, mean radiance or flux) of a live instance equals the solution of a newly created instance of the same configuration that was given only the final values of the inputs. In particular, after the first run only the inputs that change need to be set again.",
 ["histories", "configurations", "inputs"],
 "all configurations accepted at creation; all finite sequences of setter, clear and solution calls",
 "The 55 tests each create an instance, set every input once and solve; no test changes an input and solves again, so the reuse of saved intermediate results is never exercised.",
 [I, M, "src/xrtm_support.c", "src/xrtm_work.c", "src/xrtm_stacks.c", "src/xrtm_brdf.c"],
 [("dependency flags of saved intermediate results", M + ": set_deps, resolve_deps*"), ("delta-M scaled inputs", M + ": update_opt_props"), ("beam and chapman caches", M)],
 ["xrtm_solution, xrtm_radiance, xrtm_mean_radiance, xrtm_flux"],
 [("dep_flags_*", "which saved quantities are out of date", "src/xrtm_interface.h")])
prop("C02", "Derivatives depend only on the current inputs and linearized inputs",
 "After any sequence of changes to inputs and to linearized inputs, each followed by the required varied-layers update, the analytic derivatives returned with a solution equal those of a newly created instance given only the final inputs and linearized inputs. The radiances, mean radiances and fluxes returned with them do not depend on which linearized inputs are set.",
 ["histories", "configurations", "inputs"],
 "all derivative configurations; all sequences of input, linearized input, varied-layer update and solution calls",
 "Tests compute derivatives once per instance for one set of varied layers; changing which layers vary between solutions is never tested.",
 [I, M, "src/xrtm_derivs.c", "src/xrtm_derivs.h", "src/xrtm_stacks.c"],
 [("varied layer flags", I + ": xrtm_update_varied_layers, build_derivs_*"), ("linearized dependency flags", M)],
 ["the *_l outputs of xrtm_solution"],
 [("derivs", "which layers, sources and adding steps vary per derivative", "src/xrtm_derivs.h")])
prop("C03", "Saving and reuse options never change results",
 "The options that only save or reuse intermediate results (saved Legendre polynomials, phase matrices, local r/t, layer R/T/S, total R/T/S, and stack reuse for adding) do not change any radiance, mean radiance, flux or derivative, at any point of any sequence of input changes and solutions. Clearing the saved state at any point does not change any result either.",
 ["histories", "configurations"],
 "all subsets of the saving options that creation accepts; all call histories",
 "Only a few example inputs turn a saving option on, and each solves once, so a saved result is never reused after a change.",
 [I, M, "src/xrtm_stacks.c"],
 [("save options", M + ": get_phase_mats*, get_local_r_t_u_w, get_layer_R_T_S_U_W_V, get_total_R_T_S_U_W_V"), ("stack chain", "src/xrtm_stacks.c")],
 ["xrtm_solution outputs", "xrtm_clear_saved"])
prop("C04", "Separate instances used concurrently do not affect each other",
 "When several threads each use their own instance, whatever the interleaving of their calls and of the work inside them, every call returns exactly what it returns when that thread runs alone. Instances share no mutable state.",
 ["schedules", "histories", "configurations"],
 "all interleavings, down to single memory accesses, of two or more callers each with an instance of its own",
 "All tests are single threaded and use one instance per process.",
 ["src/", "misc/"],
 [("no mutable static data in the library", "src/*.c, misc/*.c"), ("per-instance work memory", "src/xrtm_work.c")],
 ["all outputs and return codes of each caller"])
prop("C05", "A rejected call returns an error and has no side effect",
 "A call with an argument the interface documents or checks as invalid (a value or index out of range, an input or solver the instance was not created for, a solution requested before all required inputs are set, options, solvers or sizes that do not go together at creation) returns the error value and leaves the instance as if the call had not been made: every input still reads back as before and later solutions are unaffected. Calls with valid arguments are accepted.",
 ["histories", "inputs", "configurations"],
 "all setters and getters with invalid values, indices and configurations, at any point of any history",
 "No test passes an invalid argument to the library interface.",
 [I], [("argument checks", I + ": CHECK_INDEX_RANGE, GET_INPUTS_CHECK_SET_FLAGS and per-setter checks"), ("creation checks", I + ": xrtm_check_options, xrtm_check_counts, xrtm_check_solvers"), ("inputs-initialized check", I + ": check_inputs_initialized")],
 ["return codes", "getters", "later solutions"])
prop("C06", "Inputs read back as last accepted",
 "At every point of every history each getter returns exactly the value most recently accepted for that input (angles to within rounding of the cosine conversion), whether it was set one element, one layer, one derivative or all at once; running solutions, changing other inputs, updating varied layers or clearing saved state never changes it. A getter of an input that has not been set, that the instance was not created for, or with an index out of range returns the error value.",
 ["histories", "inputs", "configurations"],
 "all getters after each step of all histories of setters, solutions and clears",
 "Tests never call the getters.",
 [I, "src/xrtm_support.c"], [("unscaled copies of inputs next to scaled ones", I), ("set flags", I)],
 ["xrtm_get_*"])
prop("C07", "A failed creation is reported, releases everything and harms nothing",
 "If memory runs out at any allocation during the creation of an instance, creation returns its error value, all memory it obtained is released, and other live instances are unaffected; creating again when memory is available succeeds and gives correct solutions. The same holds for creation rejected because of its arguments.",
 ["fault_sequences", "crash_points", "configurations"],
 "every allocation made while creating an instance of any configuration, one-shot and persistent failure",
 "Tests never make an allocation fail.",
 [I, "misc/gutil_alloc.c", "src/xrtm_work.c", "src/xrtm_support.c", "src/xrtm_brdf.c"],
 [("checked allocation macros", I + ": ALLOC_ARRAY*"), ("partial allocation release", "misc/gutil_alloc.c")],
 ["xrtm_create, xrtm_create2 return value", "allocator balance"])
prop("C08", "Memory exhaustion during use gives an error and a usable instance",
 "If memory runs out at any allocation inside a call on an existing instance (solution, varied-layers update, adjoint solution), the call returns its error value instead of crashing, inputs are unchanged, and repeating the call when memory is available gives the correct result; a solution tried in between is refused, not wrong. Destroying the instance afterwards releases all memory.",
 ["fault_sequences", "histories", "configurations"],
 "every allocation made by any call on a live instance, at any point of a history",
 "Tests never make an allocation fail.",
 ["src/xrtm_work.c", "src/xrtm_save_tree.c", "src/xrtm_stacks.c", I],
 [("work page allocation", "src/xrtm_work.c: get_work_common, check_work_bounds"), ("stack chain allocation", "src/xrtm_stacks.c"), ("save tree", "src/xrtm_save_tree.c")],
 ["return codes", "retried results", "allocator balance"])
prop("C09", "A numerical failure never yields a successful but wrong solution",
 "If a linear-algebra kernel used inside a solution reports failure (singular factorization, eigenvalues not converging), the solution does not return success. When the failure does not recur, repeating the solution on the same instance gives the correct result.",
 ["fault_sequences", "histories", "configurations"],
 "failure of any single LAPACK call made by any solver, at any point of a history",
 "Test inputs never make LAPACK fail.",
 ["src/xrtm_eig_util.c", "src/xrtm_eig_bvp_x.c", "src/xrtm_mem_bvp.c", "misc/gmatrix.h", "src/xrtm_matrix.c", M],
 [("info checks after each LAPACK call", "misc/gmatrix.h, src/*.c"), ("error propagation", M)],
 ["return codes", "retried results"])
prop("C10", "Memory is conserved",
 "Destroying an instance releases all memory obtained on its behalf by creation and by every call made on it, whatever the history, and nothing is released twice or written outside the memory obtained. Repeating an operation whose kind and size have been seen before does not make an instance's memory grow without bound.",
 ["histories", "configurations"],
 "all histories that end with destroying the instances",
 "Tests run one solution per process and exit; leaks and overruns go unnoticed.",
 [I, "src/xrtm_work.c", "src/xrtm_stacks.c", "src/xrtm_save_tree.c", "misc/gutil_alloc.c"],
 [("xrtm_destroy", I), ("work page reuse", "src/xrtm_work.c"), ("stack_chain_free", "src/xrtm_stacks.c")],
 ["allocator balance and block boundaries"])
prop("C11", "Results do not depend on leftover memory contents or addresses",
 "Every return code and output of every call is the same whatever the heap and the stack contained before and wherever the heap places its blocks; no call reads memory it has not initialised in a way that reaches an output.",
 ["histories", "configurations", "schedules"],
 "all histories, each run under several initial heap and stack contents and heap layouts",
 "A test sees one memory image per run, usually zero pages from the operating system.",
 ["src/", "misc/"],
 [("explicit initialisation of every work array", "src/xrtm_model.c and solvers")],
 ["all outputs"])
prop("C12", "Errors are returned to the caller; the host process is never ended",
 "Whatever goes wrong inside a library call (invalid arguments, exhausted memory, numerical failure), the call returns its error value to the caller; it never ends the process, raises a signal or fails to return.",
 ["fault_sequences", "inputs", "histories"],
 "all calls under invalid arguments, allocation failures and LAPACK failures",
 "Tests exercise only the successful paths.",
 [I, "src/xrtm_work.c", "misc/gmatrix.h", "src/xrtm_eig_util.c"],
 [("error returns XRTM_INT_ERROR and XRTM_DBL_ERROR", I)],
 ["control returns to the caller"])
prop("C13", "Adjoint derivatives equal forward ones and leave the instance unchanged",
 "At any point of a history the derivatives returned by the adjoint (reverse) solution equal those of the forward linearized solution of an instance with the same inputs. Calling the adjoint solution, successfully or not, does not change later forward solutions, options or counts of the instance.",
 ["histories", "configurations", "fault_sequences"],
 "all histories mixing forward and adjoint solutions for the solvers that support the adjoint",
 "No test calls the adjoint solution.",
 [I, "src/xrtm_model_a.c", "src/xrtm_save_tree.c", "src/xrtm_radiance_a.c"],
 [("save tree", "src/xrtm_save_tree.c"), ("xrtm_solution_2", I)],
 ["xrtm_solution_2, xrtm_radiance_2"])
prop("C14", "Finite-difference solutions leave the inputs as they were",
 "After a finite-difference solution, successful or failed, every input of the instance reads back as before and later solutions are as if the call had not been made. Each finite-difference derivative depends only on its own perturbation: it is the same whichever other derivatives are requested with it and approximates the difference quotient of two solutions of instances given the perturbed and unperturbed inputs.",
 ["histories", "fault_sequences", "configurations"],
 "all finite-difference methods, derivative counts, perturbed input sets and failure points",
 "Tests of the finite-difference driver compare one run to analytic derivatives; the state left behind is not looked at.",
 ["src/xrtm_fd_interface.c"],
 [("perturb and restore of the underlying instance", "src/xrtm_fd_interface.c: xrtm_fd_solution")],
 ["xrtm_fd_solution outputs", "getters and later solutions of the wrapped instance"])
prop("C15", "Scattering files are read completely or reported as unreadable",
 "Reading a scattering-properties file either gives exactly the data in the file or returns an error: a read error, a truncated file or a malformed value at any byte is reported, never turned into success with missing, stale or partial data (a file that was cut so that what is left is itself a complete file is a complete file). How the stream delivers its bytes (any sequence of short reads) does not matter, and no memory or open stream is left behind.",
 ["fault_sequences", "crash_points", "inputs"],
 "every byte position of every supported file as the point of truncation or read error; all delivery chunkings",
 "Tests read intact files from a healthy disk.",
 ["misc/rtutil_scat_io.c"],
 [("return value checks of fscanf and fread", "misc/rtutil_scat_io.c")],
 ["return codes and loaded structures", "open streams"])
prop("C16", "Scattering files are written completely or the failure is reported",
 "Writing a scattering-properties file returns success only if the whole file reached the stream, and a file written with success reads back as the data written. A full disk or write error at any byte is reported as an error.",
 ["fault_sequences", "crash_points", "inputs"],
 "every byte position as the point where the device fills up or fails",
 "Tests never write such files.",
 ["misc/rtutil_scat_io.c"],
 [("stream error checks", "misc/rtutil_scat_io.c")],
 ["return codes", "bytes on the simulated disk"])
prop("C17", "callxrtm never computes from a damaged or unreadable input file",
 "If the input of callxrtm cannot be read or is cut short so that a required input is missing or a value is incomplete, callxrtm exits with a non-zero status and a message and prints no results as if they were good. The result does not depend on how the input is delivered: from a file, from standard input or in any chunking.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation point and read-error position of valid inputs; all chunkings of the input stream",
 "Tests run callxrtm on intact files.",
 ["utils/callxrtm.c", "utils/input_util.c", "utils/input_yylex.l"],
 [("scanner and parser error exits", "utils/input_util.c")],
 ["exit status and output of callxrtm"])
prop("C18", "callxrtm reports output it could not write",
 "If callxrtm cannot write its results completely (full disk, closed or failing output), it exits with a non-zero status. When it exits with status zero, the complete results have been written.",
 ["fault_sequences", "crash_points"],
 "every byte of the output as the point at which writing fails",
 "Tests write to a healthy disk or pipe.",
 ["utils/callxrtm.c"],
 [("output stream checks", "utils/callxrtm.c")],
 ["exit status", "bytes written"])
prop("C19", "The C++, Fortran and Python interfaces give the results of the C interface",
 "Any sequence of calls made through the C++, Fortran 77, Fortran 90 or Python interface gives the same return status, read-back values and solutions as the corresponding sequence made through the C interface, including sequences that contain rejected calls. Destroying an instance through an interface releases the same memory, and the Python interface holds on to none of the objects handed to it or returned by it and refuses arrays of the wrong shape.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all call histories, replayed through each language interface",
 "Each language has one example program with one fixed sequence of calls that uses a small part of the interface.",
 ["interfaces/xrtm_int_cpp.cpp", "interfaces/xrtm_int_f77.f", "interfaces/xrtm_int_f77_util.c", "interfaces/xrtm_int_f90.f90", "interfaces/xrtm_int_f90_util.c", "interfaces/xrtm_int_py.c"],
 [("argument and array conversion", "interfaces/*")],
 ["all calls of the interfaces"])
prop("C20", "The order and granularity of setting inputs are irrelevant",
 "Solutions and derivatives depend only on the final value of each input: they are the same whether inputs are set in any order, one element at a time or all at once, once or repeatedly, before or between solutions, and setting an input to the value it already has changes nothing.",
 ["histories", "inputs", "configurations"],
 "all orders and groupings of setter calls that lead to the same final inputs",
 "Every test sets inputs in the same fixed order.",
 [I, "src/xrtm_support.c"],
 [("setters", I), ("mu_0 singularity adjustment shared by solar and output angles", I + ": mu_0_singularity_adjust")],
 ["xrtm_solution"])
prop("C21", "Outputs do not depend on which outputs are requested together",
 "The radiances, mean radiances and fluxes returned by one call that requests several of them equal those of separate calls that request each alone, in any order, and radiances do not depend on how many azimuth angles are requested at once. A request leaves the arrays of outputs it did not ask for untouched.",
 ["histories", "configurations"],
 "all subsets and orders of output requests at any point of a history",
 "Each test requests one fixed combination of outputs.",
 [I, M],
 [("solution selection", M + ": get_solution, get_solution_internal")],
 ["xrtm_solution, xrtm_radiance, xrtm_mean_radiance, xrtm_flux"])
prop("C22", "Solvers enabled on one instance do not disturb each other",
 "The solution of a solver on an instance created for several solvers equals its solution on an instance created for that solver alone, whatever solutions of the other solvers, successful or rejected, came before.",
 ["histories", "configurations"],
 "all sets of solvers one instance can be created for; all interleavings of solutions by them with input changes",
 "Tests compare solvers, but always one solution per solver from a fixed order on unchanged inputs.",
 [I, M],
 [("saved state shared by solvers", M)],
 ["xrtm_solution"])
# pure functions: listed, not claimed
na = "Pure function of its input: sampling inputs is input generation, not simulation."
prop("C23", "Different solvers agree on the same problem",
 "For problems within their common domain, all solvers give radiances that agree to within their documented accuracy.",
 ["inputs"], "all inputs in the common domain", "Tests compare solvers on a few fixed problems.",
 ["src/"], [("solvers", "src/xrtm_*.c")], ["xrtm_solution"])
prop("C24", "Analytic derivatives are the derivatives of the solution",
 "The linearized outputs equal the limit of difference quotients of the solution with respect to the linearized inputs.",
 ["inputs"], "all differentiable inputs", "Tests compare to finite differences on fixed problems.",
 ["src/"], [("linearized solvers", "src/xrtm_*.c")], ["xrtm_solution"])
prop("C25", "Conservative scattering conserves energy",
 "For single-scattering albedo one and a non-absorbing surface the net flux is the same at every level, and radiances are non-negative.",
 ["inputs"], "all conservative atmospheres", "Tests check fixed numbers only.",
 ["src/"], [("solvers", "src/xrtm_*.c")], ["xrtm_flux"])
prop("C26", "Names, indices, masks and values of options and solvers convert both ways",
 "Every option, solver and output converts between name, index and mask and back to itself.",
 ["inputs"], "all options, solvers and outputs", "Tests use a few names.",
 [I], [("name tables", I)], ["xrtm_*_name_to_*, xrtm_*_mask_to_*"])
prop("C27", "callxrtm computes what its input says",
 "The results callxrtm prints are those the library gives when the inputs the input file, standard input or command-line string spells out are set through its interface: whatever the order, spelling (indices, arrays, comments, spacing, omitted defaults) and delivery of the input, for ordinary, linearized and finite-difference models, with phase functions given as numbers, by name or in files. Inputs the library refuses end callxrtm with a non-zero status.",
 ["inputs", "configurations", "schedules"],
 "all spellings, orders and deliveries of all inputs",
 "Tests run callxrtm on a few fixed command lines.",
 ["utils/callxrtm.c", "utils/input_util.c", "utils/input_yylex.l", "misc/rtutil_scat_io.c"],
 [("statement parsers", "utils/input_util.c: input_parse1, input_parse2"), ("scanner", "utils/input_yylex.l"), ("assembly of strings with defaults", "utils/callxrtm.c")],
 ["exit status and output of callxrtm"])
prop("C28", "Each derivative depends only on its own linearized inputs",
 "Each analytic derivative of the radiances equals the derivative an instance returns that is created for that derivative alone and given its linearized inputs only, whatever the other derivatives' linearized inputs are; multiplying all linearized inputs of a derivative by a factor multiplies the derivative by it, for negative factors too. Derivatives whose linearized inputs are all zero are zero. (Automatically chosen Pade orders, which depend on all derivatives by design, are excepted.)",
 ["histories", "configurations", "inputs"],
 "all derivative configurations, all sets of linearized inputs of all derivatives, after any history of inputs, updates and solutions",
 "Tests compare a fixed set of derivatives, always requested together, with stored numbers.",
 [I, M, "src/xrtm_derivs.c", "src/xrtm_stacks.c", "src/xrtm_brdf.c", "src/xrtm_eig_bvp.c"],
 [("flags of what varies in each layer and stack per derivative", "src/xrtm_derivs.c, " + I + ": xrtm_update_varied_layers"), ("linearized solvers", "src/xrtm_*.c")],
 ["the *_l outputs of xrtm_solution and xrtm_radiance"])
prop("C29", "Results at one output level and angle do not depend on the others requested",
 "The results (radiances and their derivatives, mean radiances, fluxes) an instance returns for one of its output levels or optical depths equal those of an instance created for that level alone; the results for one of its output angles equal those of an instance created for that angle alone, to within rounding, for problems that are not degenerate (directions that nearly coincide, results that change when inputs change in their last digits).",
 ["histories", "configurations", "inputs"],
 "all sets of output levels, optical depths and angles; all solvers that support more than one; after any history",
 "Tests request one fixed set of levels and angles for each problem.",
 [I, M, "src/xrtm_sfi_x.c", "src/xrtm_stacks.c", "src/xrtm_brdf.c", "src/xrtm_eig_bvp.c"],
 [("interpolation and recursion to levels", M + ", src/xrtm_eig_bvp.c, src/xrtm_adding.c"), ("user angles by source function integration or extended quadrature", "src/xrtm_sfi_x.c, " + M), ("azimuthal expansion", M + ": get_solution_internal")],
 ["xrtm_solution, xrtm_radiance, xrtm_mean_radiance, xrtm_flux"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
