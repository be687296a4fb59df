#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or ["xrtm_solution() outputs"]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))
IF, MO = "src/xrtm_interface.c", "src/xrtm_model.c"

p("C01", "Outputs depend only on the current inputs, not on the history of the instance",
  "After any sequence of accepted setter calls and solution calls on an instance, a solution call returns the outputs (radiances, mean radiances, fluxes and their derivatives) that a newly created instance of the same configuration returns when it is given only the values last set. This includes going back to an earlier value, changing several inputs between solutions, and running several solvers on one instance.",
  ["histories", "inputs", "configurations"], "every sequence of setters, solution calls and solver choices, for every combination of the caching options",
  "The tests run one solution per instance; the dependency flags that decide what is recalculated only matter from the second solution on, and the number of histories is combinatorial.",
  [IF, MO, "src/xrtm_derivs.c", "src/xrtm_stacks.c"],
  [("dependency flags per intermediate quantity, set by setters, cleared by calculation", "xrtm_interface.c set_deps(), xrtm_model.c get_*()"), ("saved quantities", "xrtm_model.c save_* blocks")],
  state=[("dep_flags_*", "which inputs changed since a quantity was calculated", "xrtm_interface.h")])
p("C02", "Options that only save intermediate results never change an output",
  "The options that save and reuse intermediate results (Legendre polynomials, phase matrices, local r and t, layer R, T and S, total R, T and S), in any combination, give the same outputs as an instance without them, for the first solution and for every later one after input changes.",
  ["configurations", "histories"], "all subsets of the five save options, for each solver and a menu of model features, over histories of input changes",
  "No test turns the save options on and off and compares; with 32 subsets times solvers times histories tests can only sample.",
  [IF, MO], [("save options", "xrtm_model.c get_phase_mats*(), get_local_r_t_u_w(), get_layer_R_T_S_U_W_V(), get_total_R_T_S_U_V()")])
p("C03", "Setters agree in all their forms and getters return what was set",
  "A value set through any form of a setter (for one layer, one derivative, one parameter, or arrays of them) is returned unchanged by the getter with the same indexes, no other value changes, and the outputs do not depend on which form or order of calls was used to set the same values.",
  ["inputs", "configurations", "histories"], "every setter form, every index, every order of setting",
  "The tests set each input once through one form and never read it back.",
  [IF], [("xrtm_set_*_1, _n, _11, _1n, _n1, _nn and xrtm_get_*", "xrtm_interface.c")], ["xrtm_get_*() results", "xrtm_solution() outputs"])
p("C04", "A rejected call returns the error value and changes nothing",
  "A call with an argument that is out of range (an index, a count, a value outside its documented domain), or that needs an option the instance was not created with, returns the error value of its type, and afterwards every getter and every solution gives what it gave before the call. This holds also for calls rejected in the middle of an array of values.",
  ["inputs", "histories"], "every public function, every argument position, every out-of-domain class, before and after solutions",
  "The tests make only valid calls.",
  [IF], [("argument checks", "xrtm_interface.c CHECK_* macros and range checks at the top of each function")], ["return values, xrtm_get_*(), xrtm_solution()"])
p("C05", "A solution is refused until every required input has been set",
  "A solution call fails if any input that the configuration requires has not been set, whichever it is and in whatever order the others were set, and succeeds once all have been set. Values of inputs never set are never used.",
  ["inputs", "histories", "configurations"], "every subset of required inputs left unset, every configuration class",
  "The tests always set all inputs; the subsets are exponential.",
  [IF, MO], [("set_flags_* and the check before the first solution", "xrtm_interface.c init_*, check inputs")])
p("C06", "Every configuration is either refused at creation or usable",
  "For any combination of options, solvers and counts, creating an instance either fails with the error value, or gives an instance on which every requested solver runs and returns finite outputs; combinations documented as mutually exclusive or as requirements of one another are refused. Creation never crashes and reports the counts it was given back through its getters.",
  ["configurations"], "all pairs of options and counts around every supported solver, including all documented exclusions",
  "The tests create a handful of configurations; there are 2^31 option masks times 2^11 solver masks.",
  [IF], [("xrtm_check_options(), xrtm_check_counts(), xrtm_check_solvers()", "xrtm_interface.c"), ("allocation and destruction", "xrtm_create(), xrtm_destroy()")], ["xrtm_create() and solution return values"])
p("C07", "Asking for fewer or reordered outputs gives the same values",
  "The value of one output (solution type, level or optical depth, viewing angle, azimuth, direction, derivative) does not depend on which other outputs are asked for in the same call, on their order, or on whether they are asked for through the general solution function or the separate radiance, mean radiance and flux functions.",
  ["inputs", "configurations"], "every subset and permutation of output levels, angles, azimuths, solution types and derivatives",
  "The tests ask for one fixed set of outputs.",
  [IF, MO, "src/xrtm_eig_bvp_x.c", "src/xrtm_radiance.c"], [("output selection", "xrtm_model.c get_solution_internal(), xrtm_solution()")])
p("C08", "The multiple-stream solvers agree with one another",
  "For the same inputs, all solvers that solve the same discretized problem (doubling, eigenmatrix and Pade adding, eigenmatrix and matrix-exponential boundary value; and two-, four- and six-stream against them with as many streams; and, to their order of scattering, single scattering, two orders and successive orders) return the same radiances, mean radiances, fluxes and derivatives to the accuracy of the method, with any of the internal algorithm choices (particular solution, symmetric form, eigen solver, source function integration).",
  ["inputs", "configurations"], "every solver pair and algorithm choice over a grid of layers, optical depths, albedos, phase functions, sources, surfaces, streams and geometries",
  "The tests compare each solver with stored numbers for one atmosphere.",
  [MO, "src/xrtm_doubling.c", "src/xrtm_eig_rts.c", "src/xrtm_eig_bvp.c", "src/xrtm_pade_rts.c", "src/xrtm_mem_bvp.c", "src/xrtm_two_stream.c", "src/xrtm_four_stream.c", "src/xrtm_six_stream.c", "src/xrtm_sos.c", "src/xrtm_single.c", "src/xrtm_two_os.c"],
  [("solvers", "xrtm_model.c get_solution_internal()")])
p("C09", "The strategy of combining layers does not change the result",
  "Top-down adding, bottom-up adding and adding with reuse of stacks of layers give the same radiances, fluxes and derivatives as plain adding, for every number of layers, every choice of the layers that are varied by derivatives, and after every change of which layers are varied.",
  ["configurations", "histories", "inputs"], "all subsets of varied layers per derivative, layer counts, levels, sequences of re-declaring varied layers",
  "The tests do not enable stack reuse; the partition into stacks differs for every subset of varied layers.",
  [MO, "src/xrtm_stacks.c", "src/xrtm_adding.c", "src/xrtm_derivs.c"], [("stack chain construction", "xrtm_stacks.c"), ("stack update", "xrtm_model.c get_total_R_T_S_U_W_V_2()")],
  state=[("stack_chain", "partition of the layers into stacks that are combined once", "xrtm_stacks.c")])
p("C10", "Analytic derivatives are the derivatives of the outputs",
  "For every solver with derivatives, every output and every input with a linearized form (optical thickness, single scattering albedo, phase function coefficients, surface kernel amplitudes and parameters, thermal and isotropic sources), the derivative returned equals the limit of finite differences of the output with respect to that input.",
  ["inputs", "configurations"], "every (solver, option set, input, output) combination over a grid of inputs",
  "The tests compare three derivatives of one case with stored numbers.",
  [MO, "src/xrtm_derivs.c", "src/xrtm_adding.c", "src/xrtm_eig_bvp_x.c", "src/xrtm_source_x.c", "src/xrtm_brdf.c", "src/xrtm_radiance.c"], [("tangent linear code beside every calculation", "*_l variables and *_l2.c includes")])
p("C11", "Derivatives are independent of one another and linear in their inputs",
  "The derivative returned for one derivative index depends only on the linearized inputs of that index: it does not change when other derivatives are added, removed or reordered, it is zero when they are all zero, it is the sum of the derivatives for the parts when they are split, and turning derivatives on never changes the outputs themselves.",
  ["inputs", "configurations"], "all assignments of linearized inputs of a menu to derivative slots and all splits",
  "The tests use one assignment; the flags that skip work for zero derivatives depend on the combination.",
  [MO, "src/xrtm_derivs.c", IF], [("flags of what is varied per layer and derivative", "xrtm_interface.c xrtm_update_varied_layers(), xrtm_derivs.c")])
p("C12", "Adjoint and tangent linear derivatives agree",
  "The radiances of a reverse (adjoint) solution and their derivatives with respect to optical thicknesses, single scattering albedos, phase function coefficients and kernel amplitudes are those of the forward (tangent linear) solution, for the solvers and options that have both (eig_add, eig_bvp and single, solar sources, Lambertian surfaces).",
  ["inputs", "configurations"], "every supported solver, option, varied input and output",
  "No test runs the adjoint code.",
  ["src/xrtm_model_a.c", "src/xrtm_eig_bvp_a.c", "src/xrtm_adding_a.c", IF], [("xrtm_solution_2()", "xrtm_interface.c")])
p("C13", "Splitting a layer does not change the outputs",
  "Replacing a homogeneous layer by two layers of the same properties whose optical thicknesses add up (and, with thermal emission or spherical geometry, interface values that interpolate it consistently) leaves all outputs at the levels they have in common unchanged, and a layer of zero optical thickness changes nothing.",
  ["inputs", "configurations"], "every solver, every layer, several split fractions including zero and tiny ones, all sources",
  "The tests have one vertical grid each.",
  [MO, "src/xrtm_adding.c", "src/xrtm_source.c", "src/xrtm_eig_bvp.c"], [("layer combination", "xrtm_adding.c"), ("beam and thermal sources", "xrtm_source.c")])
p("C14", "Outputs are linear in the sources",
  "With everything else fixed, radiances, mean radiances and fluxes are linear in the solar irradiance, the isotropic illumination at the top and bottom, and the thermal sources of levels and surface: scaling the sources scales the outputs and the outputs for several sources together are the sum of those for each alone; with no sources all outputs are zero.",
  ["inputs", "configurations"], "all subsets of a menu of sources and scale factors per solver and option set",
  "The tests have a single source combination.",
  [MO, "src/xrtm_source.c", "src/xrtm_radiance.c"], [("sources", "xrtm_source.c, xrtm_model.c diff_bound_input")])
p("C15", "Energy is conserved",
  "With no absorption in the layers the net flux is the same at every level; over a surface of albedo one and a conservative atmosphere the upward flux equals the total downward flux; in a closed isothermal system the radiation field is isotropic and equal to the source; and without scattering fluxes follow Beer's law exactly.",
  ["inputs", "configurations"], "a grid of optical depths, phase functions, streams, quadratures, geometries, surfaces",
  "The tests compare with stored numbers for absorbing atmospheres only.",
  [MO, "src/xrtm_radiance.c", "src/xrtm_eig_util.c"], [("phase function normalization and quadrature", "xrtm_scatter.c, xrtm_utility.c"), ("conservative case handling", "xrtm_interface.c single scattering albedo adjustment")])
p("C16", "Reciprocity and the symmetries of the problem hold",
  "Exchanging the directions of illumination and view (with the factors of reciprocity) leaves the reflected radiance unchanged, relative azimuths phi and -phi give the same intensity, results depend only on the difference between view and solar azimuth and are periodic, and an atmosphere turned upside down exchanges upward and downward results for isotropic illumination.",
  ["inputs", "configurations"], "all pairs of angles of a grid, azimuths, atmospheres, surfaces and solvers",
  "The tests have one geometry each.",
  [MO, "src/xrtm_scatter.c", "src/xrtm_brdf.c"], [("Fourier expansion in azimuth", "xrtm_model.c"), ("phase matrix symmetry", "xrtm_scatter.c")])
p("C17", "Vector results reduce to scalar results",
  "With phase matrices that have only the scalar phase function the vector intensity equals the scalar one and the polarization components are zero; results for fewer Stokes components equal the leading components of those for more wherever the omitted coupling is zero; and degree of polarization never exceeds one.",
  ["inputs", "configurations"], "all Stokes counts, solvers, options and a grid of inputs",
  "The tests compare no pair of Stokes counts.",
  [MO, "src/xrtm_scatter.c", "src/xrtm_eig_util.c"], [("phase matrices from generalized spherical functions", "xrtm_scatter.c")])
p("C18", "Instances are isolated from one another, in one thread and across threads",
  "Calls on one instance never change what calls on another return, in any interleaving of their calls in one thread and in any schedule of threads that each use their own instance; no data race exists between them.",
  ["schedules", "histories"], "all interleavings of the calls of two instances, all schedules of two threads",
  "The tests are single-threaded and use one instance at a time.",
  [IF, MO, "misc/gutil_error.c"], [("no shared mutable state: everything hangs off the instance", "xrtm_interface.h xrtm_data")])
p("C19", "No operation sequence corrupts memory, leaks or uses uninitialized memory",
  "For every configuration and every sequence of creating, setting, solving (also failing) and destroying, no access is out of bounds, to freed memory or to memory never set, and destroying the instance frees everything it allocated.",
  ["histories", "configurations", "inputs"], "all option and count combinations at small sizes and all short operation sequences, including rejected calls",
  "The tests run without a memory checker and with fixed sizes; odd combinations of counts decide the sizes of hundreds of arrays.",
  [IF, MO, "src/xrtm_work.c", "src/xrtm_save_tree.c", "misc/gutil_alloc.c"], [("allocation by count", "xrtm_interface.c xrtm_create()"), ("work arrays", "xrtm_work.c")])
p("C20", "An allocation failure is reported, not fatal",
  "If any single memory allocation fails during creation or a setter, the call returns its error value without crashing or leaking, and an existing instance gives the same results afterwards as if the call had not been made.",
  ["fault_sequences"], "each allocation of each call failing, one at a time, over a menu of configurations",
  "The tests never inject allocation failures.",
  [IF, "misc/gutil_alloc.c"], [("setjmp/longjmp on failed allocation", "xrtm_interface.c, xrtm_work.c")], ["xrtm_create() return value"])
p("C21", "BRDF kernels have the values, symmetries and derivatives of their formulas",
  "Every surface kernel evaluates to its published formula (independently implemented), is reciprocal where the formula is, is even in relative azimuth, has parameter derivatives that match finite differences, and combinations of kernels are weighted sums; a Lambertian kernel gives exactly its amplitude as albedo.",
  ["inputs", "configurations"], "a grid of both zenith angles, azimuth and parameters for each kernel, and all pairs and triples of kernels",
  "The tests use two kernels with one parameter set each.",
  ["src/xrtm_brdf.c", MO], [("kernel functions", "xrtm_brdf.c")])
p("C22", "The input language describes exactly one model state and is printed back to it",
  "Every input file or command line that sets an instance through the input language results in the same instance state and outputs as the same calls through the interface, printing the inputs of an instance and reading them back reproduces the state, malformed input is reported with an error exit and never crashes or is silently accepted.",
  ["inputs", "programs"], "all statements of the language with valid and malformed values, token deletions, duplications and exchanges",
  "The tests run one input file.",
  ["utils/input_util.c", "utils/input_yylex.l", "utils/callxrtm.c"], [("parser", "utils/input_util.c"), ("lexer", "utils/input_yylex.l")], ["callxrtm exit status and output"])
p("C23", "The language bindings are equivalent to the C interface",
  "A program that makes the same calls through the C++, Fortran 77, Fortran 90 or Python interface as another does through the C interface gets the same values back from every function, for every array shape and index order the binding documents.",
  ["programs", "inputs"], "every function of each binding with asymmetric array shapes",
  "The tests run one example program per binding, which uses a fraction of the functions.",
  ["interfaces/xrtm_int_cpp.h", "interfaces/xrtm_int_f77_util.c", "interfaces/xrtm_int_f90.f90", "interfaces/xrtm_int_py.c"], [("wrappers", "interfaces/")], ["values returned by the wrapper functions"])
p("C24", "Names, masks and indexes of options, solvers, outputs and kernels correspond",
  "For options, solvers, outputs and surface kernels, the conversions between index, mask, name and lists of them are mutually inverse for every member and every set of members, and values or names that belong to none are refused.",
  ["inputs"], "every member, all pairs (and larger sets) of members as lists, and a menu of foreign values",
  "The tests use a few option names.",
  [IF, "misc/gindex_name_value.c", "src/xrtm_brdf.c"], [("generated tables", "misc/gindex_name_value.c")], ["conversion functions"])
p("C25", "The container types behave as the abstract containers they implement",
  "The linked list, the deque-style circular lists and the balanced tree of the support library hold, after any sequence of insertions, removals and searches, exactly what a reference list or map holds, and keep their structural invariants.",
  ["histories"], "all operation sequences up to a depth over small keys",
  "No test exercises them directly.",
  ["misc/glist.c", "misc/gstruct.c", "misc/gstruct_dclist.h", "misc/gstruct_aatree.h"], [("containers", "misc/")], ["container contents"])
p("C26", "Sorting, searching, matrix and string utilities meet their contracts",
  "The sort, compare, string and parse helpers and the small matrix, vector and quadrature helpers return what their textbook definitions require for every input of small size, without touching memory outside their arguments.",
  ["inputs"], "all arrays and strings up to a small length over a small alphabet",
  "No test exercises them directly.",
  ["misc/gutil_sort.c", "misc/gutil_string.c", "misc/gutil_parse.c", "misc/gutil_cmp.c", "misc/gmath_matrix.c", "src/xrtm_matrix.c"], [("helpers", "misc/")], ["function results"])
p("C27", "Scattering coefficient files are read back as written",
  "Headers, phase functions, expansion coefficients (text and binary, 4 or 8 byte values), totals and phase matrices written to a file and read back, in whole or the first coefficients or elements, are the same up to the written precision; a file that is truncated or malformed at any point (as far as the format can show it) and a write that fails at any point are reported as an error, with no crash, leak or open file. Phase functions given by name (Henyey-Greenstein, double Henyey-Greenstein, Rayleigh and their linearizations) have the coefficients of their definitions, and read coefficients are normalised by the first.",
  ["inputs", "fault_sequences", "crash_points"], "all element, coefficient and angle counts of a menu; every truncation point, line, word and number of a file broken; every write failure point; lattices of parameters of the named forms",
  "The tests read two intact files.",
  ["misc/rtutil_scat_io.c"], [("scat_io", "misc/rtutil_scat_io.c")], ["load functions"])
p("C28", "Quadrature rules and special functions are exact",
  "The Gaussian quadratures integrate every polynomial up to their degree exactly, have positive weights and ordered nodes, and the Legendre and generalized spherical functions have the values of their explicit formulas and recurrences.",
  ["inputs"], "every supported number of points, every polynomial degree up to the guarantee, all orders",
  "The tests use two quadrature sizes indirectly.",
  ["misc/rtutil_math.c", "misc/rtutil_support.c", "src/xrtm_support.c"], [("quadrature", "misc/rtutil_math.c")], ["node, weight and function values"])
p("C29", "The finite-difference interface returns differences of the model",
  "Derivatives from the finite-difference interface equal the difference quotients of outputs obtained by setting the perturbed values directly, for every method, and leave the instance's own inputs unchanged.",
  ["inputs", "configurations"], "every perturbable input, every method, several derivatives at once",
  "No test uses the finite-difference interface.",
  ["src/xrtm_fd_interface.c"], [("xrtm_fd_*", "src/xrtm_fd_interface.c")], ["xrtm_fd_solution() outputs"])
p("C30", "A numerical failure inside a solver never yields results",
  "If a linear algebra routine that a solver calls reports failure, the solution call does not return results as if it had succeeded: it prints a message and either ends the program with a non-zero status or returns the error value, in which case the instance gives the same results as before once the cause is gone.",
  ["fault_sequences"], "each linear algebra call of each solver failing, one at a time",
  "The tests never make a factorization or eigenvalue routine fail.",
  [MO, "src/xrtm_eig_util.c", "src/xrtm_matrix.c"], [("return code propagation", "xrtm_model.c, xrtm_eig_rts.c, xrtm_pade_rts.c")], ["xrtm_solution() return value, exit status and message"])
p("C31", "A Fourier tolerance only shortens the azimuthal series",
  "With a Fourier tolerance above zero a radiance solution is the full azimuthal series without its terms from one on: the series ends only after two terms in succession are below the tolerance relative to the sum so far, at every output level, angle, azimuth and direction, and it does end there. Derivatives end at the same term, mean radiances and fluxes do not change, and as the tolerance goes to zero the results are those of a tolerance of zero, with and without the n-t TMS correction and in both convergence options.",
  ["inputs", "configurations"], "all configurations and a tolerance between every two successive sizes of terms",
  "The tests use one tolerance in a few configurations and compare against recorded numbers.",
  [MO, "src/xrtm_sfi_x.c", "src/xrtm_two_stream.c"], [("series loop and stop rule, apply_corrections_fourier", "xrtm_model.c")], ["xrtm_solution() radiances and derivatives at azimuths that separate the terms"])
p("C32", "Ends of input ranges give finite, continuous results",
  "At and near the ends of the ranges of inputs (albedo 0 and 1, extreme asymmetry, optical thickness and angles, angles that coincide, sources of zero) a solution is finite or refused with an error, and results do not jump where the library takes a special path: inputs that differ by next to nothing give outputs that differ by next to nothing.",
  ["inputs", "configurations"], "all configurations, all combinations of extreme values, a pair of inputs on either side of each special case",
  "The tests use ordinary values in the middle of the ranges.",
  [MO, "src/xrtm_eig_util.c", "src/xrtm_doub_rts.c", "src/xrtm_sfi_x.c", "src/xrtm_two_stream.c"], [("mu_0_singularity_adjust()", "xrtm_interface.c"), ("no_scatter_r_t_s()", "xrtm_model.c")], ["xrtm_solution() return value and outputs"])
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(f, "w") as o:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        o.write(json.dumps(x) + "\n")
print(len(P))
