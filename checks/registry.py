"""What each check builds and explores."""
import os
import xbuild


def prog(name, sources, variant="opt", args=(), **kw):
    def f():
        return [xbuild.program(name, sources, variant, **kw)] + list(args)
    return f


def prog_shared(name, sources, variant="opt", args=(), **kw):
    def f():
        return [xbuild.program_shared(name, sources, variant, **kw)] + list(args)
    return f


def mk(**progs):
    def f():
        return {k: p() for k, p in progs.items()}
    return f


XH = ["xh.c", "mc.c"]
CHECKS = {}
NOT_APPLICABLE = {}
CHECKS["C01"] = dict(
    build=mk(hist=prog("hist", ["hist.c"] + XH)),
    technique="stateful exploration of the real code: all operation histories to a depth, differential oracle (new instance)",
    note="Exhaustive over the stated alphabet of values and depth; every history runs on the compiled library. Values outside the alphabet are not covered. Trusts the harness's setter wrapper and that a new instance is right (C08-C17 check that).",
    rule="A case is a configuration and a first action; it runs every continuation (setter call to one of 2-3 values per input, with or without a run in between, with every solver of the instance). Non-trivial: a completed history whose last run was compared with a new instance.",
    bounds_quick="27 configurations, all histories of up to 2 input changes (every input of the instance, 2-3 values each), runs after each or only the last; solver sequences at depth 2 thinned to every fifth",
    bounds_thorough="27 configurations, all histories of up to 3 input changes, all solver sequences")


ST = ["state.c"] + XH


def state(pid, technique, rule, bq, bt):
    CHECKS[pid] = dict(
        build=mk(state=prog("state", ST, "opt", [pid])),
        technique=technique,
        note="Exhaustive over the stated operations, states and depth for 33 configurations; each sequence runs on the compiled library against a model of the inputs (which are set, and their values). Values outside the alphabet are not covered.",
        rule=rule, bounds_quick=bq, bounds_thorough=bt)


state("C03", "explicit-state exploration: all setter sequences to a depth on the real code, lockstep with a model of the instance's inputs",
      "A case is a configuration and a first setter call (every form, index and value); it is continued by every second one from a new and from a fully set instance, and all getters are compared with the model after each. Non-trivial: a completed two-call sequence, or a solution with setters in another form or order.",
      "33 configurations, every form and index of every setter with 2 values, all sequences of 2 from a new and from a fully set instance, 1 from a solved one; outputs: each input in each form, first and last, and all reversed",
      "the same with third calls (every fifth), and all forms in all those orders")
state("C04", "explicit-state exploration: every rejected call in every class of state on the real code, lockstep comparison of getters and outputs",
      "A case is one bad call (out-of-range index, bad value at each array position, missing option) on one configuration; it is made in each state (new, set, solved, solved and then changed), all getters are compared before and after, and the solution with that of a new instance. Non-trivial: a compared solution after a rejected call.",
      "33 configurations, ~100-200 bad calls each, in 4 classes of state, changes of the input concerned and one other",
      "the same with changes of every input before the bad call")
state("C05", "explicit-state exploration: all subsets of missing inputs to a size, in several orders, on the real code",
      "A case is one required input left out, alone and with every other; solutions must be refused until the last is set, and then equal those of a new instance. Non-trivial: a successful solution compared.",
      "33 configurations, all subsets of 1 and 2 missing inputs, 3 orders (forward, backward, each twice); all pairs of linearized inputs never set",
      "the same with subsets of 3")

REL = ["rel.c", "scen.c", "ref.c"] + XH


def rel(pid, technique, rule, dims="all dimensions", kq=2, kt=3, extra_note=""):
    CHECKS[pid] = dict(
        build=mk(rel=prog("rel", REL, "opt", [pid])),
        technique=technique,
        note="Exhaustive over a scenario lattice (11 solvers, a base configuration each, every combination of up to k deviations in options, counts, "
             "surfaces, sources, geometry and values), run on the compiled library. Values between those of the lattice and combinations of more deviations are not covered." + extra_note,
        rule=rule,
        bounds_quick="scenario lattice over %s with up to %d deviations" % (dims, kq),
        bounds_thorough="scenario lattice over %s with up to %d deviations" % (dims, kt))


SYS = "exhaustive enumeration of a bounded space of configurations and inputs on the real code, "
rel("C06", SYS + "acceptance implies usability",
    "A case is a scenario that xrtm_create accepts; it is set up and solved. Non-trivial: the solution succeeded and its values were examined.")
rel("C10", SYS + "fourth-order finite differences as oracle",
    "A case is a scenario; every derivative is compared with finite differences of the real outputs, with runs at four shifted inputs. Non-trivial: a group of outputs whose derivative is not zero.")
rel("C02", SYS + "with and without every SAVE_* combination",
    "A case is a scenario solved repeatedly with input changes in between, with and without the options that save intermediate results. Non-trivial: outputs were compared.", kq=1, kt=2)
rel("C07", SYS + "full against partial and reordered requests",
    "A case is a scenario; every subset or reordering of its outputs is requested separately and compared with the full request. Non-trivial: compared outputs that are not zero.", kq=1, kt=2)
rel("C08", SYS + "against an independent reference solution and between solvers",
    "A case is a scenario solved by every solver that accepts it, and by an independent discrete-ordinate reference (matrix exponentials, multiple shooting) for unpolarized ones. Non-trivial: compared outputs that are not zero.")
rel("C09", SYS + "adding strategies against plain adding",
    "A case is a scenario solved by plain adding and by top-down, bottom-up or stack-reusing adding, over the choices of varied layers. Non-trivial: compared outputs that are not zero.")
rel("C11", SYS + "subsets, permutations and sums of derivatives",
    "A case is a scenario; derivatives are removed, permuted, zeroed, scaled and added. Non-trivial: compared outputs that are not zero.")
rel("C13", SYS + "layers split, zero layers inserted",
    "A case is a scenario; one layer is split in two. Non-trivial: compared outputs that are not zero.")
rel("C14", SYS + "sources scaled and superposed",
    "A case is a scenario; each source is scaled, and solved alone. Non-trivial: compared outputs that are not zero.")
rel("C15", SYS + "energy balance",
    "A case is a scenario for which a conservation law holds. Non-trivial: a balance of terms that are not zero.")
rel("C16", SYS + "reciprocity, azimuth and turning upside down",
    "A case is a scenario and its reciprocal or mirrored one. Non-trivial: compared outputs that are not zero.")
rel("C17", SYS + "vector against scalar",
    "A case is a vector scenario with scalar phase matrices against the scalar one. Non-trivial: compared outputs that are not zero.")


CHECKS["C21"] = dict(
    build=mk(brdf=prog("brdf", ["brdf.c"] + XH)),
    technique=SYS + "independent extended-precision formulas of the kernels as oracle",
    note="The reflectance is observed through the public interface, as the radiance reflected under an atmosphere with an optical depth of 1e-13, for every kernel on a lattice of parameters, sun and view angles and azimuths; "
         "the kernels are written again in long double from the publications, with derivatives from differences of those. Parameters and angles between the points of the lattice are not covered.",
    rule="A case is a kernel with a point of its parameters and a sun angle, or a sequence of kernels; it is solved in every way of obtaining radiances. Non-trivial: a solution whose radiances and derivatives were compared with the formulas.",
    bounds_quick="11 kernels, all points of their parameter lattices (1 to 81 each), 7 sun angles, up to 6 view angles x 3 azimuths, 23 solver and output forms (6 of them in every case, the others in turn), all sequences of up to 3 kernels, all 7 combinations of sun, sky and surface emission",
    bounds_thorough="the same with all 23 forms in every case")
CHECKS["C24"] = dict(
    build=mk(names=prog("names", ["names.c"] + XH)),
    technique="exhaustive enumeration of members, masks and lists on the real code, lockstep with a model of the tables",
    note="Covers the conversion functions of options, solvers, outputs, kernels and the internal tables. Masks of many members are covered by all sets of up to three members and their complements.",
    rule="A case is a table; every index, value, name, set of members, list and buffer length of the stated bounds is converted there and back. Non-trivial: a conversion of a member.",
    bounds_quick="every table; all members, all sets of up to 2 members and a quarter of those of 3 with their complements, lists, buffers from 0 to more than enough (middle lengths thinned), a menu of foreign names and values",
    bounds_thorough="the same with nothing thinned")
CHECKS["C25"] = dict(
    build=mk(contain=prog("contain", ["contain.c", "mc.c"], "asan")),
    technique="explicit-state exploration: all operation sequences to a depth on the real code (AddressSanitizer), lockstep with a reference container",
    note="Covers the list, circular list and balanced tree of misc/ with small keys. Sequences longer than the stated depth are not covered.",
    rule="A case is a first operation (or pair) on a container; every continuation is run, contents and structural invariants are compared after each operation. Non-trivial: an operation that changes the contents.",
    bounds_quick="all sequences of operations over small keys to the depths in the evidence file",
    bounds_thorough="one or two operations more")
CHECKS["C27"] = dict(
    build=mk(io=prog("io", ["io.c", "mc.c"]), heap=prog("io", ["io.c", "mc.c"], "asan")),
    technique="exhaustive enumeration of files of every format within bounds, of every single fault in them (each truncation point, line, word and number) and of every write failure point, on the real code",
    note="Every file of the lattice is written by each writer and read back by each reader in every form (number of coefficients, elements and word size wanted; header kept or skipped; name or stream; two records in one stream) and compared with what the format can hold. Each file is then cut after every byte, has each line left out, each word replaced or left out, each number in the binary form replaced; the reader must return an error, leave no descriptor open and no memory allocated, and touch nothing outside its arrays (AddressSanitizer). A text file cut inside its last number cannot be told from an intact one. Writes stop after every number of bytes (file size limit) and on a full device. Phase functions given by name are compared with closed forms.",
    rule="A case is a file, or a file and a kind of fault; it runs every reading or every single fault. Non-trivial: values compared, or a fault that had to be reported.",
    bounds_quick="up to 5 coefficients or angles, 1-6 elements, 4 or 8 bytes, up to 4 quadrature points, 3 Fourier terms, 3 quadratures; 12 files with every single fault; headers: 9 distributions x 11 sets of values; 7 named forms x 6 counts x parameter lattices",
    bounds_thorough="up to 8 coefficients or angles")
CHECKS["C28"] = dict(
    build=mk(quad=prog("quad", ["quad.c"] + XH, "asan")),
    technique=SYS + "every order and degree against moments, recurrences and explicit formulas in long double (AddressSanitizer)",
    note="Orders beyond those stated are not covered; abscissae of the functions come from a fixed set.",
    rule="A case is an order of a rule, or the indexes of a function. Non-trivial: a rule or function value compared.",
    bounds_quick="every order of the Gauss-Legendre, Legendre-Radau and trapezoidal rules up to the limits in the evidence file, every polynomial degree of exactness, 8 intervals; Legendre and generalized spherical functions for every order up to a limit",
    bounds_thorough="larger orders")
CHECKS["C26"] = dict(
    build=mk(util=prog("util", ["util.c", "mc.c"], "asan")),
    technique=SYS + "every input of a bounded set against a reference written from the definition of the helper, in buffers of exact size (AddressSanitizer); linear routines on all unit matrices and one full matrix, which determine them",
    note="Inputs longer than the bounds are not covered; the pivoting of LAPACK itself is taken as given beyond the systems solved.",
    rule="A case is a family of inputs of one helper; states count the inputs. Non-trivial: a result compared with the reference.",
    bounds_quick="sequences of up to 8 elements over 3 values and permutations of 7 with tails, for 8 sorting routines; strings of up to 5-6 characters over alphabets of 3-7 for each string, token, number and file helper; number parsers on strings of up to 5 characters over 10; arrays of rank 1-7 with dimensions 0-3 (0-2 above rank 4); matrices up to 4 x 4, products up to 3 x 3 x 3 with 16 (alpha, beta), powers up to 129; all 2 x 2 pairs over 4 values and 3 x 3 matrices over 3 values",
    bounds_thorough="sequences of up to 10, strings of up to 6-8 characters, products up to 4 x 4 x 4")

WRAP = ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "init_array1_d", "init_array2_d", "init_array1_dc", "init_array2_dc")] + ["-rdynamic", "-ldl"]
MEM = ["mem.c", "wrap.c", "scen.c"] + XH
CHECKS["C18"] = dict(
    build=mk(iso=prog_shared("iso", ["iso.c", "scen.c"] + XH)),
    technique="exhaustive exploration of all interleavings of the calls of two instances on the real code, differential oracle (the instance alone); for instruction-level schedules, independence is decided: with the library's writable memory read-only, no call of the lattice may write memory that instances share",
    note="Two instances, each with a life cycle of five operations (create, set and update, solve, change and solve again, destroy): all 252 merges of the two sequences run for each pair of scenarios, and every output must be bitwise what the instance gives alone. Preemption inside calls is covered by independence instead of enumeration: the core is linked as a shared library whose data and bss are mprotect'ed during every call of every scenario of the lattice; a write there is the only way for two calls on different instances to be dependent, apart from libc state. Real threads running the scenarios confirm it (that part alone would be sampling and decides nothing). libc-internal state (stdio locks, malloc) is trusted.",
    rule="A case is an interleaving of a pair of scenarios (interleavings), a scenario run with the library's memory read-only (shared), or a pair in real threads (threads). Non-trivial: both instances produced solutions.",
    bounds_quick="all 252 interleavings of 5 operations of two instances, for all pairs of the base scenarios of the 11 solvers; shared writes: 11 solvers, all combinations of up to 2 deviations",
    bounds_thorough="pairs that include single deviations; shared writes: all combinations of up to 3 deviations")
CHECKS["C19"] = dict(
    build=mk(heap=prog("mem", MEM, "asan", ["heap", "2"], extra_ld=WRAP),
             fill=prog("mem", MEM, "poison", ["fill", "2"], extra_ld=WRAP),
             calls=prog("state", ST, "asan", ["C04"])),
    technique="exhaustive enumeration of a scenario lattice and of call sequences on the real code, monitored by AddressSanitizer, an interposed allocator (live blocks, fill patterns) and the library's own work array poisoning",
    note="Every scenario of the lattice (11 solvers, base configuration and all combinations of up to k deviations) goes through one life cycle that includes failing solutions, every setter form with exactly sized heap arrays, both ways to ask for solutions, changed inputs and destruction, under AddressSanitizer; blocks still live after destruction are leaks. Memory never set: the same scenario runs with new heap memory, the stack below each call and the work arrays filled with four patterns (0, NaN, huge, -0.75); outputs must be bitwise the same. Overruns inside one allocation and uninitialized values that no output depends on are not seen. Trusts AddressSanitizer.",
    rule="A case is a scenario, or a configuration and a rejected call (the sequences of C04). Non-trivial: a solution that was computed under the monitor, or outputs compared between fill patterns.",
    bounds_quick="11 solvers, all combinations of up to 2 of the deviations; 33 configurations with each rejected call in 4 classes of state",
    bounds_thorough="all combinations of up to 3 deviations; C04's thorough sequences")
CHECKS["C20"] = dict(
    build=mk(alloc=prog("mem", MEM, "opt", ["alloc", "1"], extra_ld=WRAP)),
    technique="exhaustive fault injection on the real code: each single allocation of a call fails in turn",
    note="For every scenario, creation is repeated with its n-th allocation failing, for every n: it must return the error value, leave nothing allocated and not crash; the next creation must succeed. Then every setter form and the update of varied layers is called with each of its allocations failing, and again without; the outputs must be bitwise those of an instance without failures, and everything must be freed by destruction. Failures during solutions are not covered: the work arrays end the process by design.",
    rule="A case is a scenario; it runs one creation for each of its allocations and each setter once for each allocation it makes. Non-trivial: a creation in which an allocation failed.",
    bounds_quick="11 solvers, base configuration and each single deviation, every allocation of creation and of each setter call",
    bounds_thorough="all combinations of up to 2 deviations")
INPUT = ["input.c", "xh.c", "mc.c"]


def inp(variant):
    def f():
        return [xbuild.program_utils("input", INPUT, variant, extra_ld=["-Wl,--wrap=exit"])]
    return f


CHECKS["C22"] = dict(
    build=mk(lang=inp("opt"), heap=inp("asan")),
    technique="exhaustive enumeration of input texts generated from a grammar and of every single fault in them, on the real reader, writer and callxrtm program, against a reference state built beside the text and the interface calls it stands for",
    note="Texts are produced from a model of the instance together with the state they describe; the getters of the instance read must equal that state, and printing it by every route (string, file, each style) and reading it back must give it again. Faults: each token left out, repeated, exchanged with the next, or replaced by each of a set of bad tokens, in every style; the reader must end with a message through the error exit, or, if the text still means something, the instance must accept it; it must not crash or read outside its memory (AddressSanitizer). callxrtm is run as a program by file, standard input and strings; every column it prints is compared with the library called directly. Texts longer or of more dimensions than the lattice are not covered.",
    rule="A case is a configuration, a statement and form, or a text and the position of a fault; it runs every style, fault or setting. Non-trivial: a state compared after reading, a fault that was refused, or output compared.",
    bounds_quick="8 configurations; every statement in every form (value, array, per level/layer/derivative, indexed and all) and pairs of statements; all single token faults of 12-word fault sets in 4 styles; index ranges at and beyond each end; coefficient files; callxrtm in 4 modes x solvers x outputs x azimuths, half of the combinations; a third of the pairs of statement forms",
    bounds_thorough="all of them")
FDI = ["fd.c", "scen.c"] + XH
CHECKS["C29"] = dict(
    build=mk(fd=prog("fd", FDI, "opt", ["2", "solve"]), heap=prog("fd", FDI, "asan", ["1"])),
    technique="exhaustive enumeration of a scenario lattice, all difference methods, all perturbable inputs and output selections on the real code, differential oracle (new instances with the perturbed values); all setter forms, indexes and pairs of forms against a reference state",
    note="For each scenario every scalar input that can be perturbed is a derivative of its own, and one perturbs everything, one nothing. Derivatives must equal the difference between solutions of new instances set to the perturbed values, divided by delta, as the code defines delta (the documentation does not: it is the divisor, for the central method of the difference between both sides). Afterwards all inputs and the instance's own solution must be bitwise what they were, also after a perturbation out of range, a zero delta, flux divergence or a solver not created for. Outputs not asked for must not be written. Setters and getters: every form, every index and one beyond each end, in arrays of exact size (AddressSanitizer).",
    rule="A case is a scenario (solve, gate) or a scenario and a number of derivatives (setters). Non-trivial: a solution compared, a setter that changed the state, or a refusal followed by the comparison of the instance.",
    bounds_quick="11 solvers, all combinations of up to 2 deviations (solve; single deviations under AddressSanitizer, setters and refusals), 3 methods, output selections of one kind and all; up to 26 derivatives",
    bounds_thorough="up to 3 deviations, every output selection, up to 40 derivatives")
LAPACK = ["-Wl,--wrap=%s%s_" % (t, r) for r in ("gbtrf", "gbtrs", "getrf", "getri", "getrs", "gttrf", "gttrs", "potrf", "potri", "potrs") for t in "dz"] + ["-Wl,--wrap=dgeev_", "-Wl,--wrap=dsyev_"]
CHECKS["C30"] = dict(
    build=mk(num=prog("num", ["num.c", "scen.c"] + XH, "opt", ["1"], extra_ld=LAPACK)),
    technique="exhaustive fault injection on the real code: each single call of a solution to a LAPACK routine reports failure in turn",
    note="The calls a solution makes to factorization, solving, inversion and eigenvalue routines are counted; for every one of them the solution is repeated in a process of its own in which that call returns a non-zero info. It must not return success; it must write a message and exit with a non-zero status, or return an error after which the same instance gives bitwise the earlier results. Failures that are not reported by info (overflow, loss of precision) are not covered.",
    rule="A case is a scenario; it runs one process for each call. Non-trivial: a failure that ended with a message and without results.",
    bounds_quick="11 solvers, base configuration and each single deviation, every call",
    bounds_thorough="all combinations of up to 2 deviations, every call")


CHECKS["C31"] = dict(
    build=mk(four=prog("four", ["four.c", "scen.c"] + XH, "opt", ["2"], extra_c=["-DMP=24"])),
    technique="exhaustive enumeration of configurations and of the tolerances that end the azimuthal series differently, on the real code against the stop rule",
    note="A solution without tolerance at as many azimuths as the series has terms gives every term of every output value. From them follows for each tolerance where the series may and must end; a solution is made for a tolerance between every two successive sizes of terms (and for one that is larger than and one that is smaller than all terms) and must be the full series without whole terms, the same ones in all values, ended neither early nor late. With the n-t TMS correction summed first, the sizes of the first three terms are not known, and only ends at later ones are judged. Outputs that are only rounding noise (below 1e-13) make the size of a term unknown. Quick takes at most five tolerances of each scenario.",
    rule="A case is a scenario; a transition is a tolerance tried in it. Non-trivial: a tolerance that cut the series.",
    bounds_quick="11 solvers (without single scattering), all combinations of up to 2 deviations, up to 5 tolerances between sizes of terms",
    bounds_thorough="all combinations of up to 3 deviations, every tolerance between two sizes of terms")


def bindings():
    so, spec = xbuild.python_bind("bind")
    return {"calls": [xbuild.program_bind("bind")], "python": ["/usr/bin/python3", os.path.join(xbuild.VERIF, "harness", "bind_py.py"), so, spec]}


CHECKS["C23"] = dict(
    build=bindings,
    technique="exhaustive enumeration of the functions of every binding, array shapes, indexes and outcomes of the C function on the real binding code, over a recording stand-in for the C interface (model: each call is one C call with the same values)",
    note="The bindings are compiled from /repo and linked to a stand-in that records the call it gets and answers with a given outcome and values. For every function of the C++, Fortran 77 and 90 (whole arrays and array sections) and Python bindings of xrtm and xrtm_fd: the recorded call must be the one the C interface documents for these arguments (every element of every array at its place, all dimensions different), the results must come back at their place, a failure must be reported as the language does (return value, exception), an index or shape that does not fit must be refused without a call, and nothing may be left allocated, written past an array (AddressSanitizer) or hold a reference. Constants and masks of the Fortran modules are compared with those of the C headers, and the dimensions the Julia binding asks for. The behaviour of the C functions themselves is that of the other properties. The IDL binding needs IDL, and the Julia code itself a Julia, to run: both are not covered.",
    rule="A case is a function in a language; it makes the call for every combination of the dimensions, indexes and outcomes of the bounds. Non-trivial: a call recorded and compared with results handed back.",
    bounds_quick="717 cases in C++ and Fortran, 117 in Python; dimensions from 1 to 3 in every combination that leaves them apart, each index one below, inside and one beyond its range, success and failure of the C function and of each memory allocation of a binding",
    bounds_thorough="the same with more dimensions")


CHECKS["C12"] = dict(
    build=mk(adj=prog("adj", ["adj.c", "scen.c"] + XH, "opt", ["2"])),
    technique="exhaustive enumeration of configurations on the real code, the adjoint solution against the forward solution",
    note="Every scenario's radiances and their derivatives are computed by a forward and by a reverse (adjoint) instance and compared. Derivatives with respect to omega, optical thickness, coefficients and kernel amplitudes, those that the adjoint gives. Solvers and options for which the adjoint isn't implemented (see the known findings) are shown alone and not combined with other deviations.",
    rule="A case is a scenario with derivatives and radiances. Non-trivial: a derivative that isn't zero was compared.",
    bounds_quick="eig_add, eig_bvp and single with all combinations of up to 2 deviations; the other solvers without any",
    bounds_thorough="all combinations of up to 3 deviations")


CHECKS["C32"] = dict(
    build=mk(ext=prog("ext", ["ext.c", "scen.c"] + XH, "opt", ["1"])),
    technique="exhaustive enumeration of configurations and of values at the ends of the ranges of inputs, on the real code: finite or refused, and the same on either side of a special case",
    note="Family ext: in every scenario omega, g, optical thickness, solar and viewing angle take values at and near the ends of their ranges in all combinations of up to two (three), for one layer and for all layers; a solution must give finite values of a sane size or an error. Family near: 22 kinds of pairs of inputs that differ by next to nothing where the library goes a way of its own (no scattering, conservative, angles that coincide with each other or a node, sources of zero, layer boundaries, one coefficient and others); results must be equal within a tolerance. Values between those of the menu are not covered.",
    rule="A case is a scenario (and a pair); a transition is a solution (a comparison). Non-trivial: an extreme was taken and the solution given, a pair was compared.",
    bounds_quick="11 solvers, up to 1 deviation, up to 2 extremes at once; 22 pairs",
    bounds_thorough="up to 2 deviations, up to 2 extremes at once; 22 pairs")
