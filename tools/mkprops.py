#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
S = "src/_booz_xform/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Output spectra are the documented Boozer integrals of the input equilibrium",
 "For every consistent input equilibrium (symmetric or asymmetric, any nfp, mode lists, resolution, sign of iota/G/n) and every requested surface, each output spectrum of |B|, R, Z, nu and the Jacobian equals, to rounding error, the Fourier integral over Boozer angles that the documentation defines, evaluated by the trapezoidal rule on the standard (4 mboz + 2) x (4 nboz + 2) grid of the original angles (one toroidal point when nboz = 0). The normalisation of the (0,0) mode, the definition of nu from the covariant field components with the m = 0 modes taken from the toroidal component, and the covariant (G, I) values are those of the documentation.",
 ["inputs", "configurations"], "all input equilibria (mode tables, amplitudes, nfp, asym, ns_in), all mboz >= 1 and nboz >= 0, all selections of surfaces",
 "The regression test compares a handful of fixture files at one resolution each against Fortran output with loose tolerances; no test has nboz = 0 with ntor > 0, mboz = 1, unordered mode tables, negative G or reversed n, and none checks an individual coefficient independently.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_trig.cpp"],
 [("transpmn: w from bsubu/bsubv", S+"surface_solve.cpp"), ("inverse Fourier sums, nu, dBoozer/dVMEC", S+"surface_solve.cpp"), ("trig recurrences", S+"init_trig.cpp"), ("grid and mode table", S+"init.cpp")],
 ["output attributes after run()"])

prop("C02", "The Boozer Fourier series reproduces the field at every point",
 "With enough resolution, summing the output series at the Boozer image (theta_B, zeta_B) of any original point (theta, zeta) gives back |B|, R and Z of the input at that point, the series for nu gives zeta_B - zeta, and the Jacobian series times |B|^2 equals G + iota I. The error falls to rounding level as mboz and nboz increase, for any equilibrium whose covariant components admit Boozer coordinates.",
 ["inputs"], "all equilibria with a known (manufactured) Boozer transformation, all evaluation points, all sufficiently large resolutions",
 "Unit tests compare coefficient arrays with stored files; nothing ever evaluates the series at a point or knows the true transformation.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_trig.cpp"],
 [("theta_B = theta + lambda + iota nu, zeta_B = zeta + nu", S+"surface_solve.cpp"), ("integration with d(Boozer)/d(VMEC)", S+"surface_solve.cpp")],
 ["output attributes after run()"])

prop("C03", "Mode table and array shapes are canonical for every resolution",
 "After a transformation the output mode list has exactly the (2 nboz + 1)(mboz - 1) + nboz + 1 distinct pairs with m = 0..mboz-1, |n| <= nboz (n >= 0 for m = 0), the toroidal numbers multiplied by nfp, ordered by m then n with (0,0) first. Every output array has exactly one row per mode and one column per requested surface (radial profiles: one entry per surface, or per input surface), and the arrays that exist only without stellarator symmetry are 0 x 0 for a symmetric configuration.",
 ["inputs", "configurations", "histories"], "all mboz >= 1, nboz >= 0, nfp >= 1, asym, numbers of surfaces including none, and earlier runs with other settings",
 "Tests check shapes for the fixture resolutions only, never for nboz = 0, mboz = 1, large tables, no surfaces, or after a change of resolution or symmetry in the same object.",
 [S+"init.cpp", S+"booz_xform.hpp"], [("mode loop, setZero of outputs", S+"init.cpp")], ["output attributes after run()"])

prop("C04", "Each surface is transformed independently and labelled correctly",
 "Column k of every output belongs to input surface compute_surfs[k] for any order, repetition or subset of surfaces, and is the same whatever other surfaces are requested and whatever data the other surfaces hold. s_b, G and I of column k are those of that surface, and the *_all profiles always cover all input surfaces.",
 ["inputs", "configurations"], "all lists of surfaces (subset, permutation, repetition, longer than ns_in, single, empty) of all equilibria",
 "Tests use ascending lists without repetition and compare with whole-array references, so a mix-up between js and js_b on other lists is not reachable.",
 [S+"surface_solve.cpp", S+"init.cpp"], [("js = compute_surfs[js_b]", S+"surface_solve.cpp"), ("s_b, G/I tables", S+"init.cpp")], ["output attributes after run()"])

prop("C05", "Parallel transformation is race free and schedule independent",
 "run() gives bit-for-bit the same outputs and the same files for any number of threads, any scheduling and delay of the threads, and any build with or without OpenMP, and its threads never access shared data without synchronisation. This holds for any number of surfaces, more or fewer than the threads, and at every verbosity.",
 ["schedules", "configurations"], "all interleavings of the worker threads, thread counts, numbers of surfaces, verbosity levels, and OpenMP settings",
 "A data race shows up only for some schedules; the tests run each case once with the default team and compare with tolerances that hide a rare corruption.",
 [S+"run.cpp", S+"surface_solve.cpp", S+"check_accuracy.cpp", S+"init.cpp"],
 [("omp parallel for over surfaces", S+"run.cpp"), ("per-thread work arrays", S+"surface_solve.cpp"), ("omp critical around printing", S+"check_accuracy.cpp")],
 ["ThreadSanitizer reports", "output attributes and stdout per schedule"])

prop("C06", "Distinct objects never influence each other",
 "Operations on one object leave every other object unchanged, whether the calls are interleaved in one thread or transformations of different objects run at the same time in different threads, and an object and its copy are independent from the moment of copying. Results with several live objects are bit-for-bit those each object would have produced alone.",
 ["histories", "schedules"], "all interleavings (sequential and concurrent) of operations on two or more objects, including destruction and copying",
 "Tests use one or two objects one after another; hidden shared state (statics, buffers, default arguments) needs a second object in the right state, or threads, to show.",
 [S+"booz_xform.hpp", S+"init.cpp", S+"surface_solve.cpp", S+"init_from_vmec.cpp"],
 [("all state in members, default arguments in a shared static", S+"booz_xform.hpp")], ["attributes of all live objects after each step", "ThreadSanitizer reports"])

prop("C07", "Results depend only on the current inputs, never on history",
 "Whatever sequence of reads, assignments, transformations, writes and failed calls an object has been through, running it gives the same outputs, and writes the same file, as a new object given the same current inputs; loading a file replaces all earlier data of its kind. Running or writing twice in a row changes nothing.",
 ["histories"], "all finite sequences of API operations on one object, ending in a transformation, a write or a load",
 "Every test starts from a fresh object and performs one or two operations; stale buffers, sizes or flags need a multi-step history with a change of resolution, symmetry or equilibrium.",
 [S+"init.cpp", S+"init_from_vmec.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"write_boozmn.cpp"],
 [("setZero/resize of every array in init()", S+"init.cpp"), ("reset of optional profiles", S+"init_from_vmec.cpp")], ["all attributes and the written file, against a fresh object"])

prop("C08", "VMEC radial grids are converted as documented",
 "Half-grid quantities keep their values with VMEC's empty first surface dropped; R and Z are moved from the full to the half grid by the mean for even m and linearly in amplitude/sqrt(s) for odd m, with the m = 1 value at the axis extrapolated; the s grid is uniform half-grid. Defaults (surfaces, mboz = 6 mpol, nboz = max(2 ntor - 1, 0)), the flux profiles on the full grid with phip = -phipf / 2 pi, and the boundary toroidal flux follow.",
 ["inputs"], "all VMEC data sets with ns >= 2, symmetric or not, with or without flux profiles",
 "Fixtures only have large ns and R, Z at machine-precision consistent values; the existing tests see the interpolation only through a tolerance on the final spectra.",
 [S+"init_from_vmec.cpp"], [("radial interpolation, defaults", S+"init_from_vmec.cpp")], ["input attributes after init_from_vmec() / read_wout()"])

prop("C09", "Reading a wout file is faithful in every NetCDF flavour",
 "read_wout() loads every documented quantity of a VMEC wout file into the matching attribute without loss, whatever the NetCDF format (classic, 64-bit offset, CDF-5, NetCDF-4), numeric storage type, order of the variables or presence of unrelated ones; the asymmetric arrays are used exactly when lasym is set and the flux profiles exactly when asked for. The file is not modified.",
 ["inputs", "configurations"], "all well-formed wout files in all NetCDF formats and types, with flux on or off",
 "The fixtures are a few files of one format written by VMEC itself.",
 [S+"read_wout.cpp", S+"netcdf_reader.cpp", S+"init_from_vmec.cpp"], [("NetCDFReader::get", S+"netcdf_reader.cpp"), ("variable list", S+"read_wout.cpp")], ["attributes after read_wout(), bytes of the file"])

prop("C10", "boozmn files contain exactly the results in the documented format",
 "A file written after a transformation is a classic NetCDF file with the documented dimensions, variables and types, and an independent reader finds in it exactly the values of the object: spectra by surface and mode, p = -nu, radial profiles with a 0 prepended, 1-based jlist = compute_surfs + 2, scalars, and the flux profiles or zeros. The asymmetric variables are present exactly for an asymmetric configuration, nothing is left undefined, and an existing file is replaced completely.",
 ["inputs", "configurations"], "all results of transformations (symmetric or not, with or without flux profiles, any surfaces and resolution) and any previous content of the path",
 "The write/read test reads the file back with the same library for one configuration, so a symmetric mistake in writer and reader, an unread variable, or undefined padding is invisible.",
 [S+"write_boozmn.cpp", S+"netcdf_writer.cpp"], [("variable table", S+"write_boozmn.cpp"), ("reversed dimension order, deferred pointers", S+"netcdf_writer.cpp")], ["bytes of the file through an independent reader"])

prop("C11", "boozmn files round-trip and foreign boozmn files load faithfully",
 "Reading a boozmn file, written by this program or by any other that follows the format (any NetCDF flavour, with or without the optional chi_b and aspect_b), sets every result attribute, the grids s_b and s_in, G and I and compute_surfs to what the file says, exactly. Writing and reading back reproduces the object, and rewriting the loaded data reproduces the file.",
 ["inputs", "histories"], "all well-formed boozmn files and all sequences write -> read -> write",
 "One symmetric and one asymmetric round trip with few attributes compared; files from the Fortran program are only compared array by array for fixtures.",
 [S+"read_boozmn.cpp", S+"write_boozmn.cpp", S+"netcdf_reader.cpp"], [("inverse mapping of the format", S+"read_boozmn.cpp")], ["attributes after read_boozmn(), bytes of the rewritten file"])

prop("C12", "No memory error, undefined behaviour or leak on valid use",
 "For every valid input and every sequence of valid API calls there is no out-of-bounds or use-after-free access, no undefined behaviour such as integer overflow or an invalid conversion, no failed internal assertion, and no memory is leaked. This includes the smallest cases: two radial surfaces, a single mode, mboz = 1, nboz = 0, no surfaces, every verbosity.",
 ["inputs", "histories"], "all valid inputs and call sequences, including boundary sizes",
 "An out-of-bounds read of a few bytes usually gives plausible numbers; the tests run without instrumentation and only on mid-sized fixtures.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_trig.cpp", S+"check_accuracy.cpp", S+"init_from_vmec.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"write_boozmn.cpp"],
 [("array sizing", S+"init.cpp"), ("loops bounded by mode numbers", S+"surface_solve.cpp")], ["AddressSanitizer, UBSan, LeakSanitizer, Eigen assertions"])

prop("C13", "Invalid input is rejected with an exception and does no damage",
 "Inconsistent or out-of-range inputs (array sizes, mode numbers, surfaces, resolution, nfp, ns) and malformed wout or boozmn files (missing variables, wrong dimensions or types, impossible sizes, not NetCDF) make the call fail with an exception, never with memory corruption, a crash or silently wrong results. The object can afterwards be given valid input and then works normally.",
 ["inputs", "histories"], "all single and combined corruptions of valid inputs and files, followed by valid use",
 "No test passes invalid input to the library at all (only the command-line parser has one).",
 [S+"init.cpp", S+"init_from_vmec.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"write_boozmn.cpp", S+"netcdf_reader.cpp"],
 [("validation", S+"init.cpp"), ("validation", S+"init_from_vmec.cpp"), ("dimension check", S+"netcdf_reader.cpp")], ["exception or not, sanitizer reports, results of the next valid use"])

prop("C14", "No output, decision or file depends on uninitialised memory",
 "Every attribute, every byte written to a file and every printed character is determined by the inputs: it does not depend on the previous content of memory. This includes attributes read before anything was computed, padding and optional variables.",
 ["inputs", "histories"], "all call sequences, under any prior content of heap and stack memory",
 "Fresh memory is usually zero in a short test process, which is exactly the value a correct program would have produced.",
 [S+"booz_xform.cpp", S+"init.cpp", S+"surface_solve.cpp", S+"write_boozmn.cpp", S+"read_boozmn.cpp", S+"check_accuracy.cpp"],
 [("defaults()", S+"booz_xform.cpp"), ("setZero before accumulation", S+"surface_solve.cpp"), ("profiles written to the file", S+"write_boozmn.cpp")], ["valgrind memcheck reports", "differences between runs with different heap fill patterns"])

prop("C15", "I/O failures are reported and release all resources",
 "If any operation on a file fails while reading or writing (open, metadata, data, disk full, close), the call raises an exception instead of returning incomplete data or leaving a truncated file as if it were complete, and the file handle is released. The object remains usable and the same call succeeds once the fault is gone.",
 ["fault_sequences"], "every single failing operation in every read and write, and real resource limits",
 "No test makes an I/O operation fail.",
 [S+"netcdf_reader.cpp", S+"netcdf_writer.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"write_boozmn.cpp"],
 [("ERR on every return value", S+"netcdf_writer.cpp"), ("destructors close the file", S+"netcdf_reader.cpp")], ["exceptions, descriptors open after the call, content of files"])

prop("C16", "Python attributes are faithful, typed and never alias internal memory",
 "Every documented attribute can be read from Python, inputs can be assigned, and reading gives exactly the assigned values (those the attribute's type can represent) whatever the memory layout, integer or float type or sequence type of the source; outputs cannot be assigned and a value of the wrong kind is refused leaving the attribute unchanged. Arrays obtained from an object are snapshots: later assignments, reads, runs or deletion of the object neither change nor invalidate them, and later changes of a source array do not change the object.",
 ["inputs", "histories"], "all attributes, values, dtypes, strides and orders of access, assignment, run and deletion",
 "Two attributes are assigned in one test; aliasing shows only when the object is changed or freed while the array is alive.",
 [S+"bindings.cpp", "src/booz_xform/__init__.py"], [("property definitions", S+"bindings.cpp")], ["attribute values, flags and identities from Python"])

prop("C17", "The command-line programs do what the API does",
 "For every input file both command-line programs (C++ and Python) produce the boozmn file that the API gives for max(default, requested) resolution and the sorted requested surfaces (all when none are given), reading tokens regardless of line breaks and stopping at the first that is not an integer. Wrong usage prints the help and succeeds; an unreadable or incomplete input file or a missing equilibrium gives a non-zero exit status and no output file.",
 ["inputs", "configurations"], "all driver input files and equilibria",
 "The tests parse three well-formed strings and run one case through the Python driver only.",
 [S+"driver.cpp", S+"xbooz_xform.cpp", "src/booz_xform/_cli.py"], [("driver()", S+"driver.cpp"), ("main()", "src/booz_xform/_cli.py")], ["exit status, stdout and bytes of the boozmn file of the processes"])

prop("C18", "The accuracy report is truthful and never garbled",
 "With verbosity on, exactly one two-line record is printed for every requested surface, in any order but never interleaved with other output, naming the surface, and giving |B| of the input and of the Boozer series and their relative difference at theta = 0 and pi, zeta = 0 and half a field period. The printed values are those of the input and of the final output spectra, to the printed precision.",
 ["inputs", "schedules"], "all equilibria, lists of surfaces, resolutions and thread schedules",
 "No test looks at the printed report.",
 [S+"check_accuracy.cpp", S+"surface_solve.cpp", S+"run.cpp"], [("check_accuracy", S+"check_accuracy.cpp"), ("omp critical", S+"check_accuracy.cpp")], ["stdout"])

prop("C19", "Verbosity affects only what is printed",
 "Results, files, attributes and errors are bit-for-bit the same for every verbosity, and with verbosity 0 no API call, successful or not, prints anything.",
 ["configurations", "inputs"], "all API calls at verbosity 0, 1, 2 and above",
 "Tests run at one or two verbosity settings and never compare or look at stdout.",
 [S+"surface_solve.cpp", S+"check_accuracy.cpp", S+"init_from_vmec.cpp", S+"read_boozmn.cpp", S+"netcdf_reader.cpp"], [("verbose tests", S+"surface_solve.cpp"), ("check_accuracy reuses work arrays", S+"check_accuracy.cpp")], ["stdout/stderr and all attributes per verbosity"])

prop("C20", "Symmetric equilibria give the same results in asymmetric mode",
 "A stellarator-symmetric equilibrium passed as an asymmetric one with zero asymmetric amplitudes gives, to rounding, the same spectra as in symmetric mode, zero for the additional asymmetric ones, and the same grids and profiles. Files written and reports printed agree likewise.",
 ["inputs", "configurations"], "all symmetric equilibria and resolutions",
 "No fixture exists in both forms.",
 [S+"surface_solve.cpp", S+"init.cpp"], [("half theta grid with half weights vs full grid", S+"surface_solve.cpp")], ["output attributes of paired runs"])

prop("C21", "The transformation obeys its exact symmetries",
 "Scaling B scales |B|, G and I linearly, the Jacobian inversely and leaves the angles alone; R and Z spectra are linear in the R and Z input and independent of each other; permuting or splitting input modes or padding them with zeros changes nothing beyond rounding; reversing the toroidal direction, shifting the origin of the angles by grid steps (asymmetric mode), and treating nfp periods as one period (with the resolution to match) transform the outputs accordingly.",
 ["inputs", "configurations"], "all equilibria and all elements of these symmetry groups",
 "A relation between two runs cannot be expressed by comparing one run with one stored file.",
 [S+"surface_solve.cpp", S+"init.cpp"], [("whole computation", S+"surface_solve.cpp")], ["output attributes of paired runs"])

prop("C22", "Plots show the data they claim to show",
 "Every value handed to the plotting library by surfplot, symplot, modeplot and wireplot equals an independent evaluation of the results, for the requested surface and options: |B| on the (zeta, theta) grid of one period, mode amplitudes selected, classified and ordered as documented, Cartesian coordinates of constant-angle curves. Plotting from an object or from its file is equivalent, and never changes the object or the data.",
 ["inputs", "configurations"], "all results (symmetric or not, any nfp and resolution) and all combinations of plot options",
 "The test only checks that calling the functions raises nothing, and skips wireplot without plotly.",
 ["src/booz_xform/plots.py"], [("surfplot, symplot, modeplot, wireplot", "src/booz_xform/plots.py")], ["arguments of the plotting calls recorded by a stand-in"])

prop("C23", "Transforming and writing leave the inputs unchanged",
 "run() changes no input attribute and write_boozmn() changes no attribute at all except the first, physically meaningless, element of phip, which becomes 0 as in the file; input files are never modified.",
 ["histories", "inputs"], "all inputs and sequences of run, write and read",
 "Tests never compare the inputs before and after.",
 [S+"run.cpp", S+"surface_solve.cpp", S+"write_boozmn.cpp", S+"init.cpp", S+"read_boozmn.cpp"], [("members are inputs or outputs", S+"booz_xform.hpp")], ["all input attributes before and after each call"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
