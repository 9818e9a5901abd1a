#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Exact engines evaluate Newtonian gravity for every set of bodies",
 "For any number of bodies with positive masses, at any positions (coincident and extremely close ones included) and velocities, every exact engine (simple, openmp, block, opencl) returns as the derivative of the state each body's own velocity and the acceleration sum over the other bodies of m_j*(r_j-r_i)/max(|r_j-r_i|^2,1e-8)^(3/2), up to rounding. The result depends only on the state passed in (never on earlier evaluations, on the evaluation time or on the step number), and the state itself is left unchanged.",
 ["inputs", "configurations"], "all body counts (also not multiples of the block size), masses, positions, velocities; all exact engines; opencl with any work-group block size dividing the body count",
 "The engine tests compare the engines with each other on one generated galaxy of 64*k bodies; other body counts, coincident bodies, uneven masses and asymmetric geometries are never evaluated against an independent formula.",
 ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl.cl", "nbody/nbody_data.cpp"],
 [("pairwise force with minimal distance", "nbody/nbody_data.cpp nbody_data::force"), ("double loop over bodies", "nbody/nbody_engine_simple.cpp fcompute"), ("blocked loop", "nbody/nbody_engine_block.cpp fcompute"), ("OpenCL kernel", "nbody/nbody_engine_opencl.cl")],
 observe=["nbody_engine::fcompute output read back with read_buffer"])

prop("C02", "Barnes-Hut acceleration error obeys the opening-criterion bound",
 "For any bodies (any count, coincident ones included), any tree layout, any traversal type and any distance-to-node-radius ratio R>1, the acceleration that a Barnes-Hut engine reports for a body differs from the exact one by at most K(1/R) * sum_j m_j/d_j^2, with K(x)=(1+x)^2(3x^2-2x^3)/(1-x)^2, up to rounding; every body gets its derivative exactly once and its own velocity as position derivative. With a ratio so large that no node is ever accepted as a whole the result equals the exact acceleration.",
 ["inputs", "configurations"], "all body counts and geometries (clustered, collinear, coincident, uneven masses), layouts tree/heap/heap_stackless, traversals cycle/nested_tree, ratios",
 "The tests use one galaxy with a power-of-two body count, a few fixed ratios and one loose fixed tolerance; no test reaches body counts where the two halves of a node differ in size, coincident bodies or degenerate boxes.",
 ["nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_space_tree.h", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap.h", "nbody/nbody_space_heap_stackless.cpp", "nbody/nbody_space_heap_func_priv.h", "nbody/nbody_engine_opencl_bh.cpp", "nbody/nbody_engine_opencl.cl"],
 [("median split tree build", "nbody/nbody_space_tree.cpp node::build"), ("node radius from box and mass centre", "nbody/nbody_space_tree.cpp node::update, nbody/nbody_space_heap.cpp update"), ("opening test and traversal", "traverse()"), ("stackless index walk", "nbody/nbody_space_heap_func_priv.h next_up/next_down/skip_idx")],
 observe=["nbody_engine::fcompute output"])

prop("C03", "Incremental Barnes-Hut tree refresh keeps the accuracy bound along any history",
 "When the full tree is rebuilt only every k-th step, every evaluation in between (bodies moved arbitrarily, any number of evaluations per step, step number changed at will) still satisfies the same accuracy bound as a freshly built tree with respect to the positions passed in. In particular node positions, extents and masses always reflect the positions of the current evaluation and never those of an earlier one.",
 ["histories", "inputs", "configurations"], "histories of evaluations and step advances with arbitrary displacement (crossing, scaling, collapsing, coincident), all rebuild rates, layouts, traversals, body counts",
 "Tests run a handful of steps of a smooth trajectory at a power-of-two body count, where a stale or mixed-up tree is nearly indistinguishable from a fresh one.",
 ["nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl.cl"],
 [("choice between build and rebuild", "nbody/nbody_engine_simple_bh.cpp space_subdivided_fcompute"), ("level by level refresh", "nbody/nbody_space_heap.cpp rebuild"), ("recursive refresh", "nbody/nbody_space_tree.cpp node::rebuild")],
 state=[("tree", "layout kept between evaluations", "m_tree of each Barnes-Hut engine")],
 observe=["nbody_engine::fcompute output after every operation of the history"])

prop("C04", "Ahmad-Cohen engine: near bodies always fresh, far force at most one period old",
 "On its first evaluation and whenever the step number is a multiple of the recompute rate, the Ahmad-Cohen engine reports the exact acceleration of the state passed in. At every other evaluation the acceleration of a body is the fresh Newtonian attraction of the bodies which at the last full evaluation were closer than the maximum distance or attracted it with more than the minimum force, plus the unchanged attraction all remaining bodies had at that last full evaluation.",
 ["histories", "inputs", "configurations"], "histories of evaluations with moving bodies and changing step numbers, starting at any step; all rates, distance and force thresholds, body counts",
 "The tests compare short smooth runs with a loose tolerance where neither the neighbour lists nor the frozen far force matter, and always start at step 0.",
 ["nbody/nbody_engine_ah.cpp", "nbody/nbody_engine_ah.h", "nbody/nbody_engines.cpp"],
 [("full recompute", "nbody_engine_ah::fcompute_full"), ("sparse recompute", "nbody_engine_ah::fcompute_sparse"), ("period test", "nbody_engine_ah::fcompute")],
 state=[("far force", "attraction of the non-adjacent bodies at the last full evaluation", "m_univerce_force"), ("neighbours", "adjacent bodies at the last full evaluation", "m_adjacent_body")],
 observe=["nbody_engine::fcompute output after every operation"])

prop("C05", "Engine vector operations compute their documented formulas",
 "On every engine the buffer operations (write, read, copy, fill, a+=b*c, a=b+c*d, the n-term forms of both including zero coefficients, zero terms, fewer coefficients than vectors and a missing base vector, and the maximum absolute value) produce exactly what their documented element-wise formula says for any contents, coefficients and sequence of operations, up to the rounding of one multiply-add per term. The destination may be the same buffer as an operand of the two- and three-operand forms and as the base of the n-term form (never as one of its terms, and copying needs two buffers). No buffer other than the destination changes.",
 ["histories", "inputs", "configurations"], "operation sequences over a pool of buffers; all engines; element values over the whole exponent range; coefficients including 0 and +-1; buffer sizes from one body up",
 "Tests apply each operation once to two or three fixed vectors with non-zero coefficients; combinations, zero coefficients, aliasing and sequences are not reached.",
 ["nbody/nbody_engine.cpp", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl.cl"],
 [("documented formulas", "nbody/nbody_engine.h"), ("n-term default implementation", "nbody/nbody_engine.cpp fmaddn/fmaddn_inplace"), ("reduction", "fmaxabs of each engine")],
 observe=["read_buffer of every buffer after each operation"])

prop("C06", "Compensated accumulation keeps rounding error independent of the number of terms",
 "Accumulating any sequence of increments through the compensated update (directly on an engine, or through a solver run with correction enabled) leaves the accumulated value within a few units in the last place of the sum of the magnitudes of the start value and all increments, no matter how many steps and how small the increments, so that increments too small to change the value one by one are not lost; the summation used for conserved quantities has the same guarantee. The plain update has no such guarantee, so a lost, reset or wrongly signed compensation is a violation.",
 ["histories", "inputs"], "sequences of up to thousands of accumulations of any magnitudes with any number of terms per call; every solver that offers correction (adams of every rank, every explicit Runge-Kutta scheme)",
 "Tests accumulate one short fixed series and compare solver output with stored tables produced by the same code, so an accumulated loss over long sequences is not visible.",
 ["nbody/summation.h", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_opencl.cl", "nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_rk_butcher.cpp"],
 [("Kahan step", "nbody/summation.h summation_k"), ("compensated n-term update", "fmaddn_corr of each engine"), ("correction buffers of the solvers", "m_corr_data, m_ycorr_data, m_tcorr_data")],
 observe=["accumulated buffer compared with quad precision sum"])

prop("C07", "Results do not depend on the number of threads or on scheduling",
 "For the same initial state and configuration, every CPU engine and solver produces bit-identical states, times, stored frames and reported conserved quantities with any number of worker threads and on every repetition. A simulation is therefore reproducible and can be continued on another machine configuration.",
 ["schedules", "configurations", "inputs"], "thread counts 1..8, dynamic scheduling and repeated runs; all CPU engines (all Barnes-Hut layouts/traversals/rebuild rates included) and solvers; body counts above and below the task threshold",
 "Tests run with one fixed thread count and compare with tolerances; races and order-dependent reductions need particular schedules and sizes.",
 ["nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_ah.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap.h"],
 [("disjoint output ranges per iteration", "#pragma omp parallel for loops"), ("task based tree build", "build_p / node::build / node::rebuild")],
 observe=["bitwise comparison of states"])

prop("C08", "Every integration method converges with its documented order",
 "On any smooth initial value problem, autonomous or with a right-hand side depending on time, halving the step reduces the global error of each method by the factor its documented order promises (adams: its rank with an adequate starter; bs: twice its level; euler 1; midpoint, midpoint-st and trapeze 2; rk4 4; rkdverk 5; rkf 7; rkfeagin 10, 12 and 14), and a method of order p integrates polynomials in time of degree below p exactly. Implicit methods reach their order once refined sufficiently: the step then satisfies their stage equations (trapeze: the trapezoidal rule). For rkck, rkdp, rkgl and rklc, which propagate the lower-order row of their tableau or carry a defective tableau, the documented orders (5, 5, 6, 4) are not reached (known findings); the orders they have (4, 4, 2, 2) hold in the same sense.",
 ["inputs", "configurations"], "generated linear, nonlinear and time-dependent problems with known solutions, two-body orbits; step sizes; start times; all solvers, ranks, levels",
 "Tests compare one gravitational run (right-hand side independent of time) with tables stored from the same code, so a wrong node or a time passed wrongly to the right-hand side is invisible to them, and order itself is never measured.",
 ["nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_bulirsch_stoer.cpp", "nbody/nbody_solver_euler.cpp", "nbody/nbody_solver_midpoint.cpp", "nbody/nbody_solver_midpoint_stetter.cpp", "nbody/nbody_solver_rk4.cpp", "nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_solver_rkck.cpp", "nbody/nbody_solver_rkdp.cpp", "nbody/nbody_solver_rkdverk.cpp", "nbody/nbody_solver_rkf.cpp", "nbody/nbody_solver_rkfeagin10.cpp", "nbody/nbody_solver_rkfeagin12.cpp", "nbody/nbody_solver_rkfeagin14.cpp", "nbody/nbody_solver_rkgl.cpp", "nbody/nbody_solver_rklc.cpp", "nbody/nbody_solver_trapeze.cpp"],
 [("Butcher tableaux", "get_a/get_b1/get_b2/get_c of each table"), ("stage evaluation", "nbody_solver_rk_butcher::sub_step_explicit/implicit"), ("multistep coefficients", "nbody_solver_adams::advise")],
 observe=["engine state after a number of steps of a user supplied right-hand side"])

prop("C09", "A run stops on time and dumps and checks on schedule",
 "Running a solver from any start time advances the time by exactly one maximal step per step and one step number per time step (the extrapolating solver excepted, which also counts its sub-steps), stops at the first time not below the requested end and reports success. A run starting at time zero stores the initial state; afterwards a frame is stored (and, separately, the checks and visitors are run) at exactly those steps whose time has reached the previous dump (check) time plus the interval minus a tenth of a step, each stored frame holding the current engine state, time and step; a failing store ends the run with failure.",
 ["inputs", "configurations", "histories", "fault_sequences"], "all combinations of step, end time, start time, dump and check intervals (zero and negative meaning never), several successive runs, failing store at any call, several visitors, all solvers and engines",
 "One test runs one schedule; rounding in the accumulated time, intervals that are no multiple of the step, restarts at a non-zero time and store failures are not covered.",
 ["nbody/nbody_solver.cpp", "nbody/nbody_solver.h", "nbody/nbody_data.cpp", "nbody/nbody_step_visitor.h"],
 [("run loop", "nbody_solver::run"), ("time and step counters", "nbody_data::advise_time")],
 observe=["frames passed to the stream, visitor calls, time and step afterwards, return value"])

prop("C10", "Adaptive Runge-Kutta refines exactly where its error estimate demands",
 "A step of an embedded Runge-Kutta solver is accepted as it is when the embedded error estimate does not exceed the threshold, otherwise it is replaced by the configured number of equal sub-steps, each treated the same way, down to the recursion limit and never splitting a step not larger than the minimal step. The sub-steps of a step cover it completely and in order, so the state after the step is the state the accepted sub-steps produce, at the time advanced by exactly one step; non-embedded solvers never split.",
 ["inputs", "configurations", "histories"], "problems with time dependent and stiff parts, thresholds over many orders of magnitude, recursion limits 0..8, subdivisions, minimal steps, sequences of steps",
 "Tests use one threshold on one problem and compare with stored output; how sub-steps are arranged in time, limits and thresholds are not varied, and an autonomous problem cannot see a wrong sub-step time.",
 ["nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_solvers.cpp"],
 [("recursive subdivision", "nbody_solver_rk_butcher::sub_step"), ("error estimate", "difference of the two weight rows")],
 state=[("stack of states", "state saved per recursion level", "m_y_stack")],
 observe=["times and number of right-hand side evaluations and state after each step"])

prop("C11", "Momentum, mass centre and symmetry of motion are preserved by every solver",
 "With an exact engine every solver, for any bodies and any step, keeps total momentum constant and the mass centre in uniform straight motion up to rounding; shifting all bodies, adding a common velocity, permuting the bodies, or permuting or mirroring the axes changes the computed trajectory by exactly that transformation up to rounding. This holds whatever the step size and error settings, since it does not depend on accuracy.",
 ["inputs", "configurations"], "body systems, transformations, all solver and exact engine combinations, numbers of steps",
 "Tests check conservation on one solar/galaxy data set within loose tolerances and never apply transformations, so an error affecting one axis, one body index or one solver branch stays below them.",
 ["nbody/nbody_solver_*.cpp", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_extrapolator.cpp"],
 [("linear combination of derivatives only", "fmadd/fmaddn use in the solvers"), ("antisymmetric force", "nbody_data::force")],
 observe=["engine state after several steps"])

prop("C12", "A stored stream gives back every frame exactly, in any order of access",
 "Whatever sequence of states is written to a stream (any body count, any values, times and steps, any part size limit, writer closed and reopened, appended to after a reload, the same writer or reader object used for several streams), reading gives back every frame in order with bit-identical positions, velocities, masses and colours, the same step, the time to at least fifteen digits and the (positive) box, and the header data of that stream. Seeking to any frame, in any order and repeatedly, then reading yields that frame; each part file is closed to new frames once it has reached the size limit.",
 ["histories", "inputs", "configurations"], "histories of open/write/close/append/load/seek/read over several streams, objects and destination states",
 "The tests write one sequence of frames with times needing six digits and read it once; reuse of objects, repeated seeks, long or tiny times and appended parts are not reached.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp"],
 [("index line per frame", "nbody_data_stream::write"), ("part splitting", "nbody_data_stream::write m_max_part_size"), ("frame table and seek", "nbody_data_stream_reader::load/seek/read")],
 state=[("position", "current frame of the reader", "m_current_frame, m_file"), ("part", "current part number and position of the writer", "m_file_n, m_data")],
 observe=["nbody_data_stream_reader results"])

prop("C13", "Reported writes survive crashes and I/O faults are reported",
 "If storing a frame reports success, then however the process ends afterwards (even immediately, without closing anything) that frame and all earlier ones can be read back unchanged; at a crash between any two file operations the stream on disk holds all frames reported so far. If the disk refuses or truncates a write at any point the store operation reports failure instead of success, and saving a state file likewise never reports success for a file that is incomplete.",
 ["crash_points", "fault_sequences", "histories"], "every system call index as crash point or as fault (no space, short write, I/O error), part sizes, body counts, fresh and appended streams, state files",
 "No test injects a fault or crashes; the write path is only exercised on a healthy disk with orderly close.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp", "nbody/nbody_data.cpp"],
 [("data flushed before the index line", "nbody_data_stream::write"), ("error returns", "nbody_data_stream::write, nbody_data::save")],
 observe=["return values and files as seen by a fresh reader"])

prop("C14", "A resumed simulation continues exactly like an uninterrupted one",
 "For a one-step method, storing a run, ending it at any frame, reloading the last frame of the stream and continuing by appending to the same stream yields the same frames (positions and velocities bit for bit, steps and times in sequence, boundary box and masses preserved) as the run that was never interrupted, for any number of interruptions, orderly or by a crash at any file operation. Times agree to the fifteen digits the stream keeps, so end times and dump intervals at a rounding tie are excepted. The combined stream is a valid stream holding every frame once.",
 ["histories", "crash_points", "configurations"], "interruption points and their number, part sizes, one-step solvers, exact and Barnes-Hut engines, clamping on or off",
 "One test appends to one stream and compares frame counts; whether the continuation equals the uninterrupted run is not tested.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp", "nbody/nbody_solver.cpp", "test/main/main.cpp"],
 [("append mode", "nbody_data_stream::open"), ("state restored from a frame", "nbody_data_stream_reader::read"), ("no initial dump for a positive start time", "nbody_solver::run")],
 observe=["frames of the combined stream"])

prop("C15", "State files round-trip exactly and unit systems convert masses exactly",
 "Saving any state with finite values to a text file and loading it gives back every position, velocity, mass and radius exactly (the sign of a zero excepted); loading any well-formed table (separation by any number of spaces, comments, blank lines, optional radius and trailing columns) or Zeno file yields exactly the numbers written in it, in file order, in opaque white. Masses given in SI or astronomical units are multiplied by the gravitational constant of that unit system and nothing else changes, and the boundary box is the largest coordinate (at least one), rounded down, for coordinates below 2^63.",
 ["inputs", "configurations"], "all states and all well-formed files of the table and Zeno grammars, all declared types in any letter case",
 "Tests load three fixed files and round-trip one state; values needing seventeen digits, extreme exponents, comments in odd places and negative coordinates are not generated.",
 ["nbody/nbody_data.cpp", "nbody/nbtype.h"],
 [("text writer", "nbody_data::save"), ("table parser", "nbody_data::load"), ("Zeno parser", "nbody_data::load_zeno_ascii"), ("unit factors", "nbody_data::get_mass_factor")],
 observe=["nbody_data accessors after load/load_initial"])

prop("C16", "Malformed input files are rejected cleanly",
 "Whatever bytes a state file, Zeno file or stream (index, data, colour and mass files) contains, loading and reading either succeeds with values the file actually contains or reports failure; it never crashes, hangs, reads or writes outside its buffers or allocates without bound. Tables with missing or non-numeric columns, Zeno files with non-numeric or missing values, streams whose header is missing, inconsistent or of another number size, and frames outside the data file are reported as failures.",
 ["inputs", "fault_sequences"], "arbitrary byte strings, mutations and truncations of valid files, missing companion files, destinations of any body count",
 "Seven hand-written bad inputs are tested; no fuzzing, no truncation at arbitrary offsets, no corrupted numbers.",
 ["nbody/nbody_data.cpp", "nbody/nbody_data_stream_reader.cpp"],
 [("column and number checks", "nbody_data::load"), ("header and index checks", "nbody_data_stream_reader::load"), ("read length checks", "nbody_data_stream_reader::read")],
 observe=["return values, sanitizers"])

prop("C17", "Reported conserved quantities equal those of the current state",
 "The reported momentum, angular momentum, mass centre and energy equal, to compensated-summation accuracy, sum m v, sum r x m v, sum m r / sum m and half sum m v^2 minus the sum over pairs of m_i m_j / r_ij (pairs closer than the minimal distance contributing nothing) of the current engine state. The initial values of the laws listed at the first report are those of that report and never change, the relative errors are the deviation in per cent from them, only the laws named in the check list are updated, and reporting does not change the state.",
 ["histories", "inputs", "configurations"], "bodies, check lists, sequences of state changes and reports, with and without an engine",
 "The quantities are only printed; tests check that they stay small on one data set, not that they are right.",
 ["nbody/nbody_data.cpp", "nbody/summation.h", "nbody/summation_proxy.h"],
 [("sums", "nbody_data::print_statistics"), ("proxies", "nbody/summation_proxy.h")],
 state=[("initial values", "values at the first report", "m_initial_*")],
 observe=["get_last_total_*, get_initial_*, get_*_err"])

prop("C18", "Extrapolation tables reproduce their mathematical definition",
 "Given any increasing sequence of sub-step counts and any results entered level by level, polynomial extrapolation returns the value at step size zero of the polynomial in the given power of the step size through all results so far (hence exact for such polynomials), and rational (Berrut) extrapolation over the first k results returns their combination with weights proportional to alternating sign times sub-step count to the given power, hence exact for constants (zero results give zeros). The error estimate is the largest absolute difference between the extrapolation through all results so far and the one without the first of them (polynomial) or between those over k and k-1 results (rational), the largest number at the lowest level, and starting again at the lowest level forgets earlier data. The Bulirsch-Stoer solver (three levels or more) extrapolates modified-midpoint results with 2, 4, 6, 8, 12, ... sub-steps over the whole step and accepts the first level from the third on whose estimate is below its threshold, or the last level.",
 ["histories", "inputs", "configurations"], "sub-step sequences, orders, data, restarts, vector sizes",
 "The tests extrapolate one function with two fixed step sequences and a loose tolerance.",
 ["nbody/nbody_extrapolator.cpp", "nbody/nbody_extrapolator.h", "nbody/nbody_solver_bulirsch_stoer.cpp"],
 [("Neville table", "nbody_extrapolator_neville::update_table"), ("Berrut weights", "nbody_extrapolator_berrut::weights")],
 state=[("table", "previous row and current row", "m_table, m_table_prev")],
 observe=["extrapolate, estimate_error"])

prop("C19", "Command line arguments and factories honour or reject every configuration",
 "Arguments of the form --name=value (exactly one equal sign) are all and only the parameters, the last one winning, in any order and mixed with anything else. Every documented engine and solver name creates an object of that kind that behaves according to its parameters, absent parameters taking their defaults; unknown names and unusable parameters (unknown tree layout, traversal or starter, rank outside 1..5) create nothing. Any created object can be destroyed safely at any stage of its use (the solver before its engine), a solver then having returned every buffer it took from the engine. (At least one refine step for implicit methods, and OpenCL device lists with a power of two of devices.)",
 ["inputs", "configurations", "histories"], "argument vectors over a grammar with hostile parts; engine and solver parameter maps; destruction right after creation, after attaching, after any number of steps",
 "Tests create each type once with valid parameters and always run it; invalid parameter values and unused objects are not tried.",
 ["nbody/nbody_arg_parser.cpp", "nbody/nbody_engines.cpp", "nbody/nbody_solvers.cpp", "nbody/nbody_solver_*.cpp"],
 [("argument splitting", "nbody_parse_arguments"), ("factories", "nbody_create_engine, nbody_create_solver"), ("destructors", "solver and engine destructors")],
 observe=["returned map, type name, behaviour of the created object, sanitizers"])

prop("C20", "A generated universe is well-formed for any star count and box",
 "For any star count (zero included) and any positive box sizes the generated universe consists of two equal galaxies whose body numbers are the star count (at least one) rounded up to multiples of 64, with positive finite masses of 1000 per galaxy, 99.9% of it in the first body at the galaxy centre and the rest shared equally, every star inside its flattened galaxy ball and on a circular orbit of the common sense around the centre plus the common velocity of its galaxy. The galaxy centres lie half the box length left and right of the box centre on the x axis and the galaxies move in opposite directions along y; the boundary box is the largest box size (at least one) rounded down. The same arguments always give the same universe, and generating replaces all bodies the state held before.",
 ["inputs"], "star counts and box sizes",
 "Tests use one or two sizes only as raw material for other tests.",
 ["nbody/nbody_data.cpp"],
 [("galaxy generator", "nbody_data::add_galaxy"), ("two galaxies", "nbody_data::make_universe")],
 observe=["nbody_data accessors"])

prop("C21", "Clamping wraps coordinates into the box and nothing else",
 "Clamping a state to a box of half-size b moves every coordinate greater than b down by 2b and every coordinate less than -b up by 2b, per axis and body, leaving coordinates inside [-b,b] and all velocities unchanged, identically on every engine. A run with clamping enabled wraps the state before each step with the box size of the data, and a run without never does.",
 ["inputs", "configurations"], "coordinates on, inside and outside the border on every axis, all body counts, boxes and engines",
 "One test clamps one state on each engine with a symmetric box.",
 ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl.cl", "nbody/nbody_solver.cpp"],
 [("clamp", "clamp of each engine"), ("call in the run loop", "nbody_solver::run")],
 observe=["read_buffer of the state"])

prop("C22", "A reset solver behaves like a new one",
 "After reset, whatever steps of whatever sizes were taken before and whatever state the engine is put in, an explicit solver (all but rkgl and rklc, which start from the stages of the step before) produces bit for bit the same sequence of states as a newly created solver with the same parameters. Likewise two solvers working alternately on different engines do not influence each other.",
 ["histories", "configurations", "inputs"], "step histories before the reset, solvers and parameters, states, interleavings of two solvers",
 "Reset is only exercised indirectly inside the extrapolating solver.",
 ["nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_midpoint_stetter.cpp", "nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_solver_bulirsch_stoer.cpp"],
 [("reset", "reset of each solver")],
 state=[("multistep history", "previous derivatives", "m_f, m_step"), ("stetter state", "u/v pair", "m_uv"), ("compensation", "correction buffers", "m_corr_data, m_ycorr_data")],
 observe=["states after each step"])

prop("C23", "Recorded video frames are complete and the timeline addresses every frame",
 "Every frame pushed to the image recorder, in any order and at any rate, is on disk as a decodable image with identical pixels under its own frame number once the recorder is gone, and none is lost, overwritten or mixed up. The playback control's timeline covers exactly the frames of the stream, and its start, pause, stop, backward and forward actions and slider moves always leave it on an existing frame and announce each change.",
 ["histories", "schedules", "inputs"], "sequences of frames of various sizes and numbers; sequences of control actions; stream lengths",
 "There is no test of the player.",
 ["player/nbody_frame_compressor_image.cpp", "player/wgt_nbody_player_control.cpp"],
 [("background writers", "nbody_frame_compressor_image::push_frame/wait_results"), ("timeline", "wgt_nbody_player_control")],
 observe=["files in the destination folder, get_current_frame, frame_number_updated"])

prop("C24", "The simulation program turns its arguments into the documented stream",
 "Running the simulation program with any combination of documented arguments produces a readable stream that holds the initial state and one frame per dump interval up to the maximal time, whose states equal those of the selected engine and solver applied to the selected initial state, split in parts of the requested size; running it with the resume argument extends the stream. Unusable arguments (a missing or unknown engine or solver, an initial state that is missing, malformed or of an unknown type, a stream to resume that does not exist, an output that cannot be written) make it exit with failure, making no stream and leaving an earlier one as it was.",
 ["configurations", "inputs", "histories"], "argument combinations over engines, solvers, initial state files and types, steps, part sizes, resume chains",
 "The program itself is never run by a test.",
 ["test/main/main.cpp", "nbody/nbody_arg_parser.cpp", "nbody/nbody_engines.cpp", "nbody/nbody_solvers.cpp", "nbody/nbody_solver.cpp", "nbody/nbody_data_stream.cpp"],
 [("main program", "test/main/main.cpp")],
 observe=["exit code and stream files"])

prop("C25", "CUDA engines give the processor's results on any number of devices",
 "For one, two, four or eight CUDA devices in any order, a body count that is a multiple of 64 per device and of the block size, either way of exchanging data (copies or NCCL) and any relative progress of the devices and order of blocks and threads that CUDA allows, the CUDA engines satisfy the same properties as the processor engines: the exact acceleration for the exact engine, the opening-criterion bound for the Barnes-Hut engines with a rebuilt or refreshed tree, the documented vector operations and clamping; and a simulation stepped by any solver gives the result, time, step number and number of force evaluations of the processor engine of the same kind. Kernels access only memory of their own device inside its allocations. Unusable device lists and tree layouts are refused when the engine is created, and a destroyed engine has returned all device memory, streams and textures.",
 ["inputs", "schedules", "configurations", "histories"], "body sets, device lists, block sizes, communication modes, schedules, solvers", "No test of the CUDA engines is even compiled without the CUDA toolkit, and on a device a missing synchronisation shows only under an unlucky schedule.",
 ["nbody/nbody_engine_cuda.cpp", "nbody/nbody_engine_cuda_impl.cu", "nbody/nbody_engine_cuda_bh.cpp", "nbody/nbody_engine_cuda_bh_tex.cpp", "nbody/nbody_engine_cuda_memory.cpp", "nbody/nbody_engines.cpp"],
 [("CUDA kernels", "nbody/nbody_engine_cuda_impl.cu"), ("exchange between devices", "nbody/nbody_engine_cuda.cpp")])

prop("C26", "OpenCL kernels are free of data races and out-of-range accesses",
 "For any body count that is a multiple of the block size, any block size, split over devices, tree layout, traversal and rebuild rate, and any history of engine operations (force evaluations with rebuilt and refreshed trees, vector operations, clamping, solver steps), every kernel the OpenCL engines launch reads and writes only elements of the buffers it was given, and no two work-items of one launch touch the same element, unless both only read it or a barrier separates the accesses. The outcome therefore does not depend on how a device orders its work-items.",
 ["inputs", "schedules", "configurations"], "body counts, block sizes, device splits, operation histories", "A race is invisible wherever work-items happen to run in a lucky order; the tests have no OpenCL device here, and on a device they see one order.",
 ["nbody/nbody_engine_opencl.cl", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl_bh.cpp"],
 [("kernels", "nbody/nbody_engine_opencl.cl"), ("launches", "nbody/nbody_engine_opencl.cpp")])

prop("C27", "Single and quadruple precision builds compute to the precision of their type",
 "The coordinate type is a build option. Built with single or quadruple precision coordinates, the library behaves as with double, with the rounding of the chosen type: accelerations equal the softened gravity law, n-term vector operations the exact sum, and compensated accumulation the exact total, up to a few units in the last place of the type; every solver integrates polynomials below its order exactly and (quadruple) converges with its order down to the rounding of the type, so that no coefficient is less precise than the type; runs end on time and conserve momentum, and report momentum, mass centre and energy to that rounding; stored frames are read back bit for bit, and state files keep at least the precision of the narrower of the type and double.",
 ["inputs", "configurations"], "coordinate type, engines, solvers, body sets, step sizes, frames", "The suite runs in double precision only; a constant or intermediate of lower precision is invisible there and costs half of the digits in a quadruple precision run.",
 ["nbody/nbtype.h", "nbody/nbtype_quad.h", "nbody/nbody_engine_simple.cpp", "nbody/nbody_butcher_table.cpp", "nbody/nbody_solver_rkfeagin14.cpp", "nbody/summation.h"],
 [("coordinate type", "nbody/nbtype.h"), ("quadruple precision functions", "nbody/nbtype_quad.h")])

prop("C28", "A simulation on OpenCL devices is the simulation on the processor",
 "For any OpenCL device list with a power of two of devices, any block size and body count that divide accordingly, any tree layout, traversal and rebuild rate, and any history of solver steps, runs with dumps and checks, resets, new states and clamping, an OpenCL engine gives the states, times, step numbers, number of force evaluations, stored frames and reported conserved quantities of the processor engine of the same kind (up to the rounding of the sums). Several engines at a time do not influence each other, and destroying solver and engine releases all device memory they took.",
 ["inputs", "histories", "configurations"], "devices, block sizes, trees, solvers, actions", "The suite steps the OpenCL engine with a few fixed problems on one or two device lists; host buffers, device splits and step dependent trees interact over histories.",
 ["nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl.cl", "nbody/nbody_engine_opencl_bh.cpp"],
 [("host code", "nbody/nbody_engine_opencl.cpp"), ("kernels", "nbody/nbody_engine_opencl.cl")])

prop("C29", "The player shows and records the states of the stream",
 "For any state of at least two bodies that differ in position, the view draws every body as a point where the perspective of each of its four cameras (45 degrees from below, and along the three axes, at the distance of the diagonal of the box of the first frame shown, enlarged by half on each side, times the scale) puts it, inside the part of the picture that the split point gives to that camera, and nothing where no body, box edge, text or dividing line is. A point has the selected size and its body's colour, or the colour of its speed relative to the spread of the velocities of the first frame shown (equal steps from blue over green and yellow to red), times the selected intensity; colours of overlapping bodies add up. With a stereo base there are two points per body, red and cyan, seen from cameras moved to both sides by that many thousandths of the distance. A double click gives the whole picture to the camera under the mouse, the next one divides it again. The player shows the frame the timeline stands at, from its opening on, with the settings of its controls; recording writes one picture of 1920x1080 per frame of the stream, in order, with what the view shows for that frame, as pictures or as a video, and returns to the frame shown before. A video holds the pictures pushed to it, in order. Every picture names the step, the time and the number of bodies of its state, and the deviation of each conserved quantity that is checked and has one. The program opens the stream its arguments name, checks the quantities they list (momentum, angular momentum and mass centre when they list none) and ends with 0 when its window is closed; without a usable stream it shows nothing and ends with an error.",
 ["inputs", "histories", "configurations"], "states, view settings, sizes, user actions, streams, recordings", "No test opens the player; what is drawn depends on the state, the first frame and every setting together.",
 ["player/main.cpp", "player/wgt_nbody_view.cpp", "player/wgt_nbody_player.cpp", "player/wgt_nbody_player_control.cpp", "player/nbody_frame_compressor_opencv.cpp", "player/nbody_frame_compressor_image.cpp"],
 [("program", "main"), ("view", "wgt_nbody_view::paintGL, render_to_image"), ("player", "wgt_nbody_player::on_update_data, on_start_record"), ("video", "nbody_frame_compressor_opencv::push_frame")],
 observe=["pixels of the picture shown, recorded files"])

ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
for p in P: assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
