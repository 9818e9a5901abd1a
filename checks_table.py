CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check("C01",
      parts=[dict(harness="c01", ocl_build=True, budget=14),
             dict(harness="c01", ocl=True, budget=25)],
      technique="property-based testing against an extended-precision reference model (differential), CPU engines and OpenCL engine under oclgrind",
      rule="a case is an engine, a body set (8 geometry families, coincident and nearly coincident bodies, 4 mass laws, counts 1..200) and 1-3 evaluations with one engine; non-trivial: at least two bodies",
      assumptions=["masses positive", "OpenCL executed by the oclgrind simulator", "rounding allowance (24+2n) eps times the sum of the absolute contributions"])

_bh = ["rounding allowance 3e-16*(n+50)*(1+4*max|r|/d) per contribution", "distances zero or at least 1e-3 (outside the softened zone)", "OpenCL executed by the oclgrind simulator"]
check("C02",
      parts=[dict(harness="c02", ocl_build=True, budget=18, only=["bh"]), dict(harness="c02", ocl=True, budget=25, only=["bh"])],
      technique="property-based testing against an extended-precision reference with an analytic error bound",
      rule="a case is a layout, traversal, opening ratio, body set (aligned groups that nearly attain the bound, 8 further geometry families, coincident bodies) and 1-2 evaluations; non-trivial: at least three bodies",
      assumptions=_bh)
check("C03",
      parts=[dict(harness="c02", ocl_build=True, budget=18, only=["refresh"]), dict(harness="c02", ocl=True, budget=25, only=["refresh"])],
      technique="stateful property-based testing: generated histories of displacements, steps and evaluations against the reference bound",
      rule="a case is a history of 2-9 evaluations with displacements (new positions, scaling, swaps, escapes, mirror, drift, collapse) and step changes on one engine with a tree rebuild rate; non-trivial: at least three bodies and one evaluation on a refreshed (not rebuilt) tree",
      assumptions=_bh)

check("C04",
      parts=[dict(harness="c04", budget=20)],
      technique="stateful model-based property testing: reference model with neighbour lists and frozen far force",
      rule="a case is a history of 2-12 evaluations with displacements and step changes for generated rate, distance and force thresholds; non-trivial: some body has both near and far bodies and some evaluation was a sparse one",
      assumptions=["pairs within 1e-9 (relative) of a threshold are not generated", "recompute rate at least 1", "positive masses"])

check("C05",
      parts=[dict(harness="c05", ocl_build=True, budget=18), dict(harness="c05", ocl=True, budget=25)],
      technique="stateful model-based property testing: random operation sequences over a buffer pool against an extended-precision model",
      rule="a case is an engine and 1-14 vector operations over 3-6 buffers; non-trivial: at least three operations, one of them with two or more terms",
      assumptions=["elements whose exact intermediate exceeds 1e307 are not judged", "n-term forms: the destination is not one of the terms", "copy: source and destination differ", "OpenCL executed by the oclgrind simulator"])

check("C06",
      parts=[dict(harness="c06", ocl_build=True, budget=24), dict(harness="c06", ocl=True, budget=25)],
      technique="property-based testing against quad-precision sums (engine operation, summation helper, solvers with correction)",
      rule="a case is a series of up to 3000 updates (engines), up to 5500 numbers (helper) or up to 4300 solver steps; non-trivial: the uncompensated computation of the same case exceeds the allowed error",
      assumptions=["error allowance 4 eps times the sum of the magnitudes of all terms", "OpenCL executed by the oclgrind simulator"])

check("C07",
      parts=[dict(harness="c07", budget=40, workers=4)],
      technique="metamorphic property-based testing: repeated runs under 1..16 threads compared bit for bit",
      rule="a case is an engine, a solver, a body set and 3-6 simulations of it with different thread counts; non-trivial: at least eight bodies",
      assumptions=["the schedules met are those the OpenMP runtime produces on 8 cores with up to 16 threads per process"])

check("C08",
      parts=[dict(harness="c08", budget=40, omp=1), dict(harness="c27", lib_defs=["-DNB_COORD_PRECISION=4"], budget=25, omp=1, env={"C27_ORDERS": "1"})],
      technique="property-based testing: order of convergence measured on generated initial value problems with closed-form solutions, in double precision and (far below its rounding) in quadruple precision",
      rule="a case is a solver configuration and a generated problem (time-modulated coupled nonlinear system, polynomial quadrature, circular orbit) integrated with five step sizes, or an implicit method refined 30-60 times on a linear problem against the solution of its equations; non-trivial: every case",
      assumptions=["observed order at least the documented one minus 0.5, or error at the rounding floor"])

check("C09",
      parts=[dict(harness="c09", budget=30, omp=1)],
      technique="stateful model-based property testing of the run loop against a reference schedule and plain stepping (differential), with injected store failures",
      rule="a case is a solver, an engine, a body set, a step, a start time and 1-3 successive runs with generated end times, dump and check intervals, visitors and a store that fails at a chosen call; non-trivial: at least two dumps or checks took place",
      assumptions=["decisions within 1e-9 (relative) of the tenth-of-a-step border are not judged"])

check("C10",
      parts=[dict(harness="c10", budget=30, omp=1)],
      technique="model-based property testing: recursive reference model of acceptance and refinement on generated problems (differential)",
      rule="a case is an embedded (or implicit) Runge-Kutta solver with generated threshold, recursion limit, subdivisions and minimal step, a time dependent problem with bumps of different width per component and 1-5 steps; non-trivial: some but not all sub-steps were refined to the deepest level reached",
      assumptions=["cases where an estimate is within 1e-6 (relative) of the threshold are discarded", "the coefficient tables are taken from the solver (C08 judges them)"])

check("C11",
      parts=[dict(harness="c11", budget=40, omp=1)],
      technique="metamorphic property-based testing: conserved momentum and mass centre motion, and equivariance under shift, boost, body permutation, signed axis permutation and time origin",
      rule="a case is a solver with generated parameters, an exact engine, a body set and 1-10 steps; for the symmetry relation also a combined transformation; non-trivial: at least two bodies",
      assumptions=["symmetry: error thresholds that force or forbid refinement (same decisions in both runs)", "symmetry: trajectories that amplify a perturbation by more than 100 are discarded", "momentum: states with momentum flux above 1e7 are not judged"])

check("C12",
      parts=[dict(harness="c12", budget=40, omp=1)],
      technique="stateful model-based property testing: generated histories of stream operations against an in-memory model of the streams",
      rule="a case is a history of 3-48 operations (open, write, close, append, load, seek, read, object replacement) over three streams, two writers and two readers, or a stream continued and read beyond 2^31 and 2^32 bytes of a (sparse) part file; non-trivial: at least two frames written and two frames read back",
      assumptions=["box size at least one (the reader treats zero as a missing header)", "time zero or of magnitude 1e-300..1e300", "one writer at a time per stream; a stream started anew is loaded again before it is read"])

check("C13",
      parts=[dict(harness="c13", budget=60, omp=1)],
      technique="fault and crash injection driven by generated histories (interposed file operations, torn and refused writes, forked crashes) with a model of the reported frames",
      rule="a case is a stream history (fresh or appended, part limits) or a state to save, and one generated crash point or I/O fault among its file operations; non-trivial: the crash or fault actually took place",
      assumptions=["a crash ends the process, not the machine (no claim about power loss)", "faults are delivered at the write/open/truncate calls of the process"])

check("C14",
      parts=[dict(harness="c14", budget=60, omp=1)],
      technique="metamorphic property-based testing: generated interruptions (ends and injected crashes) and resumptions compared bit for bit with the uninterrupted run",
      rule="a case is a one-step solver, an engine, a body set, a schedule and 0-4 interruptions (end of a session or a crash at a file operation) followed by a resumption; non-trivial: at least one session resumed a stream and there are at least two frames",
      assumptions=["one-step methods without correction and engines without memory of earlier steps", "end times and dump intervals are not at a rounding tie"])

check("C15",
      parts=[dict(harness="c15", budget=40, omp=1)],
      technique="property-based testing: round trip of generated states, grammar-based generation of table and Zeno files with the generated numbers as oracle",
      rule="a case is a state with values over the whole double range saved and loaded, or a generated well-formed table (types in any letter case) or Zeno file; non-trivial: at least one body",
      assumptions=["numbers in generated files are zero or of magnitude 1e-290 to the largest double (round trip: all finite doubles)", "largest coordinate below 9e18 for the box rule", "the gravitational constant is judged within 5e-4, the ratio of the unit systems within 1e-13"])

check("C16",
      parts=[dict(harness="c16", variant="asan", budget=60, omp=1)],
      technique="structure-aware mutation fuzzing under address and undefined-behaviour sanitizers, with an independent three-valued reference parser as oracle (must accept / must reject / not judged)",
      rule="a case is a table, a Zeno file or a stream (index, data, mass and colour files) damaged by generated byte, token, line and length mutations; non-trivial: the reference parser decides whether it must be accepted or rejected",
      assumptions=["number spellings on which parsers legitimately differ (hexadecimal, inf, nan, group separators, out of range, control or non-ASCII characters) are only checked for memory safety and termination", "an allocation above 2 GB is a failure"])

check("C17",
      parts=[dict(harness="c17", budget=40, omp=2)],
      technique="stateful property-based testing against quad-precision sums: histories of state changes, check lists and reports",
      rule="a case is a body set, an engine (or none) and 1-5 reports with generated check lists and state changes between them; non-trivial: at least two bodies",
      assumptions=["error allowance 16 eps times the sum of the magnitudes of all terms", "pair distances within 1e-9 (relative) of the minimal distance are discarded", "positive masses", "initial values are judged for laws listed at the first report"])

check("C18",
      parts=[dict(harness="c18", budget=40, omp=2)],
      technique="stateful property-based testing against quad-precision Lagrange and barycentric formulas; Bulirsch-Stoer steps against a reference model",
      rule="a case is an extrapolator, an order, an increasing sequence of up to 9 sub-step counts and 1-3 rounds of results entered level by level with queries between, or a Bulirsch-Stoer solver and 1-5 steps of a generated problem; non-trivial: results were entered up to level two or higher (bs: some step needed level three or higher)",
      assumptions=["error allowance: running rounding bound of the Neville scheme (polynomial), 5e-15 times the amplification of the weights (rational)", "sub-step counts to the given power below 4e15", "bs: at least three levels; steps whose estimate is within 1e-9 (relative) or the rounding bound of the threshold are discarded"])

check("C19",
      parts=[dict(harness="c19", variant="asan", ocl_build=True, budget=45, omp=1), dict(harness="c19", ocl=True, budget=30)],
      technique="property-based testing: generated command lines against a model of the argument grammar, factory-made objects against directly built ones (differential), random life times under sanitizers",
      rule="a case is an argument list, a parameter set for an engine or solver (documented, absent, unknown and unusable values, shuffled and mixed with noise) and some use of what it creates, or a life time ending at a random stage; non-trivial: at least two parameters accepted and one argument ignored (args), an object was created and used (others)",
      assumptions=["recursion limit, sub-divisions and refine steps in the usable range", "a solver is destroyed before its engine", "OpenCL executed by the oclgrind simulator"])

check("C20",
      parts=[dict(harness="c20", budget=40, omp=1)],
      technique="property-based testing of the generator against its documented geometry (invariants) and against itself (determinism)",
      rule="a case is a star count (0..1000), three box sizes and an earlier state of the data object; non-trivial: at least one star requested",
      assumptions=["positive finite box sizes", "stars whose distance from the centre is lost in the rounding of their coordinates are not judged for speed"])

check("C21",
      parts=[dict(harness="c21", ocl_build=True, budget=30, omp=2), dict(harness="c21", ocl=True, budget=30)],
      technique="property-based testing against an element-wise model, on every engine, and of the run loop against an exactly known wrapped path",
      rule="a case is an engine, a box and a state with coordinates at, next to, inside and outside the borders, clamped 1-3 times, or a run with or without clamping of a motion whose wrapped path is known; non-trivial: some coordinate is outside the box (run: some coordinate was wrapped, or clamping is off)",
      assumptions=["positive box", "OpenCL executed by the oclgrind simulator"])

check("C22",
      parts=[dict(harness="c22", budget=40, omp=1)],
      technique="stateful differential property-based testing: used and reset solver against a new one, alternating against separate use, bit for bit",
      rule="a case is a solver with generated parameters (Adams with every explicit starter), 1-3 lives of 0-12 steps of different sizes each followed by a reset and 1-12 compared steps, or two solvers used alternately; non-trivial: at least two steps before and two after the resets (two steps of each solver)",
      assumptions=["implicit Runge-Kutta methods (rkgl, rklc) use the stages of the step before as first approximation and are not covered by this statement", "engines without memory of earlier steps"])

check("C23",
      parts=[dict(harness="c23", budget=60, omp=1, repo_sources=["player/nbody_frame_compressor.cpp", "player/nbody_frame_compressor_image.cpp", "player/wgt_nbody_player_control.cpp"],
                  repo_defs=["-I@REPO@/player", "-I@QT@/QtWidgets", "-I@QT@/QtConcurrent", "-DQT_WIDGETS_LIB", "-DQT_CONCURRENT_LIB"],
                  defs=["-I@REPO@/player", "-I@QT@/QtWidgets", "-I@QT@/QtConcurrent", "-DQT_WIDGETS_LIB", "-DQT_CONCURRENT_LIB"],
                  moc=["player/wgt_nbody_player_control.h"], libs=["-lQt5Widgets", "-lQt5Concurrent", "-lGL"])],
      technique="property-based testing: generated frame histories pushed to the recorder and read back (round trip), generated sequences of user actions on the playback control against a model",
      rule="a case is 1-2 destinations with up to 60 frames of generated pixels, sizes, formats and numbers, or a stream of 1-60 frames and 1-25 user actions; non-trivial: at least three frames recorded, at least two changes of the shown frame",
      assumptions=["frame numbers of one destination are distinct", "opaque images", "the disk accepts the files", "Qt's offscreen platform; the view is the subject of C29"])

check("C24",
      parts=[dict(harness="c24", budget=60, omp=1, repo_sources=["test/main/main.cpp"], repo_defs=["-Dmain=nbody_simulation_main"])],
      technique="property-based testing of the whole program: generated argument lists, the stream compared frame by frame and part by part with the library applied step by step (differential); generated unusable arguments",
      rule="a case is an engine, a solver, an initial state (universe or file of every type), steps, part size, noise arguments in shuffled order, then 0-2 resumptions; or a run with one unusable argument, with or without an earlier stream; non-trivial: at least three frames (refusals: always)",
      assumptions=["the program is entered at its main function in a process of its own, one OpenMP thread", "resumptions are compared for one-step methods without correction", "runs that leave the finite range are discarded"])

check("C26",
      parts=[dict(harness="c26", ocl=True, ocl_args=["--data-races", "--max-errors", "1000000"], budget=40)],
      technique="property-based testing: generated engine histories executed by an OpenCL simulator that checks every memory access for races and bounds",
      rule="a case is an OpenCL engine configuration (block size, device split, tree layout, traversal, rebuild rate), a body count and a history of 1-6 engine operations, sometimes followed by solver steps; non-trivial: more than one body and at least one force evaluation",
      assumptions=["races and accesses are those the oclgrind simulator observes", "the body count is a multiple of the block size, as the engine demands"])

check("C25",
      parts=[dict(harness="c01", cuda=True, budget=20), dict(harness="c02", cuda=True, budget=45), dict(harness="c05", cuda=True, budget=20),
             dict(harness="c06", cuda=True, budget=20), dict(harness="c21", cuda=True, budget=15), dict(harness="c25", cuda=True, budget=25)],
      technique="property-based testing of the CUDA host code and kernels, compiled as plain C++ against an execution model with generated schedules (queue laziness, block and thread order), with the oracles of C01, C02, C03, C05, C06 and C21",
      rule="a case is an engine, 1-8 devices, block size, communication mode and schedule, with the inputs of the corresponding property of the processor engines; non-trivial as there",
      assumptions=["the kernels run in a model of the CUDA execution and memory semantics (separate device memories, queued operations, barriers), not on a device", "body counts are multiples of 64 per device and of the block size", "a power of two of devices"])

check("C27",
      parts=[dict(harness="c27", lib_defs=["-DNB_COORD_PRECISION=4"], budget=45, omp=1), dict(harness="c27", lib_defs=["-DNB_COORD_PRECISION=1"], budget=25, omp=1)],
      technique="property-based testing of the library built with single and quadruple precision coordinates, against quadruple precision references",
      rule="a case is, for one of the two coordinate types: a solver and a generated quadrature or initial value problem; an engine and a body set; a series of vector operations and compensated updates; a run of 1-7 steps; a stream of 1-6 frames and a state file; non-trivial: all except force evaluations with fewer than three bodies",
      assumptions=["engines simple, openmp, block, ah and simple_bh", "state files of the quadruple build keep the precision of double (they are read through double)", "softened contributions are compared to 1e-18 (the constant is an extended precision literal)"])

check("C28",
      parts=[dict(harness="c28", ocl=True, budget=40, libs=["-ldl"])],
      technique="differential property-based testing: generated simulations (steps, runs with dumps and reports, resets, new states, clamping) on generated OpenCL device lists against the processor engine of the same kind",
      rule="a case is an OpenCL engine configuration (block size, device split, tree layout, traversal, rebuild rate), a body count, a solver with generated parameters and 1-4 actions; non-trivial: more than one body and at least two steps",
      assumptions=["OpenCL executed by the oclgrind simulator", "a power of two of devices, the body count a multiple of block size times devices", "histories with a pair closer than 0.05 are discarded", "error thresholds that force or forbid refinement"])

_PLAYER = ["-include", "@QT@/QtGui/QOpenGLContext", "-include", "@QT@/QtGui/QOpenGLFunctions", "-include", "@QT@/QtGui/QOpenGLPaintDevice", "-include", "@QT@/QtGui/QPainter", "-isystem", "/usr/include/opencv4", "-I@REPO@/player", "-I@QT@/QtWidgets", "-I@QT@/QtConcurrent", "-DQT_WIDGETS_LIB", "-DQT_CONCURRENT_LIB"]
check("C29",
      parts=[dict(harness="c29", budget=90, omp=1, repo_sources=["player/main.cpp", "player/wgt_nbody_view.cpp", "player/wgt_nbody_player.cpp", "player/wgt_nbody_player_control.cpp", "player/nbody_frame_compressor.cpp",
                                                                "player/nbody_frame_compressor_image.cpp", "player/nbody_frame_compressor_opencv.cpp"],
                  repo_defs=_PLAYER + ["-Dmain=nbody_player_main"], defs=_PLAYER,
                  moc=["player/wgt_nbody_view.h", "player/wgt_nbody_player.h", "player/wgt_nbody_player_control.h"],
                  libs=["-rdynamic", "-lQt5Widgets", "-lQt5Concurrent", "-lGLU", "-lGL", "-lEGL", "-lopencv_core", "-lopencv_videoio"])],
      technique="property-based testing: generated states, view settings and histories of user actions drawn by the real OpenGL code on a software renderer, the pictures compared with an independent perspective model; videos decoded and compared (round trip)",
      rule="a case is 2-40 bodies and 1-4 pictures with generated size, settings, split point and state; a stream of 1-6 frames and 1-9 actions on the player, recordings among them; a run of the program with generated arguments and a usable or damaged stream; or a video of 1-20 pictures; non-trivial: at least four bodies compared, at least three pictures or a recording, always, at least two pictures",
      assumptions=["Mesa's software renderer executes OpenGL as specified", "bodies nearer than 1 or farther than 1000 units from the camera are clipped", "texts are judged by what is drawn as text, not by its pixels; the dividing lines are left out of the comparison", "points smaller than 3 pixels are compared to a fifth of their brightness", "a video is lossy: colours of large areas to 48 of 255"])
