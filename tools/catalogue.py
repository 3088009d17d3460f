"""The property table: source of properties.jsonl and MANIFEST.json"""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, tech, note, lev="mc", observe=()):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                      why=" ".join(why.split()), files=files, mech=mech, tech=tech, note=" ".join(note.split()), lev=lev,
                      observe=list(observe)))


ENG = "foxes/core/engine.py"
ALG = "foxes/core/algorithm.py"
DW = "foxes/algorithms/downwind/downwind.py"
IT = "foxes/algorithms/iterative/iterative.py"

P("P01", "Farm results do not depend on engine, chunking or worker count",
  """For the same farm, states and models, a farm calculation returns the same numbers for every turbine, state and output
  variable, whichever parallelization engine runs it, however the states are cut into chunks and however many workers are used.
  No combination of engine, chunk size and worker count may crash, drop, duplicate or reorder states.""",
  ["configurations", "schedules"], "all engines, state chunk sizes and worker counts, for all models",
  "Tests compare engines on one or two model chains with one or two chunk sizes; leaks between chunks need a specific model and cut.",
  [ENG, "foxes/engines/pool.py", "foxes/engines/numpy.py", "foxes/engines/dask.py", "foxes/engines/xarray.py", "foxes/engines/default.py", DW],
  [("chunk cutting and result collection", "foxes/core/engine.py: Engine.calc_chunk_sizes, get_chunk_input_data, combine_results"),
   ("per-engine scheduling of chunks", "foxes/engines/*: run_calculation")],
  "exhaustive enumeration of (world, engine, chunking, workers) runs of the real code against the unchunked run",
  """Every listed (model world, engine, chunk size, worker count) combination is executed on the real code and compared with the
  single chunk run, rtol 1e-9. Trusts the OS scheduler for process pools; mpi/ray/cluster engines are not available offline.""")

P("P02", "Point results do not depend on engine or state and point chunking",
  """For the same farm results and evaluation points, a point calculation returns the same numbers for every point, state and
  variable, whichever engine runs it, however states and points are cut into chunks and however many workers are used.
  No such combination may crash, drop, duplicate or reorder states or points.""",
  ["configurations", "schedules"], "all engines, state and point chunk sizes and worker counts, for all models",
  "Tests run point calculations with one chunking each; a mismatch needs a certain cut in both dimensions.",
  [ENG, DW, "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/engines/numpy.py", "foxes/engines/dask.py"],
  [("two dimensional chunk cutting and result collection", "foxes/core/engine.py: get_chunk_input_data, combine_results"),
   ("per-chunk point evaluation", "foxes/algorithms/downwind/models/point_wakes_calc.py")],
  "exhaustive enumeration of (world, engine, state chunk, point chunk) runs of the real code against the unchunked run",
  "Every listed combination is executed on the real code and compared with the single chunk run, rtol 1e-9.")

P("P03", "Chunk partitions cover each state and each point exactly once",
  """For any number of states, points, workers and requested chunk sizes, the work is cut into non-empty chunks that cover every
  state and every point exactly once and in order, and that exceed a requested size by at most one.
  Whatever the cut, each state and each point of the results holds the value that belongs to it.""",
  ["inputs", "configurations"], "all state counts, point counts, worker counts and chunk sizes",
  "Tests use a handful of sizes; off-by-one errors in the partition need particular divisibility relations.",
  [ENG, "foxes/engines/numpy.py", "foxes/engines/pool.py"],
  [("chunk size arithmetic", "foxes/core/engine.py: Engine.calc_chunk_sizes"), ("result collection", "foxes/core/engine.py: Engine.combine_results")],
  "exhaustive enumeration of the chunk size arithmetic plus exhaustive small real runs",
  "All sizes up to the stated bounds, including the built-in thresholds; real runs for small sizes check end-to-end placement.")

P("P04", "At most one engine is set, and rejected engine operations change nothing",
  """At any time at most one engine is set, and calculations use exactly that one; entering, leaving, initializing or finalizing
  engines in any order either performs the documented transition or raises an error and leaves everything as it was.
  After leaving an engine, also by an exception, another engine can be set and used.""",
  ["histories", "fault_sequences"], "all sequences of engine operations, calculations and failures",
  "Tests only enter one engine per process and leave it; misuse orders and failures in between are never combined.",
  [ENG, "foxes/engines/pool.py", "foxes/engines/default.py", "foxes/engines/dask.py"],
  [("global engine registry", "foxes/core/engine.py: Engine.initialize, finalize, __enter__, __exit__, get_engine, reset_engine")],
  "exhaustive operation sequences on real engines against a reference automaton",
  "All operation sequences to the stated depth over two engines per kind; the automaton is replayed step by step on the real engines.")

P("P06", "The engines' map applies the function to every input, once and in order",
  """Mapping a function over a list of inputs with any engine returns one result per input, in input order, computed from
  exactly that input and the given arguments.
  This holds for any number of inputs and workers, including none, and an error in the function reaches the caller.""",
  ["inputs", "configurations", "schedules"], "all engines, input counts, worker counts and input types",
  "No test calls the map with more than one engine or with input counts around the worker count.",
  ["foxes/engines/pool.py", "foxes/engines/numpy.py", "foxes/engines/dask.py", "foxes/engines/default.py", "foxes/engines/single.py"],
  [("input batching", "foxes/engines/pool.py: _run_map, map")],
  "exhaustive enumeration of (engine, workers, input count, input kind)",
  "All combinations within the bounds are executed on the real engines; mpi/ray/cluster engines not available.")

P("P07", "A failing calculation reports its own error and leaves everything usable",
  """If a model fails during a farm or point calculation or while its data is loaded, at whichever chunk and call, the caller
  receives that error.
  Afterwards the same algorithm, models, states and engine can be used again and give the same results as if the failure had not happened.""",
  ["fault_sequences", "crash_points"], "every model call at which an error can be raised",
  "Tests never inject an error; recovery depends on the exact point of the failure.",
  [ALG, DW, IT, ENG, "foxes/core/model.py", "foxes/engines/default.py"],
  [("running flag and model initialization", "foxes/core/algorithm.py: set_running, init_states; foxes/core/model.py: initialize"),
   ("engine restoration", "foxes/engines/default.py: run_calculation")],
  "exhaustive single-fault injection at every model call of every chunk, with recovery runs",
  "Each fault site/call within the bounds is injected on the real code, followed by a full recovery run compared with a fresh one. One fault per run.",
  lev="fe")

P("P08", "Results do not depend on what was computed before with the same objects",
  """An algorithm, and any model book, states and farm it shares with other algorithms, can be used any number of times in any
  order of farm calculations, point calculations, ambient runs, restricted outputs, finalization and re-use by another algorithm.
  Each result equals the one obtained by freshly created objects.""",
  ["histories"], "all sequences of calculations on shared objects",
  "Tests use each object once; left-over state shows only for particular operation sequences.",
  [ALG, DW, IT, "foxes/core/model.py", "foxes/core/states.py", "foxes/models/model_book.py", "foxes/models/wake_frames/yawed_wakes.py"],
  [("initialization and clean-up of models", "foxes/core/model.py: initialize, finalize; foxes/core/algorithm.py: finalize, store_model_data")],
  "exhaustive operation sequences (depth 3/4) on real shared objects against fresh ones",
  "All sequences to the stated depth, each step compared with a fresh computation.")

P("P09", "The order in which turbines are added does not matter",
  """Adding the same turbines to the wind farm in another order gives the same results for each turbine, and the same results
  at all evaluation points.
  Everything attached to a turbine (types, heights, diameters, state selections, per-turbine data) follows the turbine.""",
  ["inputs"], "all orders of the turbines, for all models",
  "Tests use one order, often already sorted downwind, where a wrong reordering is invisible.",
  [DW, IT, "foxes/core/farm_controller.py", "foxes/algorithms/downwind/models/init_farm_data.py", "foxes/algorithms/downwind/models/reorder_farm_output.py",
   "foxes/models/turbine_models"],
  [("downwind ordering and back-ordering", "foxes/algorithms/downwind/models/init_farm_data.py, reorder_farm_output.py, set_amb_farm_results.py")],
  "exhaustive turbine permutations of real runs, metamorphic comparison",
  "All permutations of 3 (thorough 4) turbines for every kind of model; rtol 1e-9.")

WM = "foxes/models/wake_models"
P("P10", "Single wakes follow their published formulas at every point",
  """The wind speed deficit, wind speed induction or added turbulence that one turbine causes at any point equals the value of
  the published formula of the selected wake model (Jensen, Bastankhah 2014 and 2016, TurbOPark, Crespo-Hernandez, IEC,
  vortex sheet, Rathmann, self-similar), with the growth parameter k from the stated source.
  Deficit and turbulence models contribute only downstream, and nothing where thrust vanishes.""",
  ["inputs", "configurations"], "all points around a turbine, all wake models and their parameters, all thrust levels",
  "Tests compare a few lines of one or two models with reference data; sign, branch and parameter source errors show only at certain points.",
  [f"{WM}/wind", f"{WM}/ti", f"{WM}/induction", "foxes/core/wake_model.py", "foxes/core/axial_induction_model.py", "foxes/models/axial_induction"],
  [("wake formulas", f"{WM}/*/*.py: calc_wakes_x_r, calc_wakes_x_yz, calc_wake_radius, calc_centreline, contribute"),
   ("growth parameter", "foxes/core/wake_model.py: WakeK.__call__")],
  "exhaustive grid of points x models x parameters; real runs against a plain reference model",
  """All points of the stated grid for all models and parameter combinations; the reference is a scalar re-implementation of
  the formulas, its runs are compared with the real code value by value, rtol 1e-7.""")

P("P13", "Iterative calculations end in the self-consistent solution",
  """For any layout and wind direction the iterative algorithm returns the solution in which each turbine sees the wakes caused
  by all other turbines in their final state; without upstream influence it equals the downwind algorithm.
  The result does not depend on relaxation settings or the number of iterations used, and changes made for the iteration
  (such as the smoothed cut-in) leave user objects alone.""",
  ["inputs", "configurations"], "all layouts, wind directions, wake models and relaxation settings that converge",
  "Tests compare one row with the downwind algorithm; ordering and stopping errors need mutual influence.",
  [IT, "foxes/algorithms/iterative/models/farm_wakes_calc.py", "foxes/algorithms/iterative/models/convergence.py", "foxes/algorithms/iterative/models/urelax.py"],
  [("iteration and convergence test", "foxes/algorithms/iterative/iterative.py: calc_farm, _run_iterations; models/convergence.py"),
   ("wakes from all turbines", "foxes/algorithms/iterative/models/farm_wakes_calc.py")],
  "exhaustive enumeration of worlds; fixed point residual against a reference simulation",
  "All listed worlds are run on the real code; results are compared with a reference simulation or its one-step residual, rtol 1e-5.")

P("P18", "Overlapping wakes combine by the stated superposition rule",
  """At every turbine and point the wake effects of all turbines are combined by the selected rule (linear, quadratic, cubic,
  quartic, maximum, product; relative to the local, ambient or effective wind speed; with or without lower limit), separately per
  wake model, and wake models of one calculation do not disturb each other.""",
  ["inputs", "configurations"], "all superposition rules, wake models, layouts and wind directions",
  "Tests use two or three rules with one model; scaling and combination errors need three or more overlapping wakes.",
  ["foxes/models/wake_superpositions", "foxes/core/wake_superposition.py", "foxes/algorithms/downwind/models/farm_wakes_calc.py",
   "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/models/partial_wakes"],
  [("superposition rules", "foxes/models/wake_superpositions/*.py: add_wake, calc_final_wake_delta"),
   ("wake accumulation", "foxes/algorithms/downwind/models/farm_wakes_calc.py, point_wakes_calc.py")],
  "exhaustive enumeration of (rule, wake models, partial wakes, layout, direction); real runs against a reference simulation",
  "All listed combinations are executed and compared with the turbine-by-turbine reference, rtol 1e-7.")

P("P19", "Rotor averages and partial wakes are averages over the rotor that is hit",
  """The effective wind conditions of a turbine are the averages over its rotor disc as given by the rotor model: points lie on
  the disc facing the wind, weights are the area fractions and sum to one, projected on the yawed axis.
  Partial wake models average each wake over the disc of the affected turbine: overlap area fractions for top-hat wakes and
  radial ring areas for axisymmetric ones.""",
  ["inputs", "configurations"], "all rotor and partial wake models, rotor sizes, lateral and vertical offsets and yaw angles",
  "Tests use one rotor model per wake model at one or two offsets; the area formulas have many branches.",
  ["foxes/models/rotor_models", "foxes/core/rotor_model.py", "foxes/models/partial_wakes", "foxes/utils/two_circles.py", "foxes/core/partial_wakes_model.py"],
  [("rotor points, weights and averages", "foxes/models/rotor_models/grid.py, levels.py; foxes/core/rotor_model.py: eval_rpoint_results"),
   ("overlap areas", "foxes/models/partial_wakes/top_hat.py, axiwake.py, grid.py; foxes/utils/two_circles.py")],
  "exhaustive grid of offsets x sizes x models; real runs against an independent reference",
  "All grid points are executed; weights are compared with exact area integrals (within the documented quadrature error), results with the reference, rtol 1e-7.")

P("P20", "Wake frames agree in uniform flow and deflect yawed wakes as stated",
  """In spatially uniform wind all wake frames (rotor wind direction, streamlines, farm order, yawed wakes without yaw) give the
  same results.
  Yawed turbines shift their wakes laterally by the Bastankhah-Porte-Agel deflection at every downstream distance, and centreline
  points are exactly the points whose wake coordinates are (x, 0, 0).""",
  ["inputs", "configurations"], "all wake frames, yaw angles, layouts, wind directions, rotor and partial wake models",
  "Tests compare farm power for a row of turbines; rotor points off the axis and centreline points are never compared.",
  ["foxes/models/wake_frames", "foxes/core/wake_frame.py", f"{WM}/wind/bastankhah16.py"],
  [("wake coordinates and centrelines", "foxes/models/wake_frames/*.py: get_wake_coos, get_centreline_points, calc_order")],
  "exhaustive enumeration of (frame, wake model, yaw, layout, direction); real runs against each other and a reference",
  "All listed combinations are executed on the real code, rtol 1e-6; streamline frames within their step size.")

P("P21", "Ground mirrors add exactly the wakes of the image turbines",
  """With a wake mirror as ground model, every turbine and point sees, in addition to the real wakes, the wakes of image turbines
  reflected at the mirror heights, combined with the same superposition rule and partial wake model; hub heights, points
  and all other results are unaffected by the mirroring itself. Without ground effects nothing is added.""",
  ["inputs", "configurations"], "all mirror heights, hub heights, wake models, partial wakes and layouts",
  "No test covers mirrors with more than one wake model or hub height; left-over mirrored state shows only downstream.",
  ["foxes/models/ground_models", "foxes/core/ground_model.py", "foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/iterative/models/farm_wakes_calc.py"],
  [("mirrored contributions", "foxes/models/ground_models/wake_mirror.py: contribute_to_farm_wakes, contribute_to_point_wakes")],
  "exhaustive enumeration of (ground model, wake model, partial wakes, layout, heights, direction); real runs against a reference simulation",
  "All listed combinations are executed and compared with the reference simulation with explicit image sources, rtol 1e-7 (iterative 2e-5).")

P("P05", "Thread-parallel runs give the same results under every interleaving",
  """With engines that run chunks in threads (threads, xarray), farm and point calculations return the same results whatever the relative speed of the worker threads
  and of the main thread that submits the work: no worker may see, overwrite or lose data of another worker's chunk through
  shared models, algorithm, farm data or module level state.""",
  ["schedules"], "all interleavings of worker and main threads",
  "Tests see whichever schedule the operating system picks; a race needs a switch at one particular line.",
  ["foxes/engines/futures.py", "foxes/engines/pool.py", "foxes/engines/dask.py", ENG, ALG, "foxes/core/model.py", "foxes/core/wake_model.py", "foxes/core/data.py"],
  [("job isolation", "foxes/engines/futures.py: ThreadsEngine._job_data, _submit; foxes/core/engine.py: get_chunk_input_data"),
   ("state kept in models during calculations", "foxes/core/wake_model.py: WakeK; foxes/models/wake_models; foxes/models/ground_models")],
  "stateless model checking of the real threads and xarray engines (for the latter the thread pool of dask's scheduler): controlled scheduler, preemption-bounded exploration",
  """The real worker threads run under a scheduler that switches at chosen steps; one preemption at every step (quick: at most 150
  evenly spaced preemption points per world and operation, 50 with the xarray engine), thorough: at every executed line, plus all pairs on a coarser grid. A line is atomic.""")

P("P11", "Moving or rotating everything changes nothing else",
  """If turbines, points and state data are all shifted and rotated together with the wind directions, all results are the same, with
  directions and positions transformed in the same way: the calculation knows no preferred direction, no special position, and the
  0/360 degree jump of the wind direction is not visible in any result.""",
  ["inputs"], "all rotations and shifts of all worlds",
  "Tests use a few wind directions, mostly 270 degrees; a wrong axis or wrap-around is consistent within one direction.",
  ["foxes/models/wake_frames", "foxes/core/wake_frame.py", "foxes/core/rotor_model.py", "foxes/utils/wind_dir.py", "foxes/input/states"],
  [("wake coordinates", "foxes/models/wake_frames/*.py: get_wake_coos"), ("direction differences", "foxes/utils/wind_dir.py: delta_wd, wd2uv, uv2wd")],
  "exhaustive enumeration of (world, rotation, shift); real runs against the transformed results",
  "Every kind of model in 2-4 turbine farms, all listed rotations and shifts; rtol 1e-6.")

P("P12", "Ambient results are wake free and influence runs downstream only",
  """An ambient run, and all AMB_ variables of any run, equal what each turbine would see alone, without any wakes. Turbines
  and points that lie upstream or far beside a turbine are not changed by removing it; turbines without any upstream neighbour have
  their ambient wind conditions.""",
  ["inputs", "configurations"], "all worlds and all subsets of turbines",
  "Tests compare ambient data for single configurations; a wake leaking upstream or into ambient data needs other geometry.",
  [ALG, "foxes/algorithms/downwind", "foxes/algorithms/iterative", "foxes/models/farm_models", "foxes/models/wake_models"],
  [("ambient data", "foxes/algorithms/downwind/models/set_amb_farm_results.py, set_amb_point_results.py; calc_farm(ambient=True)"),
   ("downwind order and selection of downstream points", "foxes/algorithms/downwind/models/farm_wakes_calc.py, init_farm_data.py")],
  "exhaustive enumeration of (world, removed turbine, single turbine); real runs against each other",
  "Every kind of model in 3-4 turbine farms; every turbine removed, every turbine alone; rtol 1e-9, iterative 1e-5.")

P("P14", "Running state by state gives the same results as running all states together",
  """The sequential algorithm yields, for every state in order, the same farm and point results as the iterative algorithm
  for all states together, with and without wakes, and its collected results, current results, counters and indices agree; plugins are
  initialised once, updated once per state in order, and finalised once. It can be run again with the same results.""",
  ["histories", "inputs"], "all states, models, plugins, points and repeated runs",
  "One test compares one setup; state dependent data (moving turbines, lazily read fields) is never run sequentially.",
  ["foxes/algorithms/sequential", "foxes/algorithms/iterative/iterative.py", "foxes/core/model.py", "foxes/core/data.py"],
  [("stepping through states", "foxes/algorithms/sequential/sequential.py: __iter__, __next__"),
   ("single state placeholder", "foxes/algorithms/sequential/models/seq_state.py")],
  "exhaustive enumeration of (world, run mode), all iteration steps checked; real runs against each other",
  "Every kind of steady model; farm, points, plugins, repeated, ambient, reduced outputs; each step and the collected results, rtol 1e-5.")

P("P17", "The mirror image of a world has the mirror image of its results",
  """If the farm, points, wind directions and yaw misalignments are all mirrored at a vertical plane, all results are mirrored in the
  same way: powers, thrusts and wind speeds are equal, directions and yaw angles are reflected. No model prefers one side.""",
  ["inputs", "configurations"], "all worlds, including yawed turbines and deflected wakes",
  "Sign errors of lateral coordinates or yaw are invisible in tests that use one side only.",
  ["foxes/models/wake_frames", "foxes/models/wake_models", "foxes/models/partial_wakes", "foxes/core/rotor_model.py", "foxes/models/turbine_models"],
  [("lateral coordinates and deflections", "foxes/models/wake_frames/yawed_wakes.py, rotor_wd.py; foxes/models/wake_models/wind/bastankhah16.py"),
   ("partial wakes of yawed rotors", "foxes/core/wake_frame.py; foxes/models/partial_wakes/*.py")],
  "exhaustive enumeration of (world, mirror plane); real runs against the mirrored results",
  "Every kind of model and all combinations of yaw, frame, wake model, rotor and partial wake model; rtol 1e-6.")

P("P22", "Turbine models act on exactly their own turbines and states, in the given order",
  """Each turbine model of a turbine acts on that turbine only, exactly in the states selected for it, and the models of a turbine act
  in the order in which they are given, pre-rotor models first; repeated models and model lists act as if written out.
  Turbines with different model sequences do not disturb each other; impossible sequences are rejected.""",
  ["inputs", "configurations"], "all model sequences, model lists, turbines and state selections",
  "Tests give the same models to all turbines and no state selections.",
  ["foxes/core/farm_controller.py", "foxes/core/turbine.py", "foxes/core/wind_farm.py", "foxes/core/farm_data_model.py"],
  [("merging the model sequences of all turbines", "foxes/core/farm_controller.py: _analyze_models, collect_models"),
   ("selections per model", "foxes/core/farm_controller.py: __get_pars, calculate")],
  "exhaustive enumeration of model sequences and selections with tracing models on the real code",
  "All sequences up to 3 models, incl. lists and repetition, for 2-3 turbines, all state selections of 2 states; traces are compared exactly.")

P("P23", "Power and thrust follow the given curves, in whatever form they are given",
  """Every turbine type returns, in every state, the power and thrust coefficient that its table gives at the effective wind speed
  (linear interpolation; zero outside the wind speed range), with the stated corrections for air density, turbulence and yaw
  misalignment; frames, files, file names with parameters, sorted or unsorted rows all define the same turbine.""",
  ["inputs", "configurations"], "all turbine type models, wind speeds, densities, turbulence intensities and yaw angles",
  "Tests use one or two types at a few wind speeds and reference density.",
  ["foxes/models/turbine_types", "foxes/data/parse.py", "foxes/core/turbine_type.py", "foxes/models/turbine_models/lookup_table.py"],
  [("curve evaluation", "foxes/models/turbine_types/*.py: calculate"), ("names with parameters", "foxes/data/parse.py")],
  "exhaustive enumeration of (turbine type, form, options, wind speed grid, density, turbulence, yaw) on the real code against plain interpolation",
  "All listed combinations; wind speeds at, between and outside all table nodes; rtol 1e-7 (cp tables 1e-3).")

P("P24", "Turbine models compute what they state, on the final results",
  """In the final farm results every turbine model's stated relation holds for the turbines and states it is given to, and only for them:
  set variables, wake growth from turbulence, power limits (derating and boost at the matching thrust), thrust to ct, table factors,
  lookups, yaw misalignment and yaw, sector management ranges including periodic ones, calculated variables, rotor centre values.
  Positions, rotor diameters and hub heights set by state are those of a farm built with them.""",
  ["inputs", "configurations"], "all turbine models, selections and states, both steady algorithms",
  "Tests run a few turbine models for all turbines at once and compare with stored numbers.",
  ["foxes/models/turbine_models", "foxes/core/turbine_model.py", "foxes/algorithms/downwind/models/init_farm_data.py"],
  [("models", "foxes/models/turbine_models/*.py: calculate"), ("state dependent geometry", "foxes/models/turbine_models/set_farm_vars.py, foxes/algorithms/downwind/models/init_farm_data.py")],
  "exhaustive enumeration of (model, turbine selection, state selection, algorithm) on the real code against each model's equation",
  "3 turbines in wakes, 4 states, a fixed part (thorough: all) of the selections per turbine; rtol 1e-7, iterative 1e-4. One finding is listed.")

P("P25", "The same states give the same results in whatever form they are given",
  """A set of inflow states gives the same results, state weights and state index, whether given as data frame or as plain or compressed
  csv file, with own or renamed columns in any order, with constant variables as columns or as fixed values, as rows selected by position,
  slice, mask or label, as time series, scan over value lists, tab file or single state, by reset or by reuse of the object.
  Without a weight column all selected states weigh the same; the data the user passes in is left unchanged.""",
  ["inputs", "configurations", "histories"], "all forms of table-like states, fixed variable subsets and selections",
  "Tests run one table per class; the combination of selection, weights, renaming and source is never varied.",
  ["foxes/input/states/states_table.py", "foxes/input/states/scan.py", "foxes/input/states/single.py", "foxes/utils/tab_files.py", "foxes/utils/pandas_utils.py"],
  [("tables", "foxes/input/states/states_table.py: StatesTable.load_data, calculate, reset; TabStates.load_data"), ("scans", "foxes/input/states/scan.py: load_data")],
  "exhaustive enumeration of (class, source, fixed variables, selection, weights, columns) on the real code against the numbers of the table",
  "At most 7 states; csv based sources only (no HDF5 here); scans of up to 4 variables; tab files of up to 4 sectors and 4 bins.")

P("P15", "Point models compute what they state on states and points",
  """Point models turn kinetic energy or friction velocity and wind speed into turbulence intensity by their formulas and limits, set uniform data
  per state from dictionaries, data frames and files, and give the (normalised) differences of waked and ambient results. They act in the given
  order on the states they are added to, in any form of attachment, such that farm and point results equal those with states that hold the
  computed data; and on point calculations, where they see ambient and then waked data at every point. Chunks do not matter; farm
  results, later calculations, names and labels of states are unaffected.""",
  ["inputs", "configurations"], "all sequences of point models, forms of attachment, chunk sizes",
  "One test uses a point model of fields; none of these models is run.",
  ["foxes/models/point_models", "foxes/core/point_data_model.py", "foxes/core/states.py", "foxes/algorithms/downwind/downwind.py"],
  [("models", "foxes/models/point_models/*.py: calculate"), ("attachment", "foxes/core/states.py: ExtendedStates"), ("point calculations", ALG + "/downwind/downwind.py: _collect_point_models")],
  "exhaustive enumeration of point model sequences on the real code, against states with the computed data and against formulas on plain results",
  "3 turbines, 4 states, sequences of up to three models; wind speeds are only overwritten by the first model.")

P("P16", "Points see the flow that a passive turbine there would see",
  """The point results at any position equal what a turbine without thrust at this position would find there (wind speed along its axis,
  turbulence, density, direction, with and without wakes), adding such turbines changes nothing for the others, and the result at a point
  does not depend on which other points are asked for, in which order or how often.""",
  ["inputs", "configurations"], "all positions, states, wake, frame, ground and inflow models",
  "Tests never compare the two code paths (farm wakes and point wakes) with each other.",
  ["foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/core/wake_frame.py", "foxes/core/wake_model.py", "foxes/core/algorithm.py"],
  [("farm", "foxes/algorithms/downwind/models/farm_wakes_calc.py: FarmWakesCalculation.calculate"), ("points", "foxes/algorithms/downwind/models/point_wakes_calc.py: PointWakesCalculation.calculate")],
  "exhaustive enumeration of lattice positions, passive turbine sets and point lists for every kind of model, farm path against point path on the real code",
  "Three turbines; rotor and partial wakes at the rotor centre; runs of the downwind algorithm with several mutually dependent wake models are a known finding.")

P("P26", "States that vary in space, height or time interpolate the given data",
  """At every point the inflow from field data, multi height tables, vertical profiles, WRG files and one-point flow states is the stated
  interpolation of the given data: the wind vector and the other variables are (multi-)linear (or nearest, if chosen) between the nodes and
  exact on them, constants and fixed values are uniform, vertical profiles follow their laws and meet the reference speed at the reference
  height, points outside of the data raise an error unless that is switched off, and weights are the given ones (for WRG files the sector
  frequency times the Weibull bin). Load mode, file split, order of dimensions, names, chunks and earlier use with another farm do not matter.""",
  ["inputs", "configurations"], "all source forms, dimension orders, load modes, fixed variables, profile laws and point positions",
  "Tests run one data set per class without comparing values; boundary nodes, directions around north and mixed inputs are not sampled.",
  ["foxes/input/states/field_data_nc.py", "foxes/input/states/multi_height.py", "foxes/input/states/wrg_states.py", "foxes/input/states/one_point_flow.py", "foxes/input/states/states_table.py", "foxes/models/vertical_profiles/", "foxes/utils/abl/"],
  [("field", "foxes/input/states/field_data_nc.py: load_data, calculate"), ("heights", "foxes/input/states/multi_height.py: calculate"), ("profiles", "foxes/models/vertical_profiles/*.py"), ("wrg", "foxes/input/states/wrg_states.py"), ("one point", "foxes/input/states/one_point_flow.py: calc_states_indices")],
  "exhaustive enumeration of (source form, dimension order, load mode, fixed variables, profile law, point) on the real code against an independent interpolation",
  "Two turbines, 13 points, up to 4 states and small grids; one-point flow claimed for constant wind; rtol 1e-7.")

P("P27", "Statistics, yields and roses are the weighted sums of the results",
  """Mean values, sums, standard deviations, minima and maxima over states and turbines, capacities, yields and efficiencies are exactly
  the stated weighted combinations of the farm results, with ambient values where ambient ones are requested, for any weights, selection
  of variables and state type; wind roses put every state into exactly one sector and one bin and conserve the total frequency.
  Evaluation leaves the farm results unchanged except for the variables that it is asked to add.""",
  ["inputs"], "all weights, contractions, variables and bin layouts",
  "Tests compare a few farm totals; contraction rules by variable and dimension and bin edges are not sampled.",
  ["foxes/output/farm_results_eval.py", "foxes/output/rose_plot.py", "foxes/output/state_turbine_map.py"],
  [("reductions", "foxes/output/farm_results_eval.py: reduce_states, reduce_turbines, reduce_all"), ("roses", "foxes/output/rose_plot.py: RosePlotOutput.get_data")],
  "exhaustive enumeration of (reduction, variable, weights, state type) and of rose layouts on the real code against plain sums",
  "Small farm results with non-uniform weights; rtol 1e-9.")

P("P28", "Exported files contain the results",
  """Files written by the output classes read back as exactly the written results: the requested variables under their requested names,
  indexed by the right states and turbines, rounded to the stated digits at most, in every supported file format and after any earlier write
  with the same writer. Farm layouts read back from an exported file give the same farm. Writing never changes the results in memory.""",
  ["inputs", "histories"], "all formats, variable selections, names and digits, and sequences of writes",
  "Tests never read back what was written.",
  ["foxes/output/results_writer.py", "foxes/output/state_turbine_table.py", "foxes/output/farm_layout.py", "foxes/output/calc_points.py", "foxes/utils/pandas_utils.py", "foxes/utils/xarray_utils.py"],
  [("writers", "foxes/output/results_writer.py: write_csv, write_nc"), ("formats", "foxes/utils/pandas_utils.py: PandasFileHelper; foxes/utils/xarray_utils.py: write_nc")],
  "exhaustive enumeration of writer options and pairs of successive writes on the real code, read back with independent readers",
  "3 states, 3 turbines, integer and time stamp states; csv, compressed csv, netCDF, json, xyh; no HDF5 here.")

P("P29", "Direction conversions, circle overlaps and cubic roots are exact",
  """Wind directions convert to vectors and back for arrays of any shape, any speeds that fit and any position of the component axis; direction
  differences are the shortest signed angle; the overlap area of two circles is exact for all radii and distances, each pair independent of the
  others; the real roots of cubic polynomials are all found, and nothing else; the regularised square root equals the square root from its
  threshold on and continues it smoothly, positive and increasing. Arguments are never changed.""",
  ["inputs"], "all directions, speeds, shapes, radii, distances and coefficients",
  "No test calls these functions.",
  ["foxes/utils/wind_dir.py", "foxes/utils/two_circles.py", "foxes/utils/cubic_roots.py", "foxes/utils/regularize.py"],
  [("directions", "foxes/utils/wind_dir.py"), ("circles", "foxes/utils/two_circles.py: calc_area"), ("cubics", "foxes/utils/cubic_roots.py: cubic_roots")],
  "exhaustive enumeration of argument lattices, shapes and axes on the real code against scalar references",
  "Directions within [0, 360]; 55 directions, 7 x 7 radii with 40 distances each, 120 root triples and 192 complex pairs.")

P("P30", "Area geometries obey the algebra of sets",
  """Circles, polygons, half planes and everything built from them by union, difference, intersection and inversion tell exactly for every point
  whether it is inside according to set algebra; their bounds contain the set; distances are distances to the boundary or at most that far, exact
  for basic shapes and for unions seen from outside and intersections seen from inside, and the nearest point returned is that far away; figures
  show the same set and distances. Arguments are not changed and later changes of them have no influence.""",
  ["inputs"], "all shapes, expressions and points",
  "Tests draw a few geometries and compare no membership, bound or distance.",
  ["foxes/utils/geom2d/area_geometry.py", "foxes/utils/geom2d/circle.py", "foxes/utils/geom2d/polygon.py", "foxes/utils/geom2d/half_plane.py"],
  [("algebra", "foxes/utils/geom2d/area_geometry.py: AreaUnion, AreaIntersection, InvertedAreaGeometry"), ("distances", "foxes/utils/geom2d/*.py: points_distance")],
  "exhaustive enumeration of all expressions up to a depth over ten shapes on lattice points on the real code, against independent membership tests",
  "Ten shapes, up to two operators (all) and three (every 11th triple in the quick check), 295 points.")

P("P31", "Model names mean the stated models with the stated parameters",
  """A name from the model book gives exactly the class, induction, superposition, limits and numbers that its template documents, in every form of
  the wake parameter (none, k, ka, ka and kb, ambient ka) and of the encoded numbers: calculations with the name equal calculations with that
  object constructed by hand. It does not matter which other names were used before; a name gives one object per book, books share none;
  names that fit no entry or template (also with trailing or missing parts) are rejected and leave the book unchanged.""",
  ["inputs", "histories", "configurations"], "all names of all templates, any order of requests",
  "Tests use a handful of names and never compare them with constructed models.",
  ["foxes/models/model_book.py", "foxes/utils/factory.py", "foxes/utils/dict.py"],
  [("names", "foxes/models/model_book.py: ModelBook"), ("templates", "foxes/utils/factory.py: Factory.check_match, WakeKFactory, FDict")],
  "exhaustive enumeration of template names and of request orders on the real code, against explicitly constructed models",
  "About 700 names; numbers with up to four digits; unknown superpositions are only rejected when the model is used.")

P("P32", "Parameter dicts and yaml files run exactly what they state",
  """A run from a parameter dict, from the same content in a yaml file or from the command line gives the results of the same states, models, farm,
  algorithm, engine and calculations built with the classes: every section counts, entries that are missing mean the defaults, and arguments
  that replace sections (states, farm, model book, algorithm, engine, iterative, model names) replace exactly those. Output sections run their
  functions in order and list every result; labels pass results on. The dict is not changed and can be used repeatedly. Input and output files
  are relative to the stated folders. The engine is stopped at the end, also after failures; verbosity zero is silent.""",
  ["inputs", "configurations", "histories"], "all combinations of sections and arguments, all sequences of outputs, failures in any section",
  "No test runs a parameter dict or the command line.",
  ["foxes/input/yaml", "foxes/config/config.py", "foxes/utils/dict.py", "foxes/core/engine.py"],
  [("dicts", "foxes/input/yaml/dict.py: read_dict, run_dict, run_outputs"), ("command line", "foxes/input/yaml/yaml.py: foxes_yaml")],
  "exhaustive enumeration of section values, replacing arguments, output sequences, failing sections, folders and command line options on the real code, against runs built with the classes",
  "One to eight values per section, all pairs of sections; all sequences of two outputs of 15 and of three of 11; up to 4 turbines, 6 states.")

P("P33", "Figures draw the numbers they stand for",
  """What a reader takes from a figure is what the data say: the bars of a wind rose have, in the colour that the legend gives to a wind speed bin, the
  frequency of that sector and bin at the compass direction of the sector; cells of bin plots, state-turbine maps and flow planes show the value of
  their sector, bin, state, turbine or point, arrows the wind there, lines of rotors the turbines of the state shown, farm layouts the positions, names
  and the stated statistics, curves the tables of the turbine type, and animations one frame per state in the order of the states.""",
  ["outputs"], "all plotting functions, options, selections and results",
  "Tests draw no figure.",
  ["foxes/output/rose_plot.py", "foxes/output/farm_layout.py", "foxes/output/state_turbine_map.py", "foxes/output/turbine_type_curves.py", "foxes/output/rotor_point_plots.py", "foxes/output/flow_plots_2d", "foxes/output/animation.py", "foxes/output/seq_plugins/seq_flow_ani_plugin.py", "foxes/output/farm_results_eval.py"],
  [("statistics", "foxes/output/rose_plot.py: RosePlotOutput, WindRoseBinPlot; farm_layout.py, state_turbine_map.py, turbine_type_curves.py"), ("flow", "foxes/output/flow_plots_2d: FlowPlots2D, get_fig; animation.py: Animator; seq_plugins/seq_flow_ani_plugin.py")],
  "exhaustive enumeration of all plotting functions and option combinations on the real code; the artists of every figure are read back and compared with independent counting, tables and single point calculations",
  "1 to 16 sectors, 1 to 5 bins, 3 turbines, 5 states, planes of 6 x 5 points, three plane directions, all selections; nothing is rendered, contour plots are compared by their extremes.")

P("P34", "Dynamic wakes are carried along by the wind of each moment",
  """For a time series of wind that is uniform in space, the dynamic wake frames (timelines, dynamic wakes, sequential dynamic wakes) put every
  point into the wake that left a rotor at the moment whose air is now nearest, at the distance that this air has travelled since, with
  the thrust and wind speed the turbine had at that moment. Wakes that have not arrived have no effect, in constant wind the arrived ones are
  those of the steady calculation, results at a moment do not depend on later moments, and none of this depends on the chunks.""",
  ["histories", "configurations"], "all wind histories, time steps, dynamic wake frames, chunk sizes",
  "Tests run one time series and compare two frames in constant wind.",
  ["foxes/models/wake_frames/timelines.py", "foxes/models/wake_frames/dynamic_wakes.py", "foxes/models/wake_frames/seq_dynamic_wakes.py", "foxes/algorithms/sequential", "foxes/core/wake_frame.py"],
  [("traces", "foxes/models/wake_frames/timelines.py, dynamic_wakes.py, seq_dynamic_wakes.py: get_wake_coos"), ("data of the moment of origin", "foxes/core/wake_frame.py, seq_dynamic_wakes.py: get_wake_modelling_data")],
  "exhaustive enumeration of wind histories; every history runs on the real code and on an explicit-state model (markers that leave the rotors and move with the wind), all turbine and point results are compared",
  "All histories of 4 (thorough: 5) moments over three winds, two alphabets (mild and reversing), regular and irregular steps, 7 frames, chunk sizes 1, 2, 3 and whole; 3 turbines, 32 points; rtol 1e-5. Points at the border between two markers are left out.")

P("P35", "Calculations and inputs change nothing that they are given",
  """No call changes a container that it was given, then or later: arrays, lists, dicts, data frames and data sets with inputs of states, models,
  layouts, algorithms, calculations and outputs keep their content, apart from the functions that are there to add to farm results. Default
  arguments and class attributes keep their values, and objects created with the same or with no arguments share nothing that changes.
  Results belong to the caller: writing into returned results or into the given points alters neither other results nor later calculations.""",
  ["inputs", "histories"], "all calls of all kinds of worlds, all containers, all default arguments",
  "Tests never look at their inputs after a call.",
  ["foxes"],
  [("states inputs", "foxes/input/states/*.py"), ("model lists", "foxes/core/point_data_model.py, farm_data_model.py"), ("turbines", "foxes/core/turbine.py, foxes/input/farm_layout"), ("calculations", "foxes/algorithms/downwind/downwind.py")],
  "monitored exhaustive exploration: every call of enumerated executions of the real code is observed at entry and return, and all given containers, default arguments and class attributes are compared",
  "All worlds of the catalogue with two engines, and the calls of 23 other checks (quick: a fixed part); about 260 thousand observed calls.")

P("P36", "Selected states give the results of these states",
  """A point calculation that is restricted to some states, by position or by label, in any order and with any chunk size, gives for each of them
  exactly the results that the calculation with all states gives: the right wind from the state data (also when it is read on demand or carried along
  in time), the turbine results of the same state, and the labels of the selected states. This also holds for ambient results and for points that
  differ from state to state.""",
  ["configurations", "inputs"], "all kinds of states and models, selections, chunk sizes",
  "Tests never select states in a calculation.",
  ["foxes/algorithms/downwind/downwind.py", "foxes/core/algorithm.py", "foxes/input/states", "foxes/core/engine.py"],
  [("selection", "foxes/algorithms/downwind/downwind.py: calc_points; foxes/core/algorithm.py: get_models_data"), ("state data on demand", "foxes/input/states/field_data_nc.py, one_point_flow.py: calculate")],
  "exhaustive enumeration of selections of states in all worlds of the catalogue on the real code, compared with the calculation of all states",
  "94 worlds, all subsets of 4 states in order and reordered pairs and triples, 6 points, chunk sizes 1, 2 and whole; rtol 1e-9. Dynamic wake frames lose the history before the selected states: recorded as a finding.")

P("P37", "Slices and flow plots show the point results at the stated positions",
  """Slices in all orientations and their figures show exactly what a point calculation gives at the stated positions: the grid covers the
  requested range in the requested direction and resolution, means are the weighted state means, each state slice is that state, and
  normalisation, limits, labels, state selections and data formats act as stated on the right variable and axis.
  Stacked slices hold each slice at its own position, and the farm results stay unchanged.""",
  ["inputs", "configurations"], "all orientations, grids, directions, formats, selections and modifications",
  "Tests produce no slices or figures.",
  ["foxes/output/slice_data.py", "foxes/output/slices_data.py", "foxes/output/grids.py", "foxes/output/flow_plots_2d"],
  [("grids", "foxes/output/grids.py: get_grid_xy, get_grid_xz, get_grid_yz"), ("slices", "foxes/output/slice_data.py: _calc_mean_data, _calc_states_data"), ("figures", "foxes/output/flow_plots_2d/flow_plots.py")],
  "exhaustive enumeration of (orientation, grid, direction, format, modification, selection) on the real code against independently placed points",
  "3 turbines, 3 states; rtol 1e-9; means over state subsets are not claimed.")

P("P38", "Farm layouts place exactly the stated turbines",
  """Grids, rings, rows, random layouts, data frames, csv files (also compressed, as strings or path objects, from the packed data) and json files
  add exactly the stated turbines in the stated order: positions, indices, names, hub heights, rotor diameters and models in the order of the
  columns and arguments. Successive inputs extend the farm without changing earlier turbines, count indices and names on, share nothing with
  their arguments or each other. Random layouts keep the minimal distance and centre and repeat with the same seed. Farms report names,
  positions, bounds with extra space, diameters and heights accordingly.""",
  ["inputs", "histories", "configurations"], "all layouts, column choices, file formats and sequences of inputs",
  "Tests use a few grids and one csv and never look at the placed turbines.",
  ["foxes/input/farm_layout", "foxes/core/wind_farm.py", "foxes/core/turbine.py", "foxes/utils/random_xy.py"],
  [("layouts", "foxes/input/farm_layout/*.py"), ("farm", "foxes/core/wind_farm.py: WindFarm")],
  "exhaustive enumeration of layout arguments, column subsets, file formats and sequences of inputs on the real code, against independently written turbine lists",
  "Up to 12 turbines; tables with integer row labels; all sequences of three inputs out of nine.")

P("P39", "windIO inputs run exactly what they state",
  """A windIO description - wind resource, turbine types, layouts, wake models with their parameters, superpositions, induction, rotor averaging,
  deflection, blockage - gives exactly the results of the same calculation written with the foxes classes, in every combination of entries;
  constants and optional entries mean what they state. The requested files contain the requested variables at the requested states, planes and grid points,
  in the stated folder, also from the command line. The given data is not changed and can be read again. Unknown entries are refused.""",
  ["inputs", "configurations"], "all stated values of all entries, all pairs of entries, all combinations of the wake model entries and of the output entries",
  "No test reads any windIO data.",
  ["foxes/input/yaml/windio", "foxes/utils/dict.py", "foxes/output/slices_data.py", "foxes/output/state_turbine_table.py"],
  [("reading", "foxes/input/yaml/windio/read_site.py, read_fields.py, read_farm.py, read_attributes.py, read_outputs.py"), ("running", "foxes/input/yaml/windio/windio.py: read_windio, foxes_windio; foxes/input/yaml/dict.py: run_dict")],
  "exhaustive enumeration of windIO entries (all pairs, wake and output entries in full), each run on the real code and compared with an independent translation into the foxes classes",
  "Up to 5 turbines, 4 states; the windIO package's own yaml reader is replaced by plain yaml.")

P("P40", "States are independent of each other",
  """Without models that look back in time, the results of one state depend on the data of that state only: any subset, repetition or
  order of the states gives the same results for the same state data. The results keep the given order and labels of states.""",
  ["inputs", "histories"], "all subsets and orders of states, all steady models",
  "Tests compare a whole time series with itself; a value leaking from another state shows only in another order.",
  [ALG, "foxes/core/model.py", "foxes/core/data.py", "foxes/models", "foxes/input/states"],
  [("per-state calculations", "foxes/models/**: calculate with state selections"), ("per-state data", "foxes/input/states/*.py: load_data, calculate")],
  "exhaustive enumeration of state permutations and subsets for each world; real runs against each other",
  "4 states: all orders and subsets (quick: a fixed part of them) for every kind of steady model; rtol 1e-9, iterative 1e-5.")
