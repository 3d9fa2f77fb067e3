"""The properties: what is claimed, why, and where it is anchored."""

SIM = "festim/generic_simulation.py"
STEP = "festim/stepsize.py"
HTP = "festim/h_transport_problem.py"
HEAT = "festim/temperature/temperature_solver.py"
EXP = "festim/exports"
BC = "festim/boundary_conditions"

SCHED = "exhaustive exploration of solver answers on the real time loop, against an explicit model"
ENUM = "bounded exhaustive enumeration of model runs on the real code, checked step by step against a reference model"

NOTE_SCHED = (
    "Every sequence of solver answers (converged fast, slow, not converged) up to the bound is executed on the real time loop and "
    "step-size code with the linear algebra replaced by scripted answers; the trace must be one of the reference transition system."
)
NOTE_ENUM = (
    "Every configuration within the bounds is run on the real code (real FEniCS assembly and solve); every reached state is checked "
    "against an independent numpy model of the documented equations. Trusts FEniCS' mesh and the reference model; exhaustive "
    "only within the stated bounds."
)

PROPERTIES = [
    dict(
        id="C01",
        title="A transient run ends at the final time, or stops with an error",
        statement="A transient simulation either returns after an uninterrupted sequence of strictly increasing time steps, the last of "
        "which is the final time, or raises an error; it neither ends early or late nor runs forever, whatever the solver answers. "
        "With a constant stepsize a step that does not converge raises; with an adaptive one it is tried again with a smaller stepsize, "
        "and an error is raised as soon as the stepsize would fall below the minimal stepsize.",
        over=["schedules", "fault_sequences", "configurations"],
        quant="all sequences of solver outcomes (few iterations, many iterations, failure) x stepsize configurations x time scales",
        why="Tests run a few models whose solver always converges, in one or two iterations; the order of failures and slow steps relative "
        "to milestones and to the final time is never enumerated.",
        files=[SIM, STEP, HTP],
        mech=[("time loop, clipping of the last step", SIM), ("adapt / dt_min", STEP), ("retry of a failed attempt", HTP)],
        observe=["simulation time after each step", "exceptions of run()"],
        technique=SCHED, note=NOTE_SCHED,
    ),
    dict(
        id="C02",
        title="Every milestone and requested export time is the time of a step",
        statement="Every milestone and every time requested by a text export that lies within the simulated interval is the time of exactly "
        "one accepted step, in increasing order, whatever the order in which they are given, the initial stepsize and the behaviour of the solver.",
        over=["schedules", "inputs", "configurations"],
        quant="all sets of milestones/export times over a grid x stepsizes x all sequences of solver outcomes up to a depth",
        why="Tests use one or two milestones and a solver that always converges; whether the stepsize jumps over a milestone depends on the "
        "interleaving of growth, reduction, retries and clipping.",
        files=[STEP, SIM, "festim/exports/txt_export.py"],
        mech=[("next milestone and clipping", STEP), ("milestones of text exports", SIM)],
        observe=["times of the accepted steps", "columns of text exports"],
        technique=SCHED, note=NOTE_SCHED,
    ),
    dict(
        id="C03",
        title="The stepsize follows the documented adaptive law",
        statement="After a step that converged in few (at most 4) iterations the adaptive stepsize is multiplied by the change ratio, after one "
        "that needed more it is divided by it, after a failed attempt it is divided by it and the attempt is repeated from the same time; it "
        "then never exceeds the (possibly time-dependent) maximal stepsize and never carries the simulation beyond the next milestone or the "
        "final time. Without a change ratio the stepsize stays constant, apart from the steps clipped to a milestone or to the final time.",
        over=["schedules", "fault_sequences", "configurations"],
        quant="all sequences of solver outcomes up to a depth x ratios, limits, milestones and initial stepsizes",
        why="The unit tests call the adaptation once per situation; the law is about sequences (growth after clipping, retry after milestone).",
        files=[STEP, SIM, HTP],
        mech=[("adapt, modify_value, next_milestone", STEP), ("max_stepsize", STEP)],
        observe=["time and stepsize of every attempt"],
        technique=SCHED, note=NOTE_SCHED,
    ),
    dict(
        id="C04",
        title="A failed attempt leaves no trace in the solution",
        statement="The solution after any run with rejected attempts is the one obtained by taking the accepted steps only: previous "
        "concentrations, trap densities, surface concentrations, temperature and time-dependent inputs seen by an accepted step do not depend "
        "on the attempts that failed before it.",
        over=["fault_sequences", "histories"],
        quant="all words of converged/failed answers up to a length, for one model of each part of the physics",
        why="No test makes the solver fail at a chosen step; leaks (time advanced twice, density updated by a rejected attempt, stepsize of "
        "the failed attempt used in the equations) only show for specific failure positions.",
        files=[SIM, HTP, STEP, "festim/concentration/traps", HEAT],
        mech=[("initial guess and time restored", SIM), ("update_previous_solutions", HTP)],
        observe=["fields after each accepted step", "time"],
        technique="exhaustive fault injection (all failure words) on the real code, against a reference model", note=NOTE_ENUM,
    ),
    dict(
        id="C05",
        title="Results are recorded and written at exactly the requested steps",
        statement="Derived quantities are computed at every n-th step (and their file written at every requested interval, or at the end if none is requested), XDMF "
        "fields are written every n-th step or at the last one only, and text profiles at the requested times or every step / the last step; "
        "nothing is missing, duplicated or attributed to another time, in transient runs of any length and in steady runs.",
        over=["schedules", "configurations"],
        quant="all run lengths up to a bound x kinds of stepping (with milestones, rejected attempts) x all combinations of intervals",
        why="Tests export every step or only once; off-by-one effects depend on run length modulo the interval and on rejected attempts.",
        files=[SIM, EXP + "/exports.py", EXP + "/xdmf_export.py", EXP + "/txt_export.py",
               EXP + "/derived_quantities/derived_quantities.py"],
        mech=[("Exports.write", EXP + "/exports.py"), ("is_export / is_compute / is_last", EXP)],
        observe=["files", "data attributes of the quantities"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C06",
        title="A re-initialised model behaves as a new one",
        statement="Initialising and running a model again, after any history of completed, interrupted or failed runs and after changing any of its "
        "parameters in between, gives the same time steps, fields, derived quantities and files as a new model built with the final parameters.",
        over=["histories"],
        quant="all histories over {run, failed run, interrupted run, initialise} and parameter changes up to a length",
        why="Tests build a model, run it once and drop it; what survives in the objects between runs is a question about histories.",
        files=[SIM, HTP, STEP, EXP, "festim/meshing/mesh.py", HEAT],
        mech=[("Simulation.initialise", SIM), ("Exports.initialise_exports / Stepsize.initialise_value", EXP)],
        observe=["times, fields, quantities and files of the last run"],
        technique="exhaustive enumeration of operation histories on the real code, compared to a fresh instance", note=NOTE_ENUM,
    ),
    dict(
        id="C07",
        title="Time-dependent inputs act with their value at the time of the step",
        statement="Each step from t to t+dt uses the temperature, boundary conditions, sources and trap parameters evaluated at t+dt and the "
        "temperature of the previous step at t, however the stepsize evolved and however many attempts were needed; initial conditions and steady "
        "simulations use t=0.",
        over=["schedules", "inputs"],
        quant="every documented time-dependent input, one at a time, x all listed schedules of the time stepping",
        why="Tests compare final fields at coarse tolerances, mostly with constant inputs or constant stepsizes.",
        files=[SIM, HTP, "festim/temperature/temperature.py", "festim/concentration/traps", BC, "festim/sources"],
        mech=[("update of expressions at each step", HTP), ("Temperature.update_functions", "festim/temperature/temperature.py")],
        observe=["residual of the discrete equations at each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C08",
        title="Every step satisfies the documented hydrogen transport equations",
        statement="Every accepted step (backward Euler) and every steady solution satisfies the documented balance of mobile and trapped hydrogen "
        "(diffusion with the Arrhenius diffusivity at the local temperature, Soret effect, trapping and detrapping, sources, fluxes) in "
        "Cartesian, cylindrical and spherical coordinates, so that no hydrogen is created or lost; this holds in every combination of features.",
        over=["configurations", "inputs"],
        quant="all combinations of coordinates x materials x traps x Soret x steady/transient x dimensions within the bounds",
        why="The MMS tests cover single combinations of features; a term lost only in one combination (e.g. Soret in spherical coordinates with "
        "several materials) passes them.",
        files=["festim/concentration/mobile.py", "festim/concentration/traps/trap.py", HTP, "festim/materials/material.py"],
        mech=[("create_diffusion_form", "festim/concentration/mobile.py"), ("create_trapping_form", "festim/concentration/traps/trap.py")],
        observe=["mobile and trapped concentrations after each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C09",
        title="Materials and surfaces are where they were declared",
        statement="Every cell gets the properties, traps and sources of the material whose declared borders (or volume marker) contain it, and "
        "every surface id designates the declared surface, for any number and order of materials, borders and ids, with meshes built from vertices, "
        "from ready meshes or read from files; layouts that leave gaps, overlap or go beyond the mesh are rejected.",
        over=["configurations", "inputs"],
        quant="all layouts of an interval in up to 4 segments shared by up to 3 materials, and variations of order, ids, mesh and scale",
        why="Tests use one- or two-material layouts in their natural order.",
        files=["festim/meshing", "festim/materials"],
        mech=[("define_markers", "festim/meshing/mesh_1d.py"), ("check_borders, find_material", "festim/materials/materials.py")],
        observe=["diffusivity and solution in each cell", "exceptions of initialise()"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C10",
        title="Boundary conditions impose their formula on exactly the named surfaces",
        statement="Each kind of boundary condition imposes its documented value or flux, evaluated with the local temperature, concentration, time and "
        "parameters, on each of the surfaces it names and on no other; conditions on the same surface superpose (fluxes) and do not disturb each other, "
        "with and without conservation of chemical potential.",
        over=["configurations", "inputs"],
        quant="all kinds x all sets of surfaces (interval, rectangle) x pairs of conditions",
        why="Tests exercise each condition alone on one surface in one model.",
        files=[BC, HTP],
        mech=[("create_dirichletbcs", BC + "/dirichlets/dirichlet_bc.py"), ("create_form_flux", BC + "/fluxes/flux_bc.py"),
              ("create_dirichlet_bcs / create_fluxes_forms", HTP)],
        observe=["fields on the surfaces, residual of the discrete equations"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C11",
        title="A field is the same field wherever and however it is named",
        statement="The mobile field (0, \"0\", \"solute\"), each trap (its id as integer or string, given or automatic), \"T\" and \"retention\" designate the "
        "same field in initial conditions, sources, boundary conditions and every kind of export, whatever the ids of the traps and their order, "
        "and exported files hold the values of exactly that field.",
        over=["configurations", "inputs"],
        quant="all schemes of trap ids (given, automatic, not in order) x all places where a field is named x all its names",
        why="Tests use traps numbered 1, 2 in order, where ids and positions coincide.",
        files=[HTP, "festim/concentration/traps/traps.py", SIM, EXP, "festim/initial_condition.py"],
        mech=[("Traps.assign_traps_ids / get_trap", "festim/concentration/traps/traps.py"), ("label_to_function", SIM)],
        observe=["fields after each step", "exported values and files"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C12",
        title="Derived quantities are what they are documented to be",
        statement="Every derived quantity (totals, averages, extrema, values at a point, surface and thermal fluxes, in Cartesian, cylindrical and "
        "spherical coordinates) is at every recorded time the documented integral, mean, extremum or flux of the named field over the named volume or "
        "surface, computed from the fields of that same step, and is stored with the time, title and unit that belong to it; filter() finds exactly the quantities that meet all its criteria.",
        over=["configurations", "inputs", "histories"],
        quant="every kind of quantity x every field and name x every volume and surface x coordinates x materials x physics options x every step",
        why="Tests check each quantity on one prescribed field on one mesh; the dependence on Soret, on discontinuous fields, on subdomains and on "
        "time needs whole runs of combinations.",
        files=[EXP + "/derived_quantities"],
        mech=[("compute of each quantity", EXP + "/derived_quantities"), ("assign_properties_to_quantities", EXP + "/derived_quantities/derived_quantities.py")],
        observe=["t and data of each quantity", "the table of derived quantities"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C13",
        title="Every computed temperature satisfies the documented heat equation",
        statement="A temperature computed by a heat transfer problem satisfies, at t=0 or at each step, the documented (steady or transient) heat equation with the "
        "conductivity, heat capacity and density of each material, the declared heat sources, fluxes, convective and prescribed conditions and the "
        "initial temperature (value, expression or file), and the hydrogen transport of the same step uses exactly this temperature.",
        over=["configurations", "inputs"],
        quant="coordinates x materials x property laws x steady/transient heat x steady/transient hydrogen; all pairs of thermal conditions; all sets of volumes",
        why="Tests solve one steady and one transient heat problem on one material.",
        files=["festim/temperature", HTP],
        mech=[("define_variational_problem", HEAT), ("Temperature.update_functions", "festim/temperature/temperature.py")],
        observe=["temperature and concentrations after each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C14",
        title="Chemical potential is continuous and hydrogen conserved across interfaces",
        statement="With conservation of chemical potential, the ratio of the concentration to the solubility (Sieverts) or the square root of it (Henry) is continuous across every "
        "interface at every step, whatever the materials, their solubility laws and the temperature; the reported concentration is the solubility times this "
        "potential (or its square) in each material, and the transport equations hold for that concentration with no hydrogen created or lost.",
        over=["configurations", "inputs"],
        quant="all assignments of solubility laws to up to 3 materials x kinds of temperature x steady/transient x coordinates x conditions, Soret, traps",
        why="Tests use one pair of materials at a uniform temperature.",
        files=["festim/concentration/theta.py", "festim/concentration/mobile.py", HTP, "festim/materials"],
        mech=[("Theta, get_concentration_for_a_given_material", "festim/concentration/theta.py"), ("solubility functions", "festim/materials/materials.py")],
        observe=["potential and reported concentration after each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C15",
        title="Contradictory models are rejected before any step, valid ones are not",
        statement="A model that contradicts itself or cannot be honoured (two exclusive conditions on a surface, a source, trap or condition on an "
        "unknown field, material or volume, a missing temperature, stepsize, final time or material property, inconsistent borders, a wrong element or "
        "coordinate system, an export of an unknown field) raises an error at the latest when it is initialised (unknown exported fields: when run), whatever "
        "the place and order in which the contradiction is written; a model without contradiction is accepted.",
        over=["configurations", "inputs"],
        quant="every fault of a catalogue at every place of models of each part of the physics; all pairs of kinds of conditions x surfaces x orders",
        why="Tests check each error message on one model, with the fault at one place; whether a conflict is noticed depends on order, naming and on the rest of the model.",
        files=[SIM, HTP, BC, "festim/materials", "festim/settings.py", EXP],
        mech=[("Simulation.initialise and attribute setters", SIM), ("checks of materials", "festim/materials/materials.py")],
        observe=["exceptions of constructors, setters, initialise() and run()"],
        technique=ENUM,
        note="Every fault of the catalogue at every place (and every valid neighbour) is built and initialised with the real code; the oracle is the catalogue itself. "
        "Exhaustive only over the catalogue.",
    ),
    dict(
        id="C16",
        title="A run restarted from any exported step continues as the uninterrupted one",
        statement="If all fields of a simulation with time-independent inputs are exported with checkpoints, a simulation started from the fields of any exported step "
        "(given by position from either end of the file) gives at every later step the fields of the uninterrupted simulation, whatever the traps, "
        "their ids, element types, materials, coordinates and physics options.",
        over=["histories", "crash_points", "configurations"],
        quant="every step of the run of each model as the point of interruption x names of the fields",
        why="Tests read one field of one file; the round trip through the files at every step, with several fields in one space, is never run.",
        files=["festim/initial_condition.py", HTP, EXP + "/xdmf_export.py", "festim/concentration"],
        mech=[("read of XDMF checkpoints", "festim/concentration/concentration.py"), ("initialise_concentrations", HTP), ("write of checkpoints", EXP + "/xdmf_export.py")],
        observe=["all fields after each step of the restarted run"],
        technique="exhaustive enumeration of the interruption points of real runs; differential against the uninterrupted run",
        note="Every interruption point of every model of a list is executed on the real code through real files. Populations that cannot be exported with a checkpoint (adsorbed, "
        "extrinsic densities) are not claimed.",
    ),
    dict(
        id="C17",
        title="Surface kinetics exchange hydrogen as documented on every surface",
        statement="On every surface with surface kinetics the adsorbed concentration follows, step by step from its initial value, the documented balance of absorption, desorption and impinging "
        "flux, the bulk receives exactly what the surface gives (including the subsurface accumulation term), each coefficient being evaluated with the local temperature, adsorbed "
        "and mobile concentrations and parameters of that step; surfaces do not affect each other.",
        over=["configurations", "inputs", "histories"],
        quant="kinds of dependence of each coefficient x sets and orders of surfaces x coordinates x materials x traps x temperature x other conditions",
        why="Tests use one condition on one surface with one set of coefficients.",
        files=[BC + "/fluxes/surface_kinetics.py", HTP],
        mech=[("create_form", BC + "/fluxes/surface_kinetics.py"), ("adsorbed fields in the function space", HTP)],
        observe=["adsorbed and mobile concentrations after each step", "AdsorbedHydrogen"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C18",
        title="Every trap acts with its own parameters, in its own materials only",
        statement="Each trap captures and releases hydrogen with the rates and density declared for it (per material when lists are given, by name or by object), in exactly the "
        "materials it names and nowhere else; densities that evolve (extrinsic, neutron-induced) follow their documented law at every step from their initial value, whatever the other traps.",
        over=["configurations", "inputs", "histories"],
        quant="all sets of up to 3 materials and 4 subdomains x parameter lists x orders x steady/transient; all parameters of evolving densities as functions of space/time x schedules",
        why="Tests use one or two traps in one or two materials with constant parameters.",
        files=["festim/concentration/traps", HTP],
        mech=[("create_trapping_form", "festim/concentration/traps/trap.py"), ("evolving densities", "festim/concentration/traps")],
        observe=["trapped concentrations and densities after each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C19",
        title="Volumetric sources add exactly their value where they are declared",
        statement="Each source adds its value, at the time of the step, to the named field in the named volumes and nowhere else; sources superpose; radioactive decay removes its share of every "
        "population it names (or all), an implantation flux adds the documented distribution; in every coordinate system, steady or transient, with and without conservation of chemical potential.",
        over=["configurations", "inputs"],
        quant="all sets of volumes x fields x forms of the value; all pairs of kinds of sources",
        why="Tests use one source in one volume.",
        files=["festim/sources", HTP, HEAT],
        mech=[("create_source_form", "festim/concentration/mobile.py"), ("RadioactiveDecay.form", "festim/sources/radioactive_decay.py")],
        observe=["residual of the discrete equations after each step"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C20",
        title="Exported files hold the exported fields at their positions and times",
        statement="Text, XDMF (with or without checkpoint) and table files hold, for every exported step, exactly the values of the named field at the sorted vertices of the mesh (both values at "
        "interfaces of discontinuous fields, and elsewhere too if not filtered), under the documented header, label, file name and folder; trap-density files hold the density of each trap, of every kind, in its materials at that time; the "
        "helpers that list times and labels of a file return them.",
        over=["configurations", "inputs", "histories"],
        quant="materials and orders of declaration x traps x element types x chemical potential x orders of the vertices x coordinates, every field, name, kind of file and option in each",
        why="Tests write one file of one model on a sorted mesh and read little of it back.",
        files=[EXP, "festim/helpers.py", SIM],
        mech=[("TXTExport.initialise / write", EXP + "/txt_export.py"), ("XDMFExport.write", EXP + "/xdmf_export.py"), ("TrapDensityXDMF.write", EXP + "/trap_density_xdmf.py")],
        observe=["contents of the written files"],
        technique=ENUM, note=NOTE_ENUM,
    ),
    dict(
        id="C21",
        title="Equivalent ways of writing a model give the same results",
        statement="The results do not depend on which documented form is used to write a part of a model (scalar or list, object or name, list or festim container, number, sympy or FEniCS expression, constructor arguments or "
        "attributes, one object on several places or several objects) nor on the order in which materials, traps, conditions, sources, initial conditions and quantities are listed.",
        over=["configurations", "inputs"],
        quant="all ways of writing every part of a hydrogen and of a coupled heat model, all pairs of ways, all orders of every list",
        why="Each test uses one way of writing its model.",
        files=[SIM, HTP, "festim/materials", "festim/concentration/traps", "festim/sources", BC, "festim/helpers.py", "festim/temperature"],
        mech=[("attribute setters", SIM), ("conversions of values", "festim/helpers.py")],
        observe=["all fields and quantities at each step"],
        technique="exhaustive enumeration of equivalent programs on the real code; differential between executions", note="Every way of writing (and pair of ways) of a catalogue is executed; the reference "
        "is the first way of writing, whose results other properties decide.",
    ),
    dict(
        id="C22",
        title="Numerical options do not change what is computed and are honoured",
        statement="Linear solvers, preconditioners, custom Newton solvers, the update of the Jacobian and the log level do not change the results beyond the tolerances; a step is accepted exactly if the residual met the declared absolute or "
        "relative tolerance within the declared number of iterations, for the hydrogen, heat and extrinsic-trap problems.",
        over=["configurations", "schedules"],
        quant="models of every part of the physics x solvers x preconditioners x options; grids of tolerances x numbers of iterations, every attempt",
        why="Tests check that an option is stored, not what runs do with it.",
        files=[HTP, "festim/settings.py", HEAT, "festim/concentration/traps/extrinsic_trap.py", "festim/nonlinear_problem.py"],
        mech=[("define_newton_solver", HTP), ("solve_once", HTP)],
        observe=["fields at each step", "residual before and after every attempt, exceptions"],
        technique=ENUM, note="Every option and every combination of the grid of tolerances is executed on the real code; results are compared with those of the default options, and the residual of every attempt with the declared tolerances.",
    ),
    dict(
        id="C23",
        title="Simulations in one process do not influence each other",
        statement="The steps and results of a simulation are those it has alone, whatever other simulations are built, initialised or run before, in between or during its run, and also if it follows a finished simulation with which it shares "
        "its mesh, materials, traps, temperature, conditions, sources, initial conditions, stepsize, settings or quantities.",
        over=["histories", "schedules"],
        quant="all interleavings of the operations of two simulations of different models, operations nested in every step; all single parts and pairs of parts shared",
        why="Tests run one simulation per process state; parametric studies run hundreds.",
        files=[SIM, HTP, "festim/concentration", EXP, BC],
        mech=[("Simulation.__init__", SIM), ("initialise of each object", SIM)],
        observe=["times and all fields of every step of both simulations"],
        technique="exhaustive enumeration of interleavings of operations on the real code, compared to isolated runs",
        note="All interleavings of the operations and all choices of shared parts are executed on the real code; the reference is a run alone.",
    ),
]

NOT_APPLICABLE = []
