"""Writes properties.jsonl and MANIFEST.json from one table (run by hand: python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/rkopenmdao/"
RKI = S + "runge_kutta_integrator.py"
SCH = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
STA = S + "time_discretization/runge_kutta_discretization_state.py"
ODE = S + "discretized_ode/openmdao_ode.py"
MET = S + "metadata_extractor.py"
CTL = S + "error_controller.py"
CTS = S + "error_controllers.py"
PYR = S + "checkpoint_interface/pyrevolve_checkpointer.py"
PYC = S + "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"
ALLC = S + "checkpoint_interface/all_checkpointer.py"
NOC = S + "checkpoint_interface/no_checkpointer.py"
FW = S + "file_writer.py"
CB = S + "callback.py"
TERM = S + "termination_criterion.py"
TIS = S + "time_integration_state.py"
TAB = S + "butcher_tableau.py"
TABS = S + "butcher_tableaux.py"
MEAS = S + "error_measurer.py"
UT = S + "utils/utility_components.py"
PB = S + "utils/problems.py"


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, observe=observe, tech=tech, note=note))


prop("C01", "One step reproduces the Runge-Kutta definition for every ERK/DIRK tableau",
     "For any ODE right-hand side, start point, parameters, step size and explicit or diagonally implicit tableau, one time step "
     "evaluates every stage at t+c_i*h with the state built from the tableau's row, and yields time t+h and state y+h*sum(b_i k_i); "
     "with an embedded tableau it also yields the embedded solution and their difference as error estimate. "
     "Successive steps continue from the previous step's result with their own step size, and the tableau is left unchanged.",
     ["inputs", "configurations"], "all right-hand sides (time dependent, multi-quantity, parametrised, implicit), all tableaux with zero upper "
     "triangle, all step sizes and chains of steps",
     "The tests compare a few scalar ODEs with a few shipped tableaux against hand-written numbers; they do not sample random tableaux, "
     "quantities without own history, mixed explicit/implicit stages or varying step sizes.",
     [SCH, STA, ODE], mech(("stage loop", SCH), ("embedded step", SCH)),
     ["states returned by the scheme's step function", "requests the scheme makes to the ODE"],
     "online monitor comparing each recorded step with an independent reference Runge-Kutta step",
     "Exploration: every observed step of thousands of random ODE/tableau/step-size combinations is compared with an independent reference to ~1e-10.")

prop("C02", "Integration outputs are the composition of the scheme's steps",
     "Running the integrator yields exactly the state and time obtained by applying the scheme's step the configured number of times "
     "from the given initial time, initial values and parameters, for every stage problem layout, quantity selection and shape. "
     "Inputs that are not set take the values the stage problem declares. The trajectory seen by observers is that same sequence, and inputs are left unchanged.",
     ["inputs", "configurations"], "all stage-problem architectures, quantity/parameter sets, listing orders, shapes, step counts and checkpointing choices",
     "Tests use single quantity problems or fixed two quantity layouts, always with one order and few steps.",
     [RKI, ODE, MET, ALLC, NOC, PYR], mech(("step loop", RKI), ("vector mapping", ODE)),
     ["component outputs", "callback event log"],
     "trace monitor: recorded trajectory against reference recurrence",
     "Exploration over random stage problems; the whole recorded trajectory is compared with a reference recurrence.")

prop("C03", "Forward derivatives are the exact tangent of the discrete integration",
     "Forward-mode Jacobian-vector products of the integrator equal the derivative of the discrete time integration (accepted step sizes held "
     "fixed) with respect to initial time, initial values and parameters, for every seed, tableau, stage-problem layout, and for fixed and "
     "adaptive step sizes. Outputs and inputs are not altered by computing them.",
     ["inputs", "configurations"], "all seeds, linearization points, tableaux, layouts, step counts, adaptive or not",
     "Tests check derivatives with finite differences on small problems with loose tolerances and few seeds; time derivatives and mixed "
     "seeds are barely touched.",
     [RKI, SCH, ODE], mech(("forward loop", RKI), ("step tangent", SCH), ("stage tangent", ODE)),
     ["jacobian-vector products through the public OpenMDAO API", "step tangents of the scheme"],
     "oracle on recorded products: independently assembled dense Jacobian of the recorded step sequence",
     "Exploration; every observed product is compared with an exact (analytic) discrete tangent to ~1e-7 relative.")

prop("C04", "Reverse derivatives are the exact transpose of the discrete tangent",
     "Reverse-mode products of the integrator equal the transpose of the derivative of the discrete time integration for every seed, tableau, layout, "
     "checkpointing choice, and for fixed and adaptive step sizes, including the parts belonging to initial time and parameters. "
     "Reverse and forward products satisfy <w, J v> = <J^T w, v>, and outputs are not altered by computing them.",
     ["inputs", "configurations"], "all seeds, linearization points, tableaux, layouts, checkpointing choices, adaptive or not",
     "Tests use small problems, few seeds and one or two checkpoint settings with finite-difference tolerances.",
     [RKI, SCH, ODE, ALLC, PYR], mech(("reverse loop", RKI), ("step adjoint", SCH), ("stage adjoint", ODE)),
     ["vector-jacobian products through the public OpenMDAO API", "step adjoints of the scheme"],
     "oracle on recorded products: dense reference Jacobian transpose and duality monitor",
     "Exploration; every observed product is compared with the transpose of an exact discrete Jacobian and with the code's own forward product.")

prop("C05", "Checkpointing strategy and budget never change results",
     "For every checkpointing strategy that supports reverse mode, every number of checkpoints and every number of steps, forward results and "
     "reverse-mode derivatives are identical to storing all steps, also when reverse products are requested repeatedly. "
     "Without checkpointing forward runs give the same results while reverse mode is refused with an explicit error, and "
     "invalid strategy settings are refused with an explicit error instead of producing derivatives.",
     ["configurations", "histories"], "strategies x checkpoint counts x step counts x repetitions",
     "Tests use a handful of step counts (10 or so) and one checkpoint budget per strategy.",
     [ALLC, NOC, PYR, PYC, RKI], mech(("revolver schedule", PYR), ("checkpoint load/save", PYC), ("store all", ALLC)),
     ["outputs and vector-jacobian products", "callback event log of recomputed steps"],
     "differential runtime monitor between checkpointing strategies over the (strategy, budget, steps) grid",
     "Exploration of the (strategy, checkpoints, steps) grid up to 40 steps; single-process, Revolve's multi-level strategy excluded.")

prop("C06", "Results depend only on current inputs, not on call history or earlier failures",
     "Whatever sequence of runs and forward or reverse derivative requests with whatever inputs came before - including ones that "
     "failed midway in the user's model - the results of the next run or derivative request equal those of a freshly built integrator "
     "with the same inputs.",
     ["histories", "fault_sequences", "crash_points"], "all finite sequences of compute/forward/reverse calls with changed inputs, with a stage failure injected at any point",
     "Tests run a problem once, then derivatives once, at one set of inputs; no failures are injected.",
     [RKI, ALLC, PYR, PYC, CTL, ODE], mech(("checkpoint validity", RKI), ("controller reset", CTL)),
     ["outputs and products of each operation in the history"],
     "history monitor: random operation sequences with injected faults, each operation checked against a reference computed from its inputs alone",
     "Exploration of random histories (length up to ~14) with injected failures in the user's stage model.")

prop("C07", "Adaptive stepping accepts a step only if it meets the error tolerance",
     "In adaptive integrations a step becomes part of the trajectory only if its error measure does not exceed the tolerance or the step already is "
     "at the lower step size bound; a step that meets the tolerance is never repeated, and a rejected attempt leaves no trace in the "
     "trajectory, the histories or the result and is retried from the same point with the newly suggested step size.",
     ["inputs", "configurations", "histories"], "all problems, tolerances, controllers, bounds and attempt sequences",
     "Tests only look at final accuracy for a few problems and controller settings.",
     [RKI, CTL], mech(("accept/retry recursion", RKI), ("acceptance test", CTL)),
     ["attempt log from a recording controller and error measurer", "callback event log"],
     "online trace checker over attempts recorded by a delegating controller/measurer",
     "Exploration; every attempt of every adaptive run is checked against the acceptance rule and the reference step.")

prop("C08", "Adaptive step sizes respect bounds and adaptive runs end exactly at the end time",
     "Every step size suggested in an adaptive integration lies between the configured lower and upper bound except where cut to the time that remains; "
     "integrations with a final time reach exactly that time without stepping over it, and time increases strictly. "
     "Integrations with acceptable errors end after finitely many attempts.",
     ["inputs", "configurations"], "all bounds, tolerances, initial step sizes (also larger than the interval), final times and start times",
     "Tests use fixed bounds that are rarely active and generous initial step sizes.",
     [RKI, CTL, TERM], mech(("clamping", CTL), ("remaining time", TERM)),
     ["step sizes of attempts and accepted steps", "final time"],
     "online trace checker over recorded step sizes and times",
     "Exploration; controllers are also driven directly with extreme error/bound values.")

prop("C09", "Step size controllers follow their published control law",
     "Each shipped controller suggests the step size given by its documented digital-filter law - safety factor, exponents divided by the order of the "
     "controlled method, powers of current and previous error-to-tolerance ratios and of previous step-size ratios - with the coefficients of the literature "
     "it names. The histories it is fed hold the most recent accepted errors and step sizes, newest first.",
     ["inputs", "configurations", "histories"], "all controllers, orders, error and step-size histories, tolerances and safety factors",
     "Tests check a few numeric values per controller; coefficients are copied from the code.",
     [CTL, CTS, RKI], mech(("estimate", CTL), ("coefficient factories", CTS), ("rolling histories", RKI)),
     ["suggestions returned by the controllers", "histories passed to the controllers in real runs"],
     "oracle on recorded controller calls: independent filter formula with coefficients derived from literature conditions",
     "Exploration; coefficients are checked against deadbeat/filter order conditions and published tables.")

prop("C10", "Chained error controllers hand over exactly as configured",
     "In a chain of error controllers each wrapping (later listed) controller lets the chain it wraps decide; it takes over when that chain suggests no smaller step for a "
     "rejected one or was rejected more often in a row than the configured retry limit, and keeps control until a step is accepted. The last one raises an explicit error when its own suggestion is not smaller. "
     "Acceptance of a step and the start of a new integration give control back to the first controller and clear all counts.",
     ["inputs", "histories", "configurations"], "all chain lengths, iteration limits and success/failure sequences",
     "Tests drive a single two-controller chain with a constant error.",
     [CTL, CTS, RKI], mech(("inner/outer delegation", CTL)),
     ["acceptance/suggestion sequence of controller chains"],
     "reference automaton run in lock-step with the real controller chain",
     "Exploration of random accept/fail sequences over random chains.")

prop("C11", "Integrations terminate exactly when their termination criterion says so",
     "A run with a predefined number of steps makes exactly that many accepted steps; a run with a predefined final time stops at the first step at which the "
     "time has reached it, for fixed steps within one step size of it, for adaptive runs exactly on it; a user-defined criterion is "
     "asked with the number of completed steps and the current state before each step. Degenerate requests (zero steps, end time not after start) make no step and return the initial values.",
     ["inputs", "configurations"], "all step counts, start/final times, step sizes incl. non-divisors, and user-defined criteria",
     "Tests use step sizes dividing the interval and small counts.",
     [TERM, RKI, ALLC, NOC, PYR], mech(("criteria", TERM), ("loops", RKI)),
     ["number of steps", "final time", "calls into a recording criterion"],
     "trace monitor on the step loop with a recording termination criterion",
     "Exploration over random counts, times and criteria.")

prop("C12", "Callbacks see every step exactly once, in order, with the right state",
     "In runs and forward-mode products every callback is called once before and once after each accepted step, in list order, numbered 1..N, with the state at the "
     "step's begin and end; in reverse-mode products the reverse callbacks see the steps N..1 once each with the step being reversed. "
     "Shipped logging and timing callbacks never change results.",
     ["histories", "configurations"], "all run kinds, step counts, checkpointing strategies, callback lists, adaptive or not",
     "Tests only count calls for one configuration.",
     [RKI, CB, ALLC, NOC, PYR, PYC], mech(("callback invocation", RKI), ("operator numbering", PYC)),
     ["event log of recording callbacks"],
     "offline trace-specification checker over callback event logs",
     "Exploration; event logs of all run kinds are checked against the protocol.")

prop("C13", "Written HDF5 results equal the integration and can be read back",
     "A run with file output leaves a file containing, for every integrated quantity and every written step (the initial state as step 0 and every interval-th step), exactly the "
     "values, times and - for embedded tableaux - error measures (0 initially) of that step, in the quantity's shape and whatever the number of quantities, layout and checkpointing. "
     "The shipped readers return exactly that data, and errors with respect to a given solution are computed from it.",
     ["inputs", "configurations", "histories"], "all quantities, shapes, write intervals, step counts, repeated runs into the same file, recomputation by checkpointing",
     "Tests write a single fixed problem and compare some entries.",
     [FW, CB, RKI], mech(("writer", FW), ("reader", FW)),
     ["the HDF5 file", "reader results"],
     "post-run file auditor comparing file content with the recorded trajectory",
     "Exploration; every file is read by independent h5py code and the shipped readers.")

prop("C14", "Shipped tableaux satisfy the order and structure they claim",
     "Every shipped tableau fulfils all order conditions up to its declared order (and the embedded weights up to theirs) and no more, is consistent, and reports stage count, explicit/implicit "
     "class, embedded property and other structural flags truthfully; this also holds for any user-defined tableau. "
     "Definitions with mismatching dimensions are refused; weights that do not sum to one and row sums that do not match the time stages are reported by a warning.",
     ["inputs", "configurations"], "all shipped tableaux, all user tableaux",
     "Tests check a few flags; order is only checked through one convergence test per scheme at loose slopes.",
     [TAB, TABS], mech(("classification", TAB), ("coefficients", TABS)),
     ["tableau attributes", "measured convergence order"],
     "runtime evaluation of rooted-tree order conditions on the live tableau objects, plus observed convergence orders",
     "All shipped tableaux completely; user tableaux by random exploration.")

prop("C15", "Ill-posed setups are refused at setup, well-posed ones are accepted",
     "Stage problems whose tags do not describe each requested quantity completely and unambiguously (absent quantity or parameter, missing or duplicate stage output, step input or accumulated stage input, "
     "variables with two roles or two quantities, inputs whose size does not match the stage output, duplicate parameter, several or non-scalar time variables) and ill-posed options (fully implicit tableau, adaptive "
     "stepping without embedded tableau, unknown or unsuitable checkpointing, wrong option types) are refused with an explicit error at setup, before anything is integrated, and every well-posed combination is accepted.",
     ["inputs", "configurations"], "all tag layouts and option combinations",
     "Tests enumerate a few malformed problems.",
     [MET, RKI, CTL, S + "errors.py"], mech(("tag validation", MET), ("option validation", RKI)),
     ["exception type at setup"],
     "fault-injection monitor: mutated setups must be refused loudly, unmutated ones accepted",
     "Exploration over random valid setups with one injected defect each.")

prop("C16", "Parallel runs give the same results on every rank and as in serial",
     "With MPI - stage problems containing distributed or rank-duplicated variables, or parallel groups - every rank takes the same sequence of steps, "
     "and the gathered results, forward and reverse derivatives and norms equal those of the mathematically same serial integration; no rank hangs.",
     ["schedules", "configurations", "inputs"], "rank counts, distributions of variables over ranks (also empty ranks), timing of ranks",
     "Parallel tests in the repository need mpirun and cover one layout with fixed numbers.",
     [RKI, ODE, MET, MEAS, FW], mech(("global sizes and offsets", MET), ("collective norms", ODE)),
     ["per-rank results gathered by the monitor"],
     "rank-divergence monitor: per-rank event logs of mpirun executions compared with each other and a serial reference, with injected rank delays",
     "Exploration with 1-4 ranks on one machine, random layouts and injected delays.")

prop("C17", "Error measures and norms equal their definition",
     "The norm of a state is the order-p vector norm over all integrated quantities (all ranks' shares included, duplicates counted once) for every order including zero and both infinities, "
     "leaving out quantities excluded by the user and honouring user-defined ODE norms; the shipped measurers return norm(error) and norm(error)/(norm(state)+eta/eps) respectively. "
     "They are non-negative, zero for zero error, and independent of quantity order and layout.",
     ["inputs", "configurations"], "all states, norm orders, quantity layouts and tolerances",
     "Tests use the default norm order on small vectors.",
     [MEAS, ODE], mech(("measurers", MEAS), ("state norm", ODE)),
     ["values returned by measurers and norms"],
     "value oracle on recorded calls, direct and inside real adaptive runs",
     "Exploration, serial here; distributed shares are covered by C16.")

prop("C18", "State copies and serialization are complete and independent",
     "Setting a state from another, deep copying or pickling it, and importing a copy of its exported dictionary transfer every field exactly - times, states, stages, parameters, "
     "linearization data, error estimates, histories - and later changes of either side never affect the other. Setting a state keeps the target's arrays in place; the exported dictionary gives access to the live arrays, so that writing into it restores the state.",
     ["histories", "inputs"], "all state kinds (embedded or not), sizes and operation sequences",
     "Tests set one state and compare some fields.",
     [STA, TIS], mech(("set/to_dict/from_dict", STA), ("set/to_dict/from_dict", TIS)),
     ["fields of state objects after operations"],
     "shadow-state monitor over random operation sequences",
     "Exploration of random operation sequences against a shadow copy.")

prop("C19", "Shipped ODE models and helper components are mathematically right",
     "The shipped ODE problems and helper components compute the residuals, values and analytic solutions they document, their partial derivatives and linear solves (forward and transposed) agree "
     "with each other and with those values at every point, step size and stage factor, and their analytic solutions solve their ODE from any start (for Kaps' problem: any start with y1 = y2^2). "
     "Running a shipped problem writes its solution to the promised file and derives its tolerance from such files.",
     ["inputs"], "all points, parameters, step sizes, stage factors, both modes",
     "Tests check partials at a default point; transposed solves and analytic solutions for other starts are not covered.",
     [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py", UT, PB, S + "components.py"],
     mech(("components", S + "odes"), ("stage value helper", UT), ("problems", PB)),
     ["component outputs, residuals, partials, linear solves"],
     "numerical oracle on recorded component calls: closed forms, complex-free high-order differences and duality",
     "Exploration over random points, step sizes and stage factors.")

prop("C20", "Integrators do not interfere with each other or with caller-owned objects",
     "Any number of integrators - also sharing tableaux, controllers' configurations, callbacks, option dictionaries or built from the same code - "
     "give the same results as each alone in any interleaving of their operations, and objects passed in by the caller (options, tableau, configuration, input arrays) are never modified.",
     ["histories", "schedules"], "all interleavings of operations of several integrators, sharing of option objects",
     "Tests always use one integrator per process.",
     [RKI, CTL, PYR, PYC, S + "om_data_exchange.py", ODE], mech(("copy of options", RKI), ("data exchange per problem", ODE)),
     ["outputs of interleaved integrators", "snapshots of caller objects"],
     "interleaving stress with snapshot monitor on caller-owned objects",
     "Exploration of random interleavings of 2-4 integrators.")

prop("C21", "The stage problem is driven through exactly its tagged variables",
     "Each stage evaluation sets precisely the tagged time, step-start, accumulated-stage and parameter variables of the user's stage problem (wherever they live, fed one to one by their sources) to the documented values, passes step size and "
     "stage factor to its components, and reads the tagged outputs; derivatives linearize the stage problem at exactly the point where that stage was computed, whatever was evaluated in between.",
     ["inputs", "histories", "configurations"], "all stage problem layouts, evaluation/linearization orders, untagged variables and earlier non-finite or stale values",
     "Tests check values for one layout with evaluation directly followed by derivative.",
     [ODE, MET, S + "om_data_exchange.py", S + "components.py"], mech(("cache and restore of the linearization point", ODE)),
     ["values seen inside the user's components", "results returned by the ODE"],
     "recording components inside the stage problem plus value oracle; interleaved evaluation/linearization histories",
     "Exploration of random layouts and interleaved histories.")

prop("C22", "Integrators work as components of larger models",
     "Total derivatives of any OpenMDAO model containing integrators - in series, in cycles, several in parallel, in nested groups, any linear solver, any subset of responses and design variables, forward or reverse - "
     "equal the derivatives of the composed discrete functions, and linear operators behave additively.",
     ["programs", "configurations", "inputs"], "all model compositions, solvers, subsets of derivatives and modes",
     "Tests use the integrator alone or in one fixed chain.",
     [RKI], mech(("jacobian-vector product accumulation", RKI)),
     ["total derivatives of composed models"],
     "composition oracle: totals of random models against chain rule on reference Jacobians",
     "Exploration of random compositions.")

prop("C23", "Discretization schemes serve any implementation of the ODE interface",
     "For any user-defined discretized ODE the schemes request every stage with its own inputs, step size and stage factor, keep each stage's update, state, independent output and linearization data exactly as "
     "returned - whatever the ODE later does with the arrays it returned - and pass each stage's own linearization data back for derivatives. Tangents and adjoints of starting, step and finalization operations over any chain of steps "
     "are the exact derivative and its transpose, states may be kept by copy, pickling or dictionary in between, and neither primal states nor seeds handed in are altered.",
     ["inputs", "programs", "configurations", "histories"], "all ODE implementations (sizes of linearization data and independent outputs, ownership of returned arrays), tableaux, chains of varying step sizes, interleavings of derivative products",
     "Tests use one or two hand-written ODE classes without independent outputs, a single step, and fresh arrays.",
     [SCH, STA, S + "discretized_ode/discretized_ode.py"], mech(("stage loops", SCH), ("starting and finalization schemes", SCH), ("state fields", STA)),
     ["requests received by a recording ODE", "states, tangents and adjoints returned by the schemes"],
     "online monitor inside a recording user ODE plus reference Jacobian and duality oracle on the scheme's products",
     "Exploration over random user ODEs and chains; independent outputs at the end of a step are not implemented by the library and not claimed.")

prop("C24", "Integrations converge to the exact solution at the order of the tableau",
     "For smooth problems the error of the integration's result, and of its forward and reverse derivatives, decreases with the step size at the tableau's declared order; the error estimate decreases at the order of the embedded method plus one; "
     "and adaptive integrations end with an error in proportion to the tolerance, for every shipped tableau and stage-problem layout.",
     ["inputs", "configurations"], "all smooth ODEs, shipped tableaux, layouts, step sizes and tolerances",
     "Convergence cannot be read off single runs compared with stored numbers; tests measure no orders of derivatives or estimates.",
     [SCH, TABS, RKI, ODE, CTL], mech(("tableau coefficients", TABS), ("step", SCH), ("derivative loops", RKI)),
     ["outputs and derivatives over sequences of step sizes or tolerances"],
     "oracle on recorded runs: exact flow and sensitivities from an independent integrator, observed orders",
     "Exploration; an order counts as missed only when three independent problems miss it by more than 0.4.")

prop("C25", "Work and memory stay within what the checkpointing strategy promises",
     "A run evaluates each stage of each attempted step once; a forward product needs at most one further sweep; a reverse product directly after a run needs none with all steps stored and at most the optimal number of repeated steps for its "
     "checkpoint budget otherwise, plus one sweep when checkpoints must be renewed. Memory and disk use do not grow with the number of steps beyond the strategy's budget, repeated runs and products retain nothing, and "
     "checkpoint files are gone when the integrator is.",
     ["configurations", "histories"], "strategies x budgets x step counts x sequences of operations",
     "Tests never look at work or memory; excess evaluations and leaks leave all results right.",
     [RKI, ALLC, NOC, PYR, PYC, SCH], mech(("storage", ALLC), ("revolver set up", PYR), ("validity of checkpoints", RKI)),
     ["number of stage evaluations per operation", "traced memory", "files in the working directory"],
     "resource monitor: evaluation counters, memory tracing and file sizes against budgets",
     "Exploration; memory in units of one complete state, with slack of a few units.")

prop("C26", "Equivalent formulations of a problem give equal results and derivatives",
     "Integrations of mathematically equivalent problems agree in results, accepted steps, and forward and reverse derivatives: other units of time, states and parameters; states split, ordered, shaped or named differently or in another basis; "
     "an independent system stacked alongside; a parameter as constant state; time as a state; a shifted clock; a tableau padded with unused stages or replaced by its composition over several steps; superposition for affine problems. "
     "In adaptive runs also the sequence of attempted step sizes agrees.",
     ["inputs", "configurations"], "all problems and pairs of equivalent formulations",
     "Tests compare single formulations with stored numbers; equivalence relates two runs for every problem.",
     [RKI, SCH, ODE, CTL, TAB, MET], mech(("time loop and derivative loops", RKI), ("step", SCH), ("gathering and scattering", ODE), ("step size control", CTL)),
     ["results, recorded steps, attempts and products of both runs of each pair"],
     "metamorphic monitor: real executions of equivalent problems compared run against run",
     "Exploration over random problems and transformations; adaptive pairs at a decision boundary within rounding are skipped.")

IMPLEMENTED = [p["id"] for p in P if os.path.exists(os.path.join(ROOT, "rtm/props", p["id"].lower() + ".py"))]

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in IMPLEMENTED:
            continue
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: all monitors plug into public extension points (callbacks, controllers, measurers, criteria, user components)."}
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in IMPLEMENTED:
        man["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} --tier quick",
                              "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
                              "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration",
                              "level_note": p["note"]})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(IMPLEMENTED)
