"""C25: work and memory stay within what the chosen checkpointing promises."""

import gc
import os
import shutil
import tempfile
import tracemalloc
from math import comb

import numpy as np
import openmdao.api as om

from rkopenmdao.callback import Callback
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

from rtm import model as M
from rtm.rig import AllCheckpointer, NoCheckpointer, PyrevolveCheckpointer, Rig, random_state
from rtm.props.c18 import arrays

KINDS = {"work": (110, 1200), "adaptive": (24, 240), "memory": (40, 320)}
MIN_EVENTS = {"runs": 200, "fwd": 120, "rev": 100, "revolve_rev": 60, "adaptive_runs": 40, "peaks": 70, "leak_runs": 60, "disk_looks": 60}
RULE = ("counts of stage evaluations made by each run, forward product and reverse product in random sequences of operations, against the number of stages of the accepted and rejected attempts "
        "and, for Revolve strategies, the binomial optimum for the given number of checkpoints; peak and retained traced memory of runs with a large state for two numbers of steps and budgets, and the "
        "memory held at rest after runs of different length, size of files during and after disk checkpointing; distinct = (strategy, budget, steps, operation)")
ASSUMPTIONS = ["memory is what tracemalloc attributes to Python and numpy, in units of one complete integration state"]


def revolve_cost(length, c):
    """Griewank & Walther: least number of repeated forward steps for reversing `length` steps with c checkpoints."""
    if length <= 1:
        return 0
    r = 0
    while comb(c + r, c) < length:
        r += 1
    return r * length - comb(c + r, c + 1)


def default_checkpoints(length):
    return max(1, int(np.floor(np.log2(max(1, length))))) if length > 0 else 1


def strategies(rng, n):
    r = rng.random()
    if r < 0.2:
        return "none", (NoCheckpointer, {}), None
    if r < 0.45:
        return "all", (AllCheckpointer, {}), None
    typ = str(rng.choice(["Memory", "Disk", "SingleLevel"]))
    c = int(rng.integers(1, 9))
    return f"{typ}", (PyrevolveCheckpointer, {"revolver_type": typ, "revolver_options": {"n_checkpoints": c}}), c


def run(kind, idx, rng, mon, tier):
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c25_")
    os.chdir(tmp)
    try:
        {"work": work, "adaptive": adaptive, "memory": memory}[kind](idx, rng, mon, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def work(idx, rng, mon, tmp):
    sp = M.random_spec(rng)
    tab, label = M.pick_tableau(rng)
    s = tab.number_of_stages()
    n = int(rng.integers(1, 13)) if rng.random() < 0.7 else int(rng.integers(13, 41))
    name, ck, c = strategies(rng, n)
    rig = Rig(sp, tab, n=n, h=0.02, arch="explicit", rng=rng, ckpt=ck, callbacks=False)
    mon.note(strategy=name, budget=c, steps=n, tableau=label)
    t0, y0, p = random_state(rng, sp)
    sweep = n * s
    repeat = 0 if c is None else revolve_cost(n - 1, min(c, max(1, n - 1))) * s
    ops = ["run"] + [str(rng.choice(["run", "fwd", "rev"])) for _ in range(int(rng.integers(3, 8)))]
    fresh = False
    for op in ops:
        if op == "rev" and name == "none":
            continue
        before = rig.probe.evals
        if op == "run":
            if rng.random() < 0.5:
                t0, y0, p = random_state(rng, sp)
            rig.run(t0, y0, p)
            used, most = rig.probe.evals - before, sweep
            fresh = True
            mon.count("runs")
        elif op == "fwd":
            rig.fwd(rng.normal(size=1 + sp.n + sp.m))
            used, most = rig.probe.evals - before, sweep
            fresh = False
            mon.count("fwd")
        else:
            rig.rev(rng.normal(size=1 + sp.n))
            # directly after a run its checkpoints are there, otherwise one sweep renews them
            used, most = rig.probe.evals - before, repeat + (0 if fresh else sweep)
            fresh = False
            mon.count("rev")
            if c is not None:
                mon.count("revolve_rev")
        mon.require(used <= most, "work-" + op, f"{op} with {name} checkpointing (budget {c}) over {n} steps of {s} stages makes {used} stage evaluations, {most} suffice")
        if op == "run":
            mon.require(used == sweep, "work-run", f"a run over {n} steps of {s} stages makes {used} evaluations") if not tab_shares(tab) else None
        mon.distinct(name, c, n, op)


def tab_shares(tab):
    """A stage that repeats the previous step's last one may be saved."""
    A, b, cc, _ = M.tab_arrays(tab)
    return cc[0] == 0.0 or b.size > 1 and any(np.array_equal(A[i], A[j]) for i in range(b.size) for j in range(i))


def adaptive(idx, rng, mon, tmp):
    sp = M.random_spec(rng)
    tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
    s = tab.number_of_stages()
    t0, y0, p = random_state(rng, sp)
    rev = rng.random() < 0.6
    rig = Rig(sp, tab, T=t0 + float(rng.uniform(0.3, 1.0)), h=float(10 ** rng.uniform(-2, 0)), arch="explicit", rng=rng, adaptive=True,
              ctrl_cfg=ErrorControllerConfig(tol=float(10 ** rng.uniform(-6, -3)), lower_bound=1e-4, upper_bound=0.5), ckpt=(AllCheckpointer if rev else NoCheckpointer, {}))
    for _ in range(2):
        rig.actl.clear()
        before = rig.probe.evals
        rig.run(t0, y0, p)
        tries = sum(1 for e in rig.actl if e["kind"] == "ctrl")
        used = rig.probe.evals - before
        mon.require(used <= tries * s, "work-adaptive", f"{tries} attempts of {s} stages make {used} stage evaluations")
        mon.count("adaptive_runs")
        before = rig.probe.evals
        if rev:
            rig.rev(rng.normal(size=1 + sp.n))
            mon.require(rig.probe.evals == before, "work-adaptive-rev", f"reverse product directly after an adaptive run makes {rig.probe.evals - before} stage evaluations though all steps are stored")
            mon.count("rev")
        else:
            rig.fwd(rng.normal(size=1 + sp.n + sp.m))
            mon.require(rig.probe.evals - before <= tries * s, "work-adaptive-fwd", f"forward product of an adaptive run makes {rig.probe.evals - before} stage evaluations for {tries} attempts of {s} stages")
            mon.count("fwd")
        y0 = y0 + 0.1
    mon.note(tableau=label, attempts=tries)
    mon.distinct("adaptive", label, tries, rev)


# ------------------------------------------------------------------ memory
class Big(ExplicitUnsteadyComponent):
    """y' = r (sin t - y), entry by entry, solved in closed form."""

    def initialize(self):
        self.options.declare("size")

    def setup(self):
        n = self.options["size"]
        self.add_input("t", val=0.0, tags=["time_variable"])
        self.add_input("y", shape=n, tags=["y", "step_input_var"])
        self.add_input("a", shape=n, tags=["y", "accumulated_stage_var"])
        self.add_output("k", shape=n, tags=["y", "stage_output_var"])

    def compute(self, inputs, outputs):
        h, f = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        outputs["k"] = 0.7 * (np.sin(inputs["t"]) - inputs["y"] - h * inputs["a"]) / (1 + 0.7 * h * f)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        h, f = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        g = 0.7 / (1 + 0.7 * h * f)
        if "k" not in d_outputs:
            return
        if mode == "fwd":
            if "t" in d_inputs:
                d_outputs["k"] += g * np.cos(inputs["t"]) * d_inputs["t"]
            if "y" in d_inputs:
                d_outputs["k"] -= g * d_inputs["y"]
            if "a" in d_inputs:
                d_outputs["k"] -= g * h * d_inputs["a"]
        else:
            if "t" in d_inputs:
                d_inputs["t"] += np.sum(g * np.cos(inputs["t"]) * d_outputs["k"])
            if "y" in d_inputs:
                d_inputs["y"] -= g * d_outputs["k"]
            if "a" in d_inputs:
                d_inputs["a"] -= g * h * d_outputs["k"]


class Look(Callback):
    """Size of a complete state and, while running, of the files in the scratch folder."""

    def __init__(self, tmp):
        self.tmp, self.unit, self.files = tmp, 0, 0
        self.looks = 0

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        pass

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.unit = sum(a.nbytes for a in arrays(time_integration_state).values())
        self.files = max(self.files, folder(self.tmp))
        self.looks += 1


def folder(d):
    total = 0
    for f in os.listdir(d):
        try:
            st = os.stat(os.path.join(d, f))
        except OSError:
            continue
        total += min(st.st_size, st.st_blocks * 512) if os.path.isfile(os.path.join(d, f)) else 0
    return total


def build(size, tab, n, ck, look):
    stage = om.Problem()
    stage.model.add_subsystem("big", Big(size=size), promotes=["*"])
    prob = om.Problem()
    prob.model.add_subsystem("rk", RungeKuttaIntegrator(
        time_stage_problem=stage, butcher_tableau=tab, time_integration_quantities=["y"],
        integration_config=IntegrationConfig(use_adaptive_time_stepping=False, termination_criterion=PredefinedNumberOfSteps(n), initial_step_size=0.01),
        checkpointing_type=ck[0], checkpoint_options=ck[1], compute_callbacks=[look], compute_jacvec_product_rev_callbacks=[look]), promotes=["*"])
    prob.setup()
    prob.final_setup()
    prob.set_val("y_initial", np.linspace(-1, 1, size))
    return prob


def product(prob, mode, size, rng):
    of, wrt = ["rk.time_final", "rk.y_final"], ["rk.time_initial", "rk.y_initial"]
    seed = dict(zip(of if mode == "rev" else wrt, [np.ones(1), rng.normal(size=size)]))
    prob.compute_jacvec_product(of, wrt, mode, seed)


def peak(f):
    """Largest and remaining growth of traced memory during f, in bytes."""
    gc.collect()
    base = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    f()
    top = tracemalloc.get_traced_memory()[1] - base
    gc.collect()
    return top, tracemalloc.get_traced_memory()[0] - base


def memory(idx, rng, mon, tmp):
    size = 4000
    tab, label = M.pick_tableau(rng, p_random=0.0)
    name = ["none", "all", "Memory", "Disk", "SingleLevel"][idx % 5]
    c = int(rng.integers(1, 7))
    ck = {"none": (NoCheckpointer, {}), "all": (AllCheckpointer, {})}.get(
        name, (PyrevolveCheckpointer, {"revolver_type": name, "revolver_options": {"n_checkpoints": c}}))
    n1, n2 = 9, int(rng.integers(24, 40))
    mon.note(strategy=name, budget=c, tableau=label, steps=[n1, n2])
    tracemalloc.start()
    try:
        tops, rests, unit = {}, {}, None
        for n in (n1, n2):
            gc.collect()
            before = tracemalloc.get_traced_memory()[0]
            look = Look(tmp)
            prob = build(size, tab, n, ck, look)
            prob.run_model()          # everything allocated once
            modes = ["fwd"] if name == "none" else ["rev"]
            for m in modes:
                product(prob, m, size, rng)
            unit = look.unit

            def once():
                prob.run_model()
                for m in modes:
                    product(prob, m, size, rng)
            tops[n], _ = peak(once)
            mon.count("peaks")
            # repetition retains nothing
            once()
            first = tracemalloc.get_traced_memory()[0]
            for _ in range(3):
                once()
                mon.count("leak_runs")
            gc.collect()
            rests[n] = tracemalloc.get_traced_memory()[0] - before
            grown = tracemalloc.get_traced_memory()[0] - first
            mon.require(grown < 0.75 * unit, "retained", f"three more runs and products with {name} checkpointing retain {grown / unit:.1f} states ({label})")
            if name in ("Disk", "SingleLevel"):
                kept = c + 1
                mon.require(look.files <= kept * unit * 1.1 + 65536, "disk", f"{name} checkpointing with budget {c} holds {look.files / unit:.1f} states on disk")
                mon.count("disk_looks", look.looks)
            else:
                mon.require(look.files == 0, "disk", f"{name} checkpointing writes files")
            del prob, once
            gc.collect()
        # in states, beyond what a short run needs for its own arithmetic
        t1, t2 = tops[n1] / unit, tops[n2] / unit
        allowed = {"none": 0.75, "all": 1.1 * (n2 - n1) + 1.5, "Memory": 0.75 + max(0, c - min(c, n1 - 1)), "Disk": 0.75, "SingleLevel": 0.75 + max(0, c - min(c, n1 - 1))}[name]
        mon.max_err["growth-" + name] = max(mon.max_err.get("growth-" + name, 0.0), (t2 - t1) / allowed)
        mon.require(t2 - t1 <= allowed, "growth", f"{name} checkpointing (budget {c}): {n2} instead of {n1} steps need memory for {t2 - t1:.1f} more states, {allowed:.1f} expected ({label})")
        r1, r2 = rests[n1] / unit, rests[n2] / unit
        mon.max_err["rest-" + name] = max(mon.max_err.get("rest-" + name, 0.0), (r2 - r1) / allowed)
        mon.require(r2 - r1 <= allowed, "rest-growth", f"{name} checkpointing (budget {c}): after {n2} instead of {n1} steps {r2 - r1:.1f} more states are held, {allowed:.1f} expected ({label})")
        most = {"none": 6.0, "all": 1.1 * n2 + 6.0, "Memory": c + 7.0, "Disk": 7.0, "SingleLevel": c + 7.0}[name]
        mon.max_err["peak-" + name] = max(mon.max_err.get("peak-" + name, 0.0), t2 / most)
        mon.require(t2 <= most, "peak", f"{name} checkpointing (budget {c}) over {n2} steps needs memory for {t2:.1f} states")
        gc.collect()
        left = [f for f in os.listdir(tmp)]
        mon.require(not left, "files-left", f"files left behind after the integrators are gone: {left}")
        mon.distinct(name, c, label, n2)
    finally:
        tracemalloc.stop()
