"""C20: integrators do not interfere with each other or with caller-owned objects."""

import copy
import dataclasses

import numpy as np
import openmdao.api as om

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.callback import IterationLogging, WallClockMeasurement
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState, DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from rtm import model as M
from rtm.adapt import GAVE_UP, pick_controllers, wild_spec
from rtm.core import Skip
from rtm.rig import AllCheckpointer, PyrevolveCheckpointer, RecordingCallback, Rig, rec_factory, random_state

KINDS = {"interleave": (110, 1100), "adaptive": (50, 500), "inside": (60, 600), "stage": (40, 400), "ode": (80, 800)}
MIN_EVENTS = {"operations": 1000, "switches": 400, "nested_operations": 150, "snapshots": 20000, "nested_integrations": 25, "ode_results": 1100}
RULE = ("2-4 integrators with random ODEs, architectures and checkpointing (disk storage over-represented), built from shared tableau, configuration, option, callback and list objects; "
        "each one's script of operations (setup, run, forward, reverse, change of inputs) is first executed alone with private copies, then all scripts are interleaved at random, also with operations "
        "of one executed inside callbacks of another; every result is compared with the solo run (1e-11) and fixed step results with the independent reference; caller-owned objects are snapshotted and compared "
        "after every operation; stage: an integrator inside the stage problem of another; ode: results of OpenMDAOODE kept while others are evaluated; distinct = (kind, #integrators, sharing, checkpointings)")


# -- snapshots ------------------------------------------------------------
def freeze(x):
    if isinstance(x, np.ndarray):
        return ("a", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, ButcherTableau):
        return ("t",) + tuple(freeze(np.asarray(v)) if v is not None else None for v in M.tab_arrays(x)) + (x.p, x.name, getattr(x, "phat", None))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return ("d", type(x).__name__) + tuple((f.name, freeze(getattr(x, f.name))) for f in dataclasses.fields(x) if not f.name.startswith("_"))
    if isinstance(x, dict):
        return ("m",) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(freeze(v) for v in x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return repr(x)
    if isinstance(x, np.generic):
        return repr(x)
    return ("id", id(x))


class Guard:
    """Snapshots of everything the caller handed in."""

    def __init__(self):
        self.items = []

    def watch(self, name, obj):
        self.items.append((name, obj, freeze(obj)))

    def check(self, mon, when):
        for name, obj, f in self.items:
            mon.require(freeze(obj) == f, "caller-object", f"{name} was modified ({when})")
        mon.count("snapshots", len(self.items))


# -- blueprints -----------------------------------------------------------
class Plan:
    """Everything needed to build one integrator, again and again."""

    def __init__(self, rng, shared, adaptive, watch=None):
        self.seed = int(rng.integers(2 ** 31))
        self.adaptive = adaptive
        self.sp = wild_spec(rng) if adaptive else M.random_spec(rng, nq=int(rng.integers(1, 4)))
        own = rng.random() < 0.3
        self.tab = shared["tab"] if not own else M.pick_tableau(rng, embedded=True if adaptive else None)[0]
        self.n = shared["n"] if rng.random() < 0.8 else int(rng.integers(1, 9))
        self.share_config = self.n == shared["n"]
        self.h = shared["h"]
        self.arch = str(rng.choice(M.ARCHS))
        self.ck = shared["ck"][int(rng.integers(len(shared["ck"])))]
        self.ctrls = shared["ctrls"]
        self.options = "ctrl_options" if rng.random() < 0.6 else "other_options"
        self.script = []
        k = int(rng.integers(3, 8))
        p = random_state(rng, self.sp)
        for i in range(k):
            c = rng.random()
            if i == 0 or c < 0.4:
                if rng.random() < 0.7 or i == 0:
                    p = random_state(rng, self.sp)
                self.script.append(("run", p))
            elif c < 0.6:
                self.script.append(("fwd", rng.normal(size=1 + self.sp.n + self.sp.m)))
            elif c < 0.95:
                self.script.append(("rev", rng.normal(size=1 + self.sp.n)))
            else:
                self.script.append(("setup", None))
                self.script.append(("run", p))

    def build(self, shared, guard=None):
        rng = np.random.default_rng(self.seed)
        extra = {}
        if self.share_config:
            extra["integration_config"] = shared["config"]
        extra["checkpoint_options"] = self.ck[1]
        kw = {}
        if self.adaptive:
            log = []
            ctrl = shared["ctrl_list"] if shared["ctrl_list"] else None
            if ctrl is not None:
                extra["error_controller"] = ctrl
            extra["error_controller_options"] = shared[self.options]
            extra["error_measurer"] = shared["measurer"]
            kw = dict(adaptive=True, controllers=self.ctrls)
        rig = Rig(self.sp, self.tab, n=self.n, h=self.h, arch=self.arch, ckpt=(self.ck[0], self.ck[1]), rng=rng, extra=extra, setup=False, **kw)
        if guard is not None:
            for o in ("time_integration_quantities", "time_independent_input_quantities", "checkpoint_options", "error_controller", "error_controller_options",
                      "compute_callbacks", "compute_jacvec_product_fwd_callbacks", "compute_jacvec_product_rev_callbacks", "integration_config", "butcher_tableau"):
                guard.watch(o, rig.integrator.options[o])
        rig.prob.setup()
        rig.prob.final_setup()
        return rig


def execute(rig, op, data):
    if op == "run":
        rig.log.clear()
        try:
            t, y = rig.run(*data)
        except GAVE_UP as e:
            return ("gave up", type(e).__name__)
        return ("run", t, y, len(rig.accepted()))
    if op == "setup":
        rig.prob.setup()
        rig.prob.final_setup()
        return ("setup",)
    try:
        return (op, rig.fwd(data) if op == "fwd" else rig.rev(data))
    except GAVE_UP as e:
        return ("gave up", type(e).__name__)


def same(mon, got, want, what):
    mon.require(got[0] == want[0], "outcome", f"{what}: {got[0]} instead of {want[0]}")
    for g, w in zip(got[1:], want[1:]):
        if isinstance(w, (str, int)):
            mon.require(g == w, "outcome", f"{what}: {g} instead of {w}")
        else:
            if not np.all(np.isfinite(w)):
                raise Skip("solo run left the finite range")
            mon.close(g, w, "result", what, rtol=1e-11, atol=1e-13)


def make_shared(rng, adaptive):
    tab = M.pick_tableau(rng, embedded=True if adaptive else None, p_random=0.0 if adaptive else 0.35)[0]
    n = int(rng.integers(2, 9))
    h = float(rng.uniform(0.02, 0.15))
    cks = [(AllCheckpointer, {})]
    for _ in range(3):
        typ = str(rng.choice(["Disk", "Disk", "Memory", "SingleLevel"]))
        o = {"revolver_type": typ, "revolver_options": {}}
        if rng.random() < 0.7:
            o["revolver_options"]["n_checkpoints"] = int(rng.integers(1, max(2, min(n, 5))))
        if typ == "Disk" and rng.random() < 0.3:
            o["revolver_options"]["singlefile"] = False
        if rng.random() < 0.15:
            o = {}
        cks.append((PyrevolveCheckpointer, o))
    cname, ctrls = pick_controllers(rng)
    cfg = ErrorControllerConfig(tol=float(10 ** rng.uniform(-5, -2)), lower_bound=float(rng.choice([1e-4, 1e-3])), upper_bound=1.0, max_iter=int(rng.integers(0, 6)))
    return {
        "tab": tab, "n": n, "h": h, "ck": cks, "ctrls": ctrls, "cname": cname,
        "config": IntegrationConfig(use_adaptive_time_stepping=adaptive, termination_criterion=PredefinedNumberOfSteps(n), initial_step_size=h),
        "ctrl_options": {"config": cfg}, "ctrl_list": list(ctrls),
        # bounds that exclude the shared initial step size
        "other_options": {"config": ErrorControllerConfig(tol=cfg.tol, **({"lower_bound": 1.5 * h, "upper_bound": 1.0} if rng.random() < 0.4 else {"lower_bound": 1e-3, "upper_bound": 0.6 * h}))},
        "measurer": SimpleErrorMeasurer() if rng.random() < 0.5 else ImprovedErrorMeasurer(),
    }


def private(shared):
    """Fresh copies of the shared objects for a solo run."""
    s = dict(shared)
    s["config"] = copy.deepcopy(shared["config"])
    s["ctrl_options"] = copy.deepcopy(shared["ctrl_options"])
    s["other_options"] = copy.deepcopy(shared["other_options"])
    s["ctrl_list"] = list(shared["ctrl_list"])
    s["measurer"] = copy.deepcopy(shared["measurer"])
    return s


def reference(mon, plan, rig, history, op, data, got, what):
    """Absolute check for fixed steps: the last inputs are those of the last run."""
    if plan.adaptive or got[0] == "gave up" or op == "setup":
        return
    t0, y0, p = history
    steps, t, y = rig.ref(t0, y0, p, [plan.h] * plan.n)
    if op == "run":
        mon.close(got[1], t, "reference", what + " (time)", rtol=1e-10)
        mon.close(got[2], y, "reference", what, rtol=1e-9, atol=1e-11, scale=max(1.0, float(np.max(np.abs(y)))))
    else:
        J = rig.ref_jac(steps, p)
        w = J @ data if op == "fwd" else J.T @ data
        mon.close(got[1], w, "reference", what, rtol=1e-6, atol=1e-8, scale=max(1.0, float(np.linalg.norm(J)) * float(np.linalg.norm(data))))


def interleave(rng, mon, adaptive, inside):
    shared = make_shared(rng, adaptive)
    k = int(rng.integers(2, 5 if not inside else 4))
    plans = [Plan(rng, shared, adaptive) for _ in range(k)]
    solo = []
    for pl in plans:
        priv = private(shared)
        keep = pl.ck
        pl.ck = (keep[0], copy.deepcopy(keep[1]))
        rig = pl.build(priv)
        solo.append([execute(rig, op, d) for op, d in pl.script])
        pl.ck = keep
    guard = Guard()
    for nm in ("config", "ctrl_options", "other_options", "ctrl_list", "tab"):
        guard.watch("shared " + nm, shared[nm])
    for c in shared["ck"]:
        guard.watch("shared checkpoint options", c[1])
    rigs, pos, hist = [None] * k, [0] * k, [None] * k
    depth, last, order = [0], [None], []

    def step(i):
        pl = plans[i]
        if rigs[i] is None:
            rigs[i] = pl.build(shared, guard)
            if inside:
                install(i)
            return
        op, d = pl.script[pos[i]]
        want = solo[i][pos[i]]
        pos[i] += 1
        if op == "run":
            hist[i] = d
        keep = np.array(d) if isinstance(d, np.ndarray) else copy.deepcopy(d)
        busy.add(i)
        got = execute(rigs[i], op, d)
        busy.discard(i)
        what = f"integrator {i} ({pl.arch}, {pl.ck[0].__name__} {pl.ck[1].get('revolver_type', '')}), operation {pos[i]} ({op}) among {k} interleaved integrators"
        same(mon, got, want, what)
        reference(mon, pl, rigs[i], hist[i], op, d, got, what)
        mon.require(freeze(keep if isinstance(keep, np.ndarray) else list(keep or [])) == freeze(d if isinstance(d, np.ndarray) else list(d or [])), "caller-array", f"{what}: arrays handed in were modified")
        mon.count("operations")
        if depth[0]:
            mon.count("nested_operations")
        if last[0] is not None and last[0] != i:
            mon.count("switches")
        last[0] = i
        order.append((i, op))

    busy = set()

    def install(i):
        r = np.random.default_rng(plans[i].seed + 1)

        def hook(ev, st):
            if depth[0] or r.random() > 0.25:
                return
            others = [j for j in range(k) if j != i and j not in busy and (rigs[j] is None or pos[j] < len(plans[j].script))]
            if not others:
                return
            depth[0] += 1
            try:
                step(others[int(r.integers(len(others)))])
            finally:
                depth[0] -= 1
        for cb in rigs[i].cbs:
            cb.hook = hook

    try:
        while True:
            todo = [i for i in range(k) if rigs[i] is None or pos[i] < len(plans[i].script)]
            if not todo:
                break
            i = todo[int(rng.integers(len(todo)))]
            for _ in range(int(rng.integers(1, 3))):
                if rigs[i] is None or pos[i] < len(plans[i].script):
                    step(i)
            guard.check(mon, f"after operations {order[-3:]}")
    finally:
        for r in rigs:
            if r is not None:
                for cb in r.cbs:
                    cb.hook = None
    mon.note(k=k, tableau=shared["tab"].name, n=shared["n"], controllers=shared["cname"] if adaptive else None, order=str(order)[:400])
    mon.distinct("inside" if inside else "interleave", adaptive, k, tuple(sorted(p.ck[1].get("revolver_type", p.ck[0].__name__) for p in plans)))


# -- an integrator inside the stage problem of another --------------------
class StageValue(ExplicitUnsteadyComponent):
    def initialize(self):
        self.options.declare("n")
        self.options.declare("tagged", default=True)

    def setup(self):
        n, tagged = self.options["n"], self.options["tagged"]
        self.add_input("old", shape=n, tags=["z", "step_input_var"] if tagged else [])
        self.add_input("acc", shape=n, tags=["z", "accumulated_stage_var"] if tagged else [])
        self.add_output("Y", shape=n)
        self.declare_partials("*", "*")

    def compute(self, inputs, outputs):
        outputs["Y"] = inputs["old"] + self.om_data_exchange.step_size * inputs["acc"]

    def compute_partials(self, inputs, partials):
        n = self.options["n"]
        partials["Y", "old"] = np.eye(n)
        partials["Y", "acc"] = self.om_data_exchange.step_size * np.eye(n)


class Lin(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("K")
        self.options.declare("D")

    def setup(self):
        n = self.options["K"].shape[0]
        self.add_input("x", shape=n)
        self.add_input("y", shape=n)
        self.add_output("k", shape=n, tags=["z", "stage_output_var"])
        self.declare_partials("k", "x", val=self.options["K"])
        self.declare_partials("k", "y", val=np.diag(self.options["D"]))

    def compute(self, inputs, outputs):
        outputs["k"] = self.options["K"] @ inputs["x"] + self.options["D"] * inputs["y"]


class Nested:
    """Right-hand side K Phi(t, y) + D y: Phi is the inner discrete flow, y is computed once more after it ran."""

    def __init__(self, sp, arr, K, D, n, h, uses_time, p):
        self.sp, self.arr, self.K, self.D, self.ni, self.hi, self.ut, self.p = sp, arr, K, D, n, h, uses_time, p
        self.n, self.m, self.scale = sp.n, 0, sp.scale

    def f(self, t, y, p):
        _, _, z = M.ref_run(self.sp, self.arr, t if self.ut else 0.0, y, self.p, [self.hi] * self.ni)
        return self.K @ z + self.D * y

    def jac(self, t, y, p):
        steps, _, _ = M.ref_run(self.sp, self.arr, t if self.ut else 0.0, y, self.p, [self.hi] * self.ni)
        J = M.ref_jacobian(self.sp, self.arr, steps, self.p)
        return (self.K @ J[1:, 0] if self.ut else np.zeros(self.n)), self.K @ J[1:, 1:1 + self.n] + np.diag(self.D), np.zeros((self.n, 0))

    def solve_stage(self, t, base, p, ha, guess=None):
        return self.f(t, base, p)


class TimeIn(om.ExplicitComponent):
    def setup(self):
        self.add_input("t", val=0.0, tags=["time_variable"])
        self.add_output("s", val=0.0)
        self.declare_partials("s", "t", val=1.0)

    def compute(self, inputs, outputs):
        outputs["s"] = inputs["t"]


def stage(rng, mon):
    sp = M.random_spec(rng, nq=1, indep=0, shapes=False, noinput=False)
    q = sp.quants[0]
    n = q.size
    itab = M.pick_tableau(rng)[0]
    otab = M.pick_tableau(rng, implicit_ok=False)[0]
    ni, hi = int(rng.integers(1, 4)), float(rng.uniform(0.02, 0.2))
    no, ho = int(rng.integers(1, 4)), float(rng.uniform(0.02, 0.2))
    K = 0.7 * rng.normal(size=(n, n))
    D = 0.5 * rng.normal(size=n)
    ut = bool(rng.random() < 0.6)
    rstage, _ = M.build_stage_problem(sp, str(rng.choice(M.ARCHS)), rng)
    inner = RungeKuttaIntegrator(time_stage_problem=rstage, butcher_tableau=itab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(ni), hi),
                                 time_integration_quantities=[q.name], checkpointing_type=AllCheckpointer if rng.random() < 0.5 else PyrevolveCheckpointer,
                                 compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[])
    prob = om.Problem()
    if ut:
        prob.model.add_subsystem("tin", TimeIn())
    prob.model.add_subsystem("val", StageValue(n=n), promotes_inputs=["*"])
    prob.model.add_subsystem("rk", inner)
    prob.model.add_subsystem("again", StageValue(n=n, tagged=False), promotes_inputs=["*"])
    prob.model.add_subsystem("lin", Lin(K=K, D=D))
    prob.model.connect("again.Y", "lin.y")
    prob.model.connect("val.Y", f"rk.{q.name}_initial")
    prob.model.connect(f"rk.{q.name}_final", "lin.x")
    if ut:
        prob.model.connect("tin.s", "rk.time_initial")
    osp = M.Spec([M.Quant("z", (n,))], [])
    ck = (AllCheckpointer, {}) if rng.random() < 0.5 else (PyrevolveCheckpointer, {"revolver_type": "Disk", "revolver_options": {"n_checkpoints": 1}})
    rig = Rig(osp, otab, n=no, h=ho, stage=(prob, None), ckpt=ck)
    nest = Nested(sp, M.tab_arrays(itab), K, D, ni, hi, ut, np.zeros(0))
    arr = M.tab_arrays(otab)
    for _ in range(2):
        t0, y0 = float(rng.normal()), rng.normal(size=n)
        t, y = rig.run(t0, y0, np.zeros(0))
        steps, tr, yr = M.ref_run(nest, arr, t0, y0, np.zeros(0), [ho] * no)
        mon.close(y, yr, "nested-value", "integrator whose stage problem contains an integrator", rtol=1e-10, atol=1e-12)
        mon.close(t, tr, "nested-time", "time of the nested integration", rtol=1e-11)
        J = M.ref_jacobian(nest, arr, steps, np.zeros(0))
        for op in rng.permutation(["fwd", "rev"]):
            v = rng.normal(size=1 + n)
            got = rig.fwd(v) if op == "fwd" else rig.rev(v)
            mon.close(got, J @ v if op == "fwd" else J.T @ v, "nested-" + str(op), f"{op} product of an integrator whose stage problem contains an integrator", rtol=1e-9, atol=1e-11)
        mon.count("nested_integrations")
    mon.note(outer=otab.name, inner=itab.name, no=no, ni=ni)
    mon.distinct("stage", no, ni, ut, ck[0].__name__)


# -- results of the ODE interface stay what they were ----------------------
def ode_kind(rng, mon):
    k = int(rng.integers(1, 4))
    items = []
    for _ in range(k):
        sp = M.random_spec(rng)
        prob, _ = M.build_stage_problem(sp, str(rng.choice(M.ARCHS)), rng)
        prob.setup()
        prob.final_setup()
        qn, pn = [q.name for q in sp.quants], [q.name for q in sp.indeps]
        ode = OpenMDAOODE(prob, qn, pn)
        items.append((sp, ode))
    held = []
    for _ in range(int(rng.integers(5, 14))):
        sp, ode = items[int(rng.integers(k))]
        h, a = float(rng.uniform(0.01, 0.2)), float(rng.choice([0.0, 0.3]))
        mine = [x for x in held if x[0] is ode and x[1] == "update"]
        op = "update" if not mine or rng.random() < 0.5 else str(rng.choice(["fwd", "rev"]))
        n, m = ode.get_state_size(), ode.get_independent_input_size()
        if op == "update":
            arg = DiscretizedODEInputState(rng.normal(size=n), rng.normal(size=n), rng.normal(size=m), float(rng.normal()))
            call = ode.compute_update
        else:
            base = mine[int(rng.integers(len(mine)))]
            h, a = base[4]
            lin = base[2].linearization_point
            if op == "fwd":
                arg = DiscretizedODEInputState(rng.normal(size=n), rng.normal(size=n), rng.normal(size=m), float(rng.normal()), lin)
                call = ode.compute_update_derivative
            else:
                arg = DiscretizedODEResultState(rng.normal(size=n), rng.normal(size=n), np.zeros(0), lin)
                call = ode.compute_update_adjoint_derivative
        before = freeze(dict(vars(arg)))
        res = call(arg, h, a)
        mon.require(freeze(dict(vars(arg))) == before, "ode-input", f"{op} of the ODE modified its arguments")
        held.append((ode, op, res, freeze(dict(vars(res))), (h, a), arg))
        for o, p, r, f, _, _ in held:
            mon.require(freeze(dict(vars(r))) == f, "ode-result", f"a result of '{p}' changed after a later '{op}'")
        mon.count("ode_results", len(held))
        # a call repeated later gives the same answer
        o, p, r, f, (h2, a2), arg2 = held[int(rng.integers(len(held)))]
        fn = {"update": o.compute_update, "fwd": o.compute_update_derivative, "rev": o.compute_update_adjoint_derivative}[p]
        again = fn(arg2, h2, a2)
        for name in vars(r):
            x, y = getattr(r, name), getattr(again, name)
            if x is None or np.size(x) == 0 or not np.all(np.isfinite(x)):
                continue
            mon.close(y, x, "ode-repeat", f"repeated '{p}' ({name}) after other evaluations", rtol=1e-10, atol=1e-12)
    mon.distinct("ode", k, len(held))


def run(kind, idx, rng, mon, tier):
    if kind == "interleave":
        interleave(rng, mon, False, False)
    elif kind == "adaptive":
        interleave(rng, mon, True, bool(rng.random() < 0.4))
    elif kind == "inside":
        interleave(rng, mon, False, True)
    elif kind == "stage":
        stage(rng, mon)
    else:
        ode_kind(rng, mon)
