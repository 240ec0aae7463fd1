"""C21: the stage problem is driven through exactly its tagged variables."""

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState, DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE

from rtm import model as M
from rtm.core import Skip
from rtm.rig import AllCheckpointer, PyrevolveCheckpointer, Rig, random_state

KINDS = {"ode": (780, 2600), "poison": (240, 800), "integrator": (390, 1300)}
MIN_EVENTS = {"evaluations": 900, "derivatives": 350, "values_seen": 1700, "linearisations_seen": 1700, "bystanders_seen": 900, "poisoned": 50, "recovered": 80, "seen_exactly": 600, "meddled": 200}
RULE = ("random stage problems (explicit, implicit, Newton-coupled, nested groups, explicit sources; shuffled variable and request orders, quantities without own inputs, quantities present but not requested) with "
        "recording bystander components (untagged inputs, sources, unsteady components) are driven through OpenMDAOODE and the integrator; every component logs the values it sees at evaluation and at linearisation: "
        "they must be bit for bit the documented time, step start, accumulated stages, parameters, step size and stage factor, bystanders must see what the user set; derivatives are requested at earlier points after "
        "arbitrary other evaluations (also at non-finite ones, and after the user wrote the tagged variables and ran the stage problem) and compared with the reference; distinct = (kind, architecture, #quantities, #bystanders, #points)")


class Bystander(ExplicitUnsteadyComponent):
    """Untagged variables only."""

    def initialize(self):
        self.options.declare("log")
        self.options.declare("shape")
        self.options.declare("tags", default=[])

    def setup(self):
        self.add_input("u", shape=self.options["shape"], val=1.0)
        self.add_input("w", val=2.0)
        self.add_output("v", shape=self.options["shape"])
        if self.options["tags"]:
            self.add_input("o", shape=2, tags=["unlisted", "step_input_var"])
            self.add_input("a", shape=2, tags=["unlisted", "accumulated_stage_var"])
            self.add_output("k", shape=2, tags=["unlisted", "stage_output_var"])
        n = int(np.prod(self.options["shape"]))
        self.declare_partials("v", "u", rows=np.arange(n), cols=np.arange(n))
        self.declare_partials("v", "w")

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        outputs["v"] = inputs["u"] * inputs["w"]
        d = {"u": inputs["u"].copy(), "w": float(inputs["w"][0]), "h": float(self.om_data_exchange.step_size), "a": float(self.om_data_exchange.stage_factor)}
        if self.options["tags"]:
            d["o"], d["x"] = inputs["o"].copy(), inputs["a"].copy()
            outputs["k"] = 1.0
        self.options["log"].append(d)

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        partials["v", "u"] = inputs["w"][0]
        partials["v", "w"] = inputs["u"].reshape(-1, 1)


def add_bystanders(rng, prob):
    out = []
    for i in range(int(rng.integers(0, 3))):
        shape = M._shape(rng, 3, True)
        log = []
        tags = bool(rng.random() < 0.4 and not any(o["tags"] for o in out))
        comp = Bystander(log=log, shape=shape, tags=tags)
        name = f"by{i}"
        if rng.random() < 0.5:
            prob.model.add_subsystem(name, comp)
            pre = name
        else:
            prob.model.add_subsystem(f"g{name}", om.Group()).add_subsystem(name, comp)
            pre = f"g{name}.{name}"
        src = None
        if rng.random() < 0.4:
            prob.model.add_subsystem(f"src{name}", om.IndepVarComp("s", shape=shape, val=1.0))
            prob.model.connect(f"src{name}.s", pre + ".u")
            src = f"src{name}.s"
        out.append({"pre": pre, "log": log, "shape": shape, "tags": tags, "src": src})
    return out


def set_bystanders(rng, prob, bys):
    for b in bys:
        b["log"].clear()
        b["u"], b["w"] = rng.normal(size=b["shape"]), float(rng.normal())
        prob.set_val(b["src"] or b["pre"] + ".u", b["u"])
        prob.set_val(b["pre"] + ".w", b["w"])
        if b["tags"]:
            b["o"], b["x"] = rng.normal(size=2), rng.normal(size=2)
            prob.set_val(b["pre"] + ".o", b["o"])
            prob.set_val(b["pre"] + ".a", b["x"])


def check_bystanders(mon, prob, bys, h, a, what):
    for b in bys:
        for d in b["log"]:
            mon.require(np.array_equal(d["u"], b["u"]) and d["w"] == b["w"], "bystander", f"{what}: untagged inputs of {b['pre']} saw {d['u']}, {d['w']} instead of {b['u']}, {b['w']}")
            mon.require(d["h"] == h and d["a"] == a, "bystander-factors", f"{what}: unsteady component saw step size {d['h']}, stage factor {d['a']} instead of {h}, {a}")
            if b["tags"]:
                mon.require(np.array_equal(d["o"], b["o"]) and np.array_equal(d["x"], b["x"]), "unlisted", f"{what}: variables of a quantity that is not integrated changed")
            mon.count("bystanders_seen")
        b["log"].clear()


class Drive:
    """One OpenMDAOODE with layout translation."""

    def __init__(self, rng, arch, bystanders=True, **probe_kw):
        self.sp = M.random_spec(rng, rest=0.2)
        self.arch = arch
        self.prob, self.probe = M.build_stage_problem(self.sp, arch, rng, record=True, **probe_kw)
        self.bys = add_bystanders(rng, self.prob) if bystanders else []
        self.prob.setup()
        self.prob.final_setup()
        qn, pn = [q.name for q in self.sp.quants], [q.name for q in self.sp.indeps]
        rng.shuffle(qn)
        rng.shuffle(pn)
        self.ode = OpenMDAOODE(self.prob, qn, pn)
        if self.bys:
            set_bystanders(rng, self.prob, self.bys)
        sl, md = self.sp.slices(), self.ode.time_integration_metadata
        self.perm = np.zeros(self.sp.n, int)
        for q in md.time_integration_quantity_list:
            self.perm[sl[q.name]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
        self.pperm = np.zeros(self.sp.m, int)
        sp_ = self.sp.slices("indeps")
        for q in md.time_independent_input_quantity_list:
            self.pperm[sp_[q.name]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)

    def flat(self, x):
        z = np.zeros(self.sp.n)
        z[self.perm] = x
        return z

    def pflat(self, x):
        z = np.zeros(self.sp.m)
        z[self.pperm] = x
        return z

    def update(self, t, y, acc, p, h, a):
        return self.ode.compute_update(DiscretizedODEInputState(self.flat(y), self.flat(acc), self.pflat(p), t), h, a)


def seen(mon, sp, rec, pt, what, arch):
    t, y, acc, p, h, a = pt
    m = sp.mask()
    if sp.uses_time:
        mon.require(rec["t"] == t, "seen-time", f"{what}: component saw time {rec['t']!r} instead of {t!r}")
    mon.require(np.array_equal(rec["p"], p), "seen-parameter", f"{what}: component saw parameters {rec['p']} instead of {p}")
    if "old" in rec:
        mon.require(np.array_equal(rec["old"], y * m), "seen-old", f"{what}: component saw step start {rec['old']} instead of {y * m}")
        mon.require(np.array_equal(rec["acc"], acc * m), "seen-acc", f"{what}: component saw accumulated stages {rec['acc']} instead of {acc * m}")
        mon.require(rec["h"] == h and rec["a"] == a, "seen-factors", f"{what}: component saw step size {rec['h']}, stage factor {rec['a']} instead of {h}, {a}")
    mon.count("values_seen")


def random_point(rng, sp):
    t, y, p = random_state(rng, sp)
    acc = 0.5 * rng.normal(size=sp.n) * (0.0 if sp.rest and rng.random() < 0.7 else 1.0)
    h = float(10 ** rng.uniform(-3, -0.5)) * (-1.0 if rng.random() < 0.1 else 1.0)
    a = 0.0 if rng.random() < 0.3 else float(rng.uniform(0.1, 0.6))
    return t, y, acc, p, h, a


def tolerance(arch):
    return (1e-9, 1e-9) if arch == "coupled" else (1e-11, 1e-12)


def meddle(rng, d, mon):
    """The user gives the tagged variables other values and evaluates the stage problem."""
    md = d.ode.time_integration_metadata
    names = [md.time_variable] if md.time_variable else []
    for q in md.time_integration_quantity_list:
        names += [x for x in (q.translation_metadata.step_input_var, q.translation_metadata.accumulated_stage_var) if x is not None]
    names += [q.translation_metadata.time_independent_input_var for q in md.time_independent_input_quantity_list]
    for nm in names:
        if rng.random() < 0.7:
            src = d.prob.model.get_source(nm)
            v = np.asarray(d.prob.get_val(src))
            d.prob.set_val(src, v + 0.1 * rng.normal(size=v.shape))
    if rng.random() < 0.5 and d.arch != "coupled":
        d.prob.run_model()
    for b in d.bys:
        b["log"].clear()
    mon.count("meddled")


def ode_kind(rng, mon):
    arch = str(rng.choice(M.ARCHS))
    d = Drive(rng, arch)
    sp = d.sp
    m = sp.mask()
    rt, at = tolerance(arch)
    points = []
    nops = int(rng.integers(4, 12))
    last = None
    for _ in range(nops):
        c = rng.random()
        if rng.random() < 0.2:
            meddle(rng, d, mon)
        if not points or c < 0.45:
            pt = random_point(rng, sp)
            if last is not None and rng.random() < 0.5:     # usual in integrations: parameters, step size and start stay the same
                pt = tuple(last[i] if i in ((3, 4), (1, 3, 4), (0, 3), (1, 3, 4, 5))[int(rng.integers(4))] else pt[i] for i in range(6))
            last = pt
            if points and rng.random() < 0.3:      # share parts with an earlier point
                o = points[int(rng.integers(len(points)))][0]
                pt = tuple(o[i] if rng.random() < 0.5 else pt[i] for i in range(6))
            t, y, acc, p, h, a = pt
            d.probe.log.clear()
            what = f"evaluation {len(points) + 1} ({arch})"
            res = d.update(*pt)
            for rec in d.probe.log:
                seen(mon, sp, rec, pt, what, arch)
            check_bystanders(mon, d.prob, d.bys, h, a, what)
            base = m * (y + h * acc)
            k = sp.solve_stage(t, base, p, h * a)
            got = res.stage_update[d.perm]
            mon.close(got, k, "value", what, rtol=rt, atol=at)
            points.append((pt, k, res))
            mon.count("evaluations")
        else:
            pt, k, res = points[int(rng.integers(len(points)))]
            t, y, acc, p, h, a = pt
            base = m * (y + h * acc)
            jt, jy, jp = sp.jac(t, base + h * a * k, p)
            S = np.eye(sp.n) - h * a * jy
            d.probe.lin_log.clear()
            for b in d.bys:
                b["log"].clear()
            lin = res.linearization_point
            if rng.random() < 0.3:
                lin = lin.copy()
            fwd = bool(rng.random() < 0.5)
            what = f"{'forward' if fwd else 'reverse'} derivative at an earlier point after {len(points)} evaluations ({arch})"
            if fwd:
                dt, dy, da, dp = random_state(rng, sp)[0], rng.normal(size=sp.n), rng.normal(size=sp.n), rng.normal(size=sp.m)
                g = d.ode.compute_update_derivative(DiscretizedODEInputState(d.flat(dy), d.flat(da), d.pflat(dp), dt, lin), h, a)
                want = np.linalg.solve(S, jt * dt + jy @ (m * (dy + h * da)) + jp @ dp)
                mon.close(g.stage_update[d.perm], want, "fwd", what, rtol=100 * rt, atol=100 * at)
            else:
                w = rng.normal(size=sp.n)
                g = d.ode.compute_update_adjoint_derivative(DiscretizedODEResultState(d.flat(w), rng.normal(size=sp.n), np.zeros(0), lin), h, a)
                v = np.linalg.solve(S.T, w)
                jv = m * (jy.T @ v)
                mon.close(g.step_input[d.perm], jv, "rev-step", what, rtol=100 * rt, atol=100 * at)
                mon.close(g.stage_input[d.perm], h * jv, "rev-stage", what, rtol=100 * rt, atol=100 * at)
                mon.close(g.independent_input[d.pperm] if sp.m else np.zeros(0), jp.T @ v, "rev-par", what, rtol=100 * rt, atol=100 * at)
                mon.close(g.time, float(jt @ v) if sp.uses_time else 0.0, "rev-time", what, rtol=100 * rt, atol=100 * at, scale=1 + float(np.abs(jt) @ np.abs(v)))
            for rec in d.probe.lin_log:
                seen(mon, sp, rec, pt, what, arch)
                if "k" in rec:
                    mon.require(np.array_equal(rec["k"], res.stage_update[d.perm]), "seen-k", f"{what}: linearised at another stage solution")
                mon.count("linearisations_seen")
            mon.count("derivatives")
        if d.bys and rng.random() < 0.15:
            # the user changes untagged variables: earlier points belong to another stage problem
            set_bystanders(rng, d.prob, d.bys)
            points.clear()
    mon.note(arch=arch, quants=[(q.name, q.shape, q.has_input) for q in sp.quants], points=len(points))
    mon.distinct("ode", arch, len(sp.quants), len(d.bys), len(points))


def poison(rng, mon):
    """Non-finite evaluations and derivatives in between leave no trace."""
    arch = str(rng.choice(M.ARCHS))
    d = Drive(rng, arch)
    sp = d.sp
    m = sp.mask()
    rt, at = tolerance(arch)
    good = []
    for _ in range(int(rng.integers(4, 10))):
        c = rng.random()
        if good and c < 0.45:
            pt = list(random_point(rng, sp))
            bad = float(rng.choice([np.nan, np.inf, -np.inf]))
            which = int(rng.integers(4))
            if which == 0 and sp.uses_time:
                pt[0] = bad
            elif which == 3 and sp.m:
                pt[3] = pt[3].copy()
                pt[3][int(rng.integers(sp.m))] = bad
            else:
                i = 1 + (which % 2)
                pt[i] = pt[i].copy()
                pt[i][int(rng.integers(sp.n))] = bad
            try:
                with np.errstate(all="ignore"):
                    res = d.update(*pt)
                    if rng.random() < 0.5:
                        z = rng.normal(size=sp.n)
                        if rng.random() < 0.5:
                            d.ode.compute_update_derivative(DiscretizedODEInputState(z, z, np.ones(sp.m), 1.0, res.linearization_point), pt[4], pt[5])
                        else:
                            d.ode.compute_update_adjoint_derivative(DiscretizedODEResultState(z, z, np.zeros(0), res.linearization_point), pt[4], pt[5])
            except Exception as e:  # a solver of the stage problem may refuse non-finite values
                mon.count("refused:" + type(e).__name__)
            mon.count("poisoned")
        elif not good or c < 0.8:
            pt = random_point(rng, sp)
            t, y, acc, p, h, a = pt
            for b in d.bys:
                b["log"].clear()
            res = d.update(*pt)
            k = sp.solve_stage(t, m * (y + h * acc), p, h * a)
            mon.close(res.stage_update[d.perm], k, "recovered", f"evaluation after non-finite ones ({arch})", rtol=rt, atol=at)
            check_bystanders(mon, d.prob, d.bys, h, a, "evaluation after non-finite ones")
            good.append((pt, k, res))
            mon.count("recovered")
        else:
            pt, k, res = good[int(rng.integers(len(good)))]
            t, y, acc, p, h, a = pt
            jt, jy, jp = sp.jac(t, m * (y + h * acc) + h * a * k, p)
            S = np.eye(sp.n) - h * a * jy
            if rng.random() < 0.5:
                dy = rng.normal(size=sp.n)
                g = d.ode.compute_update_derivative(DiscretizedODEInputState(d.flat(dy), d.flat(np.zeros(sp.n)), np.zeros(sp.m), 0.0, res.linearization_point), h, a)
                mon.close(g.stage_update[d.perm], np.linalg.solve(S, jy @ (m * dy)), "recovered-fwd", f"derivative after non-finite evaluations ({arch})", rtol=100 * rt, atol=100 * at)
            else:
                w = rng.normal(size=sp.n)
                g = d.ode.compute_update_adjoint_derivative(DiscretizedODEResultState(d.flat(w), np.zeros(sp.n), np.zeros(0), res.linearization_point), h, a)
                mon.close(g.step_input[d.perm], m * (jy.T @ np.linalg.solve(S.T, w)), "recovered-rev", f"adjoint derivative after non-finite evaluations ({arch})", rtol=100 * rt, atol=100 * at)
            mon.count("recovered")
    mon.note(arch=arch)
    mon.distinct("poison", arch, len(sp.quants))


def key(rec):
    return (rec["t"], rec["h"], rec["a"], rec["old"].tobytes(), rec["acc"].tobytes(), rec["p"].tobytes())


def integrator(rng, mon):
    """What the components see during runs and products of the integrator."""
    arch = str(rng.choice(["explicit", "implicit", "nested", "ivc"]))
    sp = M.random_spec(rng)
    tab = M.pick_tableau(rng)[0]
    n, h = int(rng.integers(1, 7)), float(rng.uniform(0.02, 0.2))
    prob, probe = M.build_stage_problem(sp, arch, rng, record=True)
    bys = add_bystanders(rng, prob)
    ck = (AllCheckpointer, {}) if rng.random() < 0.5 else (PyrevolveCheckpointer, {"revolver_type": "Memory", "revolver_options": {"n_checkpoints": int(rng.integers(1, max(2, n)))}})
    qn = [q.name for q in sp.quants]
    rng.shuffle(qn)
    rig = Rig(sp, tab, n=n, h=h, stage=(prob, probe), ckpt=ck, quantities=qn)
    set_bystanders(rng, prob, bys)
    A, b, c, _ = rig.arr
    s = b.size
    m = sp.mask()
    for _ in range(int(rng.integers(1, 3))):
        t0, y0, p = random_state(rng, sp)
        probe.log.clear()
        for x in bys:
            x["log"].clear()
        rig.log.clear()
        rig.run(t0, y0, p)
        steps, _, _ = rig.ref(t0, y0, p, [h] * n)
        if len(probe.log) != n * s:
            # not wrong as such, but the evaluations cannot be attributed to stages
            mon.count("unattributed_runs")
            continue
        ev = [e for e in rig.log if e["list"] == "compute" and e["when"] == "after"]
        fi = rig.flat_index()
        for i, st in enumerate(steps):
            y, tt = ev[i]["y0"][fi], ev[i]["t0"]
            for j in range(s):
                rec = probe.log[i * s + j]
                what = f"step {i + 1}, stage {j + 1} ({arch}, {tab.name})"
                acc = A[j, :j] @ st.ks[:j] if j else np.zeros(sp.n)
                if sp.uses_time:
                    mon.close(rec["t"], tt + c[j] * h, "stage-time", what + ": time", rtol=1e-13, atol=1e-14)
                mon.require(np.array_equal(rec["old"], m * y), "stage-old", f"{what}: step start")
                mon.close(rec["acc"], m * acc, "stage-acc", what + ": accumulated stages", rtol=1e-9, atol=1e-11)
                mon.require(rec["h"] == h and rec["a"] == A[j, j], "stage-factors", f"{what}: step size {rec['h']}, stage factor {rec['a']} instead of {h}, {A[j, j]}")
                mon.require(np.array_equal(rec["p"], p), "stage-parameter", f"{what}: parameters")
                mon.count("seen_exactly")
                mon.count("values_seen")
                for x in bys:
                    d = x["log"][i * s + j]
                    mon.require(d["h"] == h and d["a"] == A[j, j] and np.array_equal(d["u"], x["u"]) and d["w"] == x["w"], "bystander", f"{what}: bystander saw {d}")
                    if x["tags"]:
                        mon.require(np.array_equal(d["o"], x["o"]) and np.array_equal(d["x"], x["x"]), "unlisted", f"{what}: quantity that is not integrated changed")
                    mon.count("bystanders_seen")
        points = {key(r) for r in probe.log}
        J = rig.ref_jac(steps, p)
        for mode in rng.permutation(["fwd", "rev"]):
            probe.lin_log.clear()
            v = rng.normal(size=J.shape[1] if mode == "fwd" else J.shape[0])
            got = rig.fwd(v) if mode == "fwd" else rig.rev(v)
            mon.close(got, J @ v if mode == "fwd" else J.T @ v, "product", f"{mode} product ({arch}, {tab.name})", rtol=1e-7, atol=1e-9, scale=1 + float(np.linalg.norm(J) * np.linalg.norm(v)))
            lp = {key(r) for r in probe.lin_log}
            mon.require(lp <= points, "linearisation-points", f"{mode} product linearised the stage problem at {len(lp - points)} points where no stage was computed")
            mon.count("linearisations_seen", len(lp))
            mon.count("derivatives")
        mon.count("evaluations", n * s)
    mon.note(arch=arch, tableau=tab.name, n=n, quants=[(q.name, q.shape, q.has_input) for q in sp.quants])
    mon.distinct("integrator", arch, tab.name, n, ck[0].__name__)


def run(kind, idx, rng, mon, tier):
    {"ode": ode_kind, "poison": poison, "integrator": integrator}[kind](rng, mon)
