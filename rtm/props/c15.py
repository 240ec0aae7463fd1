"""C15: ill-posed setups are refused at setup, well-posed ones are accepted."""

import numpy as np
import openmdao.api as om

from rkopenmdao import butcher_tableaux as BT
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.callback import IterationLogging
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.error_controllers import h0_211, integral
from rkopenmdao.error_measurer import ImprovedErrorMeasurer
from rkopenmdao.errors import SetupError
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from rtm import model as M
from rtm.core import Violation

KINDS = {"valid": (660, 2200), "tags": (1500, 5000), "options": (750, 2500)}
MIN_EVENTS = {"accepted": 70, "refused": 250, "run_ok": 70}
RULE = ("random well-posed setups (1-4 quantities with or without own inputs, parameters, tag orders, unrelated tags, untagged variables, variables spread over components, equal-size shapes, all option "
        "combinations) must set up and integrate to the reference result; the same setups with exactly one injected defect (21 tag defects, 14 option defects) must be refused by an explicit error "
        "before any stage is evaluated; distinct = (defect, #quantities, position)")


class TagComp(om.ExplicitComponent):
    """One component whose variables are declared from a table."""

    def initialize(self):
        self.options.declare("table")
        self.options.declare("spec")
        self.options.declare("counter")

    def setup(self):
        for d in self.options["table"]:
            (self.add_input if d["io"] == "i" else self.add_output)(d["name"], shape=d["shape"], tags=list(d["tags"]))

    def compute(self, inputs, outputs):
        sp = self.options["spec"]
        self.options["counter"][0] += 1
        t = 0.0
        y, p = np.zeros(sp.n), np.zeros(sp.m)
        for d in self.options["table"]:
            if d["role"] == "time":
                t = inputs[d["name"]].ravel()[0]
            elif d["role"] in ("step", "acc") and d["quant"] in sp.slices():
                v = np.resize(inputs[d["name"]].ravel(), y[sp.slices()[d["quant"]]].size)
                y[sp.slices()[d["quant"]]] += v if d["role"] == "step" else H * v
            elif d["role"] == "par" and d["quant"] in sp.slices("indeps"):
                p[sp.slices("indeps")[d["quant"]]] = np.resize(inputs[d["name"]].ravel(), p[sp.slices("indeps")[d["quant"]]].size)
        k = sp.f(t, y, p)
        for d in self.options["table"]:
            if d["io"] == "o":
                v = k[sp.slices()[d["quant"]]] if d["quant"] in sp.slices() else np.ones(int(np.prod(d["shape"])))
                outputs[d["name"]] = np.resize(v, d["shape"])


H = 0.05


def row(io, name, shape, tags, role, quant=None):
    return {"io": io, "name": name, "shape": tuple(shape), "tags": list(tags), "role": role, "quant": quant}


def eq_shape(rng, q):
    """Another shape of the same size."""
    if rng.random() < 0.8:
        return q.shape
    return tuple(rng.permutation(list(q.shape) + [1]).tolist()) if rng.random() < 0.5 else (q.size,)


def table_for(rng, sp):
    rows = []
    if sp.uses_time:
        rows.append(row("i", "tm", (1,), ["time_variable"], "time"))
    for q in sp.quants:
        if q.has_input:
            rows.append(row("i", f"{q.name}_s", eq_shape(rng, q), [q.name, "step_input_var"], "step", q.name))
            rows.append(row("i", f"{q.name}_a", eq_shape(rng, q), [q.name, "accumulated_stage_var"], "acc", q.name))
        rows.append(row("o", f"{q.name}_k", q.shape, [q.name, "stage_output_var"], "out", q.name))
    for q in sp.indeps:
        rows.append(row("i", f"{q.name}_p", q.shape, [q.name, "time_independent_input_var"], "par", q.name))
    for i in range(int(rng.integers(0, 3))):
        rows.append(row("i" if rng.random() < 0.5 else "o", f"other{i}", (int(rng.integers(1, 3)),), ["unrelated"] if rng.random() < 0.5 else [], "none"))
    if rng.random() < 0.3:
        # tags of somebody else that resemble those of requested quantities
        q = sp.quants[int(rng.integers(len(sp.quants)))]
        near = str(rng.choice([q.name + "_x", q.name + "s", q.name[:-1] or "q", q.name.upper() + "_", "my_" + q.name]))
        role = str(rng.choice(["stage_output_var", "step_input_var", "accumulated_stage_var", "time_independent_input_var"]))
        if near not in [x.name for x in sp.quants + sp.indeps]:
            rows.append(row("o" if role == "stage_output_var" else "i", "decoy", q.shape, [near, role], "none"))
        if rng.random() < 0.5:
            rows.append(row("i", "decoy_time", (2,), [misspelled(rng, "time_variable")], "none"))
    for d in rows:
        if rng.random() < 0.3:
            d["tags"].append("user_tag_" + str(rng.integers(9)))
        d["tags"] = [d["tags"][i] for i in rng.permutation(len(d["tags"]))]
    return [rows[i] for i in rng.permutation(len(rows))]


def misspelled(rng, tag):
    return str(rng.choice([tag + "s", tag + "_old", tag + "iable", tag[:-1], tag.upper(), "my_" + tag, tag.replace("_", "-"), " " + tag]))


def find(rng, rows, role):
    c = [d for d in rows if d["role"] == role]
    return c[int(rng.integers(len(c)))] if c else None


def retag(d, old, new):
    d["tags"] = [t for t in d["tags"] if t not in old] + list(new)


def tag_defect(rng, sp, rows, quants, pars):
    """Injects one defect; returns its name or None if not applicable."""
    name = str(rng.choice(["no-output", "no-step", "no-acc", "dup-output", "dup-step", "dup-acc", "absent-quantity", "absent-parameter", "parameter-without-role",
                           "dup-parameter", "output-without-role", "output-two-quantities", "step-two-quantities", "acc-two-quantities", "two-roles", "time-vector",
                           "two-times", "size-step", "size-acc", "implicit", "misspelled-role", "misspelled-role", "misspelled-quantity"]))
    st, ac, out, par = (find(rng, rows, r) for r in ("step", "acc", "out", "par"))
    tm = find(rng, rows, "time")
    if name == "no-output":
        rows.remove(out)
    elif name in ("no-step", "no-acc"):
        d = st if name == "no-step" else ac
        if d is None:
            return None
        rows.remove(d)
    elif name.startswith("dup-"):
        d = {"output": out, "step": st, "acc": ac, "parameter": par}[name[4:]]
        if d is None:
            return None
        for i in range(int(rng.choice([1, 1, 2, 3]))):
            rows.insert(int(rng.integers(len(rows) + 1)), dict(d, name=f"{d['name']}{i + 2}", tags=list(d["tags"])))
    elif name == "absent-quantity":
        quants.insert(int(rng.integers(len(quants) + 1)), "nowhere")
    elif name == "absent-parameter":
        pars.insert(int(rng.integers(len(pars) + 1)), "nowhere")
    elif name == "parameter-without-role":
        if par is None:
            return None
        retag(par, ["time_independent_input_var"], [])
    elif name == "output-without-role":
        retag(out, ["stage_output_var"], [])
    elif name == "output-two-quantities":
        others = [q for q in quants if q != out["quant"]]
        if not others:
            return None
        retag(out, [], [str(rng.choice(others))])
    elif name in ("step-two-quantities", "acc-two-quantities"):
        # one variable serves two quantities, each of which is complete on its own
        role = name[:4].rstrip("-")
        full = [q for q in sp.quants if q.has_input]
        if len(full) < 2:
            return None
        i, j = rng.permutation(len(full))[:2]
        a = next(d for d in rows if d["role"] == role and d["quant"] == full[i].name)
        b = next(d for d in rows if d["role"] == role and d["quant"] == full[j].name)
        if np.prod(a["shape"]) != np.prod(b["shape"]):
            return None
        rows.remove(b)
        retag(a, [], [full[j].name])
    elif name == "two-roles":
        cand = [d for d in (st, ac) if d]
        if not cand:
            return None
        d = cand[int(rng.integers(len(cand)))]
        retag(d, [], ["accumulated_stage_var" if d["role"] == "step" else "step_input_var"])
    elif name == "time-vector":
        if tm is None:
            return None
        tm["shape"] = (2,) if rng.random() < 0.5 else (1, 3)
    elif name == "two-times":
        if tm is None:
            return None
        for i in range(int(rng.choice([1, 1, 2]))):
            rows.append(row("i", f"tm{i + 2}", (1,), ["time_variable"], "none"))
    elif name in ("size-step", "size-acc"):
        d = st if name == "size-step" else ac
        if d is None:
            return None
        n = int(np.prod(d["shape"]))
        new = [k for k in (n + 1, 2 * n, n - 1, 1) if k > 0 and k != n]
        d["shape"] = (int(rng.choice(new)),)
    elif name == "misspelled-role":
        d = [x for x in (st, ac, out, par) if x]
        d = d[int(rng.integers(len(d)))]
        role = {"step": "step_input_var", "acc": "accumulated_stage_var", "out": "stage_output_var", "par": "time_independent_input_var"}[d["role"]]
        retag(d, [role], [misspelled(rng, role)])
    elif name == "misspelled-quantity":
        d = [x for x in (st, ac, out, par) if x]
        d = d[int(rng.integers(len(d)))]
        new = misspelled(rng, d["quant"])
        if not new or new in quants + pars:
            return None     # happens to be the name of another quantity
        retag(d, [d["quant"]], [new])
    elif name == "implicit":
        pass
    return name


def full_tableau(rng):
    s = int(rng.integers(2, 5))
    A = np.tril(rng.normal(size=(s, s)))
    i = int(rng.integers(0, s - 1))
    A[i, int(rng.integers(i + 1, s))] = float(rng.choice([1e-3, -0.5, 1.0]))
    b = np.full(s, 1.0 / s)
    if rng.random() < 0.5:
        return EmbeddedButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_adaptive_weights=b, butcher_time_stages=A.sum(1), p=1, phat=1)
    return ButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=A.sum(1), p=1)


def stage(rng, sp, rows, counter):
    prob = om.Problem()
    comp = TagComp(table=rows, spec=sp, counter=counter)
    r = rng.random()
    if r < 0.4:
        prob.model.add_subsystem("c", comp, promotes=["*"])
    elif r < 0.7:
        prob.model.add_subsystem("c", comp)
    else:
        prob.model.add_subsystem("g", om.Group()).add_subsystem("c", comp, promotes=["*"])
    return prob


def attempt(kw):
    """Construct, set up; returns (problem, None) or (None, error)."""
    prob = om.Problem()
    try:
        prob.model.add_subsystem("rk", RungeKuttaIntegrator(**kw))
        prob.setup()
        prob.final_setup()
    except Exception as e:  # pylint: disable=broad-except
        return None, e
    return prob, None


def good_options(rng, n):
    kw = {}
    if rng.random() < 0.5:
        kw["checkpointing_type"] = AllCheckpointer
    elif rng.random() < 0.5:
        kw["checkpointing_type"], kw["checkpoint_options"] = PyrevolveCheckpointer, {"revolver_type": str(rng.choice(["Memory", "SingleLevel"])), "revolver_options": {}}
    else:
        kw["checkpointing_type"] = NoCheckpointer
    if rng.random() < 0.3:
        kw["compute_callbacks"] = None if rng.random() < 0.5 else [IterationLogging("x")]
    else:
        kw["compute_callbacks"] = []
    if rng.random() < 0.3:
        kw["error_controller"] = [integral, h0_211]
    if rng.random() < 0.3:
        kw["error_measurer"] = ImprovedErrorMeasurer()
    return kw


BAD = ["time_stage_problem", "butcher_tableau", "integration_config", "time_integration_quantities", "time_independent_input_quantities", "checkpointing_type", "checkpoint_options",
       "error_controller", "error_controller_factory", "error_controller_options", "error_measurer", "compute_callbacks", "fwd_callbacks", "adaptive-without-embedded", "implicit-tableau",
       "revolver-type", "online-revolve"]


def run(kind, idx, rng, mon, tier):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 5)), max_size=3)
    if rng.random() < 0.25:
        sp.quants[int(rng.integers(len(sp.quants)))].has_input = False
        mask = sp.mask()
        sp.A, sp.C = sp.A * mask[None, :], sp.C * mask[None, :]
    rows = table_for(rng, sp)
    quants = [sp.quants[i].name for i in rng.permutation(len(sp.quants))]
    pars = [sp.indeps[i].name for i in rng.permutation(len(sp.indeps))]
    counter = [0]
    n = int(rng.integers(1, 5))
    expl = [k for k, t in M.shipped().items() if t.is_explicit()]
    tab = M.shipped()[expl[int(rng.integers(len(expl)))]] if rng.random() < 0.6 else M.random_tableau(rng, kind="erk")
    adaptive = bool(rng.random() < 0.3) and tab.is_embedded
    term = PredefinedNumberOfSteps(n)
    kw = good_options(rng, n)
    if kw["checkpointing_type"] is not PyrevolveCheckpointer and rng.random() < 0.2:
        term = PredefinedFinalTime(n * H)
    defect = None
    allowed = (SetupError,)
    if kind == "tags":
        defect = tag_defect(rng, sp, rows, quants, pars)
        if defect == "implicit":
            tab = full_tableau(rng)
        if not rows or not any(d["io"] == "o" for d in rows):
            allowed = (SetupError, ValueError, RuntimeError)
    kw.update(time_stage_problem=stage(rng, sp, rows, counter), butcher_tableau=tab, integration_config=IntegrationConfig(adaptive, term, H),
              time_integration_quantities=quants, time_independent_input_quantities=pars)
    if kind == "options":
        allowed = (TypeError, ValueError)
        defect = BAD[int(rng.integers(len(BAD)))]
        junk = [3, 2.5, object(), "text", np.eye(2), {"a": 1}, [1], None, int, (1, 2)]
        ok = {"time_integration_quantities": list, "time_independent_input_quantities": list, "checkpoint_options": dict, "error_controller_options": dict, "compute_callbacks": (list, type(None)),
              "fwd_callbacks": (list, type(None))}
        key = {"fwd_callbacks": "compute_jacvec_product_fwd_callbacks", "error_controller_factory": "error_controller"}.get(defect, defect)
        if defect == "adaptive-without-embedded":
            pool = [t for t in M.shipped().values() if not t.is_embedded]
            kw["butcher_tableau"] = pool[int(rng.integers(len(pool)))]
            kw["integration_config"] = IntegrationConfig(True, term, H)
            allowed = (SetupError,)
        elif defect == "implicit-tableau":
            kw["butcher_tableau"] = full_tableau(rng)
            allowed = (SetupError,)
        elif defect == "revolver-type":
            kw["checkpointing_type"], kw["checkpoint_options"] = PyrevolveCheckpointer, {"revolver_type": str(rng.choice(["memory", "", "Multi", "None", "Tape"]))}
            kw["integration_config"] = IntegrationConfig(adaptive, PredefinedNumberOfSteps(n), H)
        elif defect == "online-revolve":
            kw["checkpointing_type"], kw["checkpoint_options"] = PyrevolveCheckpointer, {}
            kw["integration_config"] = IntegrationConfig(adaptive, PredefinedFinalTime(1.0), H)
        elif defect == "error_controller":
            kw[key] = [integral, [3, "x", None, 2.0][int(rng.integers(4))]]
        elif defect == "error_controller_factory":
            kw[key] = [integral, lambda p, **k: 3.0]
        else:
            v = junk[int(rng.integers(len(junk)))]
            if defect in ok and isinstance(v, ok[defect]):
                v = 7
            kw[key] = v
    prob, err = attempt(kw)
    mon.note(defect=defect, quantities=quants, parameters=pars, tableau=tab.name)
    if defect is None:
        if err is not None:
            raise Violation("refused-valid", f"well-posed setup refused: {type(err).__name__}: {err}", table=rows, quants=quants, pars=pars)
        mon.count("checks")
        mon.count("accepted")
        t0, y0, p = 0.0, rng.normal(size=sp.n), rng.normal(size=sp.m)
        for q in sp.quants:
            prob.set_val(f"rk.{q.name}_initial", y0[sp.slices()[q.name]].reshape(q.shape))
        for q in sp.indeps:
            prob.set_val(f"rk.{q.name}", p[sp.slices("indeps")[q.name]].reshape(q.shape))
        if not adaptive:
            prob.run_model()
            tN = float(prob.get_val("rk.time_final")[0])
            steps = int(round(tN / H))
            _, tr, yr = M.ref_run(sp, M.tab_arrays(tab), t0, y0, p, [H] * steps)
            y = np.concatenate([prob.get_val(f"rk.{q.name}_final").ravel() for q in sp.quants])
            mon.close(y, yr, "valid-result", "result of a well-posed setup", rtol=1e-9, atol=1e-10)
            mon.require(counter[0] > 0, "stages", "no stage was evaluated")
            mon.count("run_ok")
        mon.distinct("valid", len(quants), len(pars), sp.uses_time, tab.name)
        return
    if err is None:
        raise Violation("accepted-" + defect, f"ill-posed setup ({defect}) was accepted", table=rows, quants=quants, pars=pars, option=repr(kw.get(defect)))
    mon.require(isinstance(err, allowed), "error-type", f"ill-posed setup ({defect}) ended in {type(err).__name__}: {err}, expected {[a.__name__ for a in allowed]}", table=rows)
    mon.require(counter[0] == 0, "before-integrating", f"{counter[0]} stages were evaluated before the refusal of {defect}")
    mon.count("refused")
    mon.distinct(defect, len(quants), len(pars))
