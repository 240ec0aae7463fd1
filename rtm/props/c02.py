"""C02: the integrated outputs are the composition of scheme steps."""

import numpy as np
import openmdao.api as om

from rtm import model as M
from rtm.rig import Rig, AllCheckpointer, NoCheckpointer, checkpoint_choice, far_clock, random_state

KINDS = {"run": (400, 2500), "long": (12, 60), "defaults": (160, 800)}
MIN_EVENTS = {"integrations": 100, "steps": 500, "multi_quantity": 30, "with_params": 30, "defaulted": 60}
RULE = ("random inner OpenMDAO stage problem (5 architectures, shuffled variable order, 1-3 quantities incl. ones without "
        "own history, 0-2 parameters, shapes up to 3-D) x shipped/random tableau x 1-12 fixed steps (long: 60-200) x random start "
        "time; distinct = (architecture, tableau, #quantities, #parameters, #steps, checkpointing)")
RULE += "; defaults: initial values and parameters that nobody sets come from the stage problem's declarations, its own sources or its group's input defaults"
ASSUMPTIONS = ["inner problems converge to ~1e-13"]


class Declared(M.MonoExplicit):
    """Stage model whose inputs are declared with values."""

    def initialize(self):
        super().initialize()
        self.options.declare("declared")

    def add_input(self, name, **kw):
        if name in self.options["declared"]:
            kw.pop("shape", None)
            kw["val"] = self.options["declared"][name]
        return super().add_input(name, **kw)


def defaults(rng, mon):
    """Inputs of the integrator that nobody sets."""
    sp = M.random_spec(rng)
    tab, label = M.pick_tableau(rng)
    n, h = int(rng.integers(1, 5)), float(rng.uniform(0.02, 0.2))
    y0, p = rng.normal(size=sp.n), rng.normal(size=sp.m)
    declared = {}
    for q in sp.quants:
        if q.has_input:
            declared[q.name + "_old"] = y0[sp.slices()[q.name]].reshape(q.shape)
        else:
            y0[sp.slices()[q.name]] = 0.0
    for q in sp.indeps:
        declared[q.name] = p[sp.slices("indeps")[q.name]].reshape(q.shape)
    how = str(rng.choice(["declared", "source", "group"]))
    stage, probe = om.Problem(), M.Probe(sp)
    if how == "declared":
        stage.model.add_subsystem("ode", Declared(probe=probe, declared=declared), promotes=["*"] if rng.random() < 0.5 else [])
    elif how == "source":
        ivc = stage.model.add_subsystem("ivc", om.IndepVarComp())
        stage.model.add_subsystem("ode", M.MonoExplicit(probe=probe))
        for k, v in declared.items():
            ivc.add_output("src_" + k, val=v)
            stage.model.connect("ivc.src_" + k, "ode." + k)
        if not declared:
            ivc.add_output("unused", val=1.0)
    else:
        stage.model.add_subsystem("ode", M.MonoExplicit(probe=probe), promotes=["*"])
        for k, v in declared.items():
            stage.model.set_input_defaults(k, val=v)
    rig = Rig(sp, tab, n=n, h=h, stage=(stage, probe))
    mon.note(how=how, tableau=label, quantities=[(q.name, q.shape, q.has_input) for q in sp.quants], params=[(q.name, q.shape) for q in sp.indeps])
    t0 = 0.0
    for q in sp.quants:
        if rng.random() < 0.2:      # set by the user after all
            v = rng.normal(size=q.shape)
            rig.prob.set_val(q.name + "_initial", v)
            y0[sp.slices()[q.name]] = v.ravel()
    if rng.random() < 0.3:
        t0 = float(rng.normal())
        rig.prob.set_val("time_initial", t0)
    rig.prob.run_model()
    for q in sp.quants:
        mon.close(rig.prob.get_val(q.name + "_initial").ravel(), y0[sp.slices()[q.name]], "default-initial", f"initial value of {q.name} ({how})", rtol=0, atol=0)
    for q in sp.indeps:
        mon.close(rig.prob.get_val(q.name).ravel(), p[sp.slices("indeps")[q.name]], "default-parameter", f"parameter {q.name} ({how})", rtol=0, atol=0)
    _, tr, yr = rig.ref(t0, y0, p, [h] * n)
    tf, yf = rig.outputs()
    mon.close(tf, tr, "final-time", "final time of a run with default inputs", rtol=1e-11, atol=1e-12)
    mon.close(yf, yr, "final-values", f"final values of a run with default inputs ({how})", rtol=1e-10, atol=1e-12, scale=1 + float(np.max(np.abs(yr))))
    mon.count("defaulted")
    mon.distinct("defaults", how, label, len(sp.quants), len(sp.indeps))


def run(kind, idx, rng, mon, tier):
    if kind == "defaults":
        return defaults(rng, mon)
    tab, label = M.pick_tableau(rng)
    arch = M.ARCHS[idx % len(M.ARCHS)]
    if kind == "long":
        n, h = int(rng.integers(60, 200)), float(rng.uniform(0.002, 0.02))
        sp = M.random_spec(rng, nq=2, max_size=2)
        tab, label = M.pick_tableau(rng, p_random=0.0)
        arch = "explicit"
    else:
        n, h = int(rng.integers(1, 13)), float(10 ** rng.uniform(-2.5, -0.7)) * (-1.0 if rng.random() < 0.1 else 1.0)
        sp = M.random_spec(rng, scaled=0.15)
    r0 = rng.random()
    ck = ("none", NoCheckpointer, {}) if r0 < 0.3 else ("all", AllCheckpointer, {}) if r0 < 0.6 else checkpoint_choice(rng, n)
    qs = [q.name for q in sp.quants]
    rng.shuffle(qs)
    rig = Rig(sp, tab, n=n, h=h, arch=arch, rng=rng, ckpt=ck[1:], quantities=list(qs), promotes=bool(rng.random() < 0.5))
    mon.note(tableau=label, arch=arch, quantities=[(q.name, q.shape, q.has_input) for q in sp.quants], steps=n, h=h, ckpt=ck[0],
             params=[(q.name, q.shape) for q in sp.indeps])
    for rep in range(1 if kind == "long" else 2):
        t0, y0, p = random_state(rng, sp)
        t0, far = far_clock(rng, sp, t0)
        if far:
            mon.count("far_clocks")
        rig.log.clear()
        steps, tr, yr = rig.ref(t0, y0, p, [h] * n)
        tf, yf = rig.run(t0, y0, p)
        sc = max(1.0, float(np.max(np.abs([s.y1 for s in steps]))))
        tol = dict(rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(tf, t0 + n * h, "final-time", "time_final is time_initial plus the steps", rtol=1e-11, atol=1e-12)
        mon.close(yf, yr, "final-values", f"final values after {n} steps of {label} ({arch})", **tol)
        # intermediate states seen by callbacks follow the same trajectory
        aft = [e for e in rig.log if e["list"] == "compute" and e["when"] == "after"]
        mon.require(len(aft) == n, "steps-taken", f"{len(aft)} steps observed, {n} requested")
        fi = rig.flat_index()
        for k, (e, s) in enumerate(zip(aft, steps)):
            mon.close(e["y1"][fi], s.y1, "trajectory", f"state after step {k + 1}", **tol)
            mon.close(e["t1"], s.t + s.h, "trajectory-time", f"time after step {k + 1}", rtol=1e-11, atol=1e-12)
        mon.count("integrations")
        mon.count("steps", n)
        # inputs are not altered by running
        for q in sp.quants:
            mon.close(rig.prob.get_val(rig.pre + q.name + "_initial").ravel(), y0[sp.slices()[q.name]], "inputs-kept",
                      "initial values unchanged by the run", rtol=0, atol=0)
        for q in sp.indeps:
            mon.close(rig.prob.get_val(rig.pre + q.name).ravel(), p[sp.slices("indeps")[q.name]], "inputs-kept",
                      "parameters unchanged by the run", rtol=0, atol=0)
    if len(sp.quants) > 1:
        mon.count("multi_quantity")
    if sp.indeps:
        mon.count("with_params")
    mon.distinct(arch, label, len(sp.quants), len(sp.indeps), n, ck[0])
