"""A test rig: outer OpenMDAO problem around one RungeKuttaIntegrator, plus
recording plug-ins attached only through the integrator's public options."""

from __future__ import annotations

import copy

import numpy as np
import openmdao.api as om

from rkopenmdao.callback import Callback
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from rtm import model as M
from rtm.core import Budget


class TList(list):
    """Event list that also appends to a shared, totally ordered log."""

    def __init__(self, shared):
        super().__init__()
        self.shared = shared

    def append(self, ev):
        super().append(ev)
        self.shared.append(ev)


class RecordingCallback(Callback):
    """Event log of one callback list."""

    def __init__(self, log, name, cap=20000, hook=None):
        self.log = log
        self.name = name
        self.cap = cap
        self.hook = hook

    def _ev(self, when, iteration, st):
        d = st.discretization_state
        ev = {
            "list": self.name, "when": when, "it": int(iteration),
            "t0": float(d.start_time[0]), "t1": float(d.final_time[0]),
            "y0": np.array(d.start_state), "y1": np.array(d.final_state),
            "hist": np.array(st.step_size_history), "err": np.array(st.error_history),
            "sugg": np.array(st.step_size_suggestion),
            "p": np.array(d.independent_inputs),
        }
        if hasattr(d, "error_estimate"):
            ev["est"] = np.array(d.error_estimate)
            ev["emb"] = np.array(d.embedded_state)
        self.log.append(ev)
        if len(self.log) > self.cap:
            raise Budget("step cap exceeded: the integration does not terminate")
        if self.hook:
            self.hook(ev, st)

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.ode = ode
        self._ev("before", iteration, time_integration_state)

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self._ev("after", iteration, time_integration_state)


class RecController(ErrorController):
    """Delegating controller that records every decision."""

    def __init__(self, inner, log, cap=20000):
        super().__init__(alpha=0.0, config=inner.config)
        self.inner_ctrl = inner
        self.ctrl_log = log
        self.cap = cap

    def __call__(self, *, error_measure, delta_t, remaining_time, error_history, step_size_history):
        ev = {"kind": "ctrl", "err": float(error_measure), "dt": float(delta_t), "rem": float(np.ravel(remaining_time)[0]),
              "eh": np.array(error_history), "sh": np.array(step_size_history)}
        try:
            st = self.inner_ctrl(error_measure=error_measure, delta_t=delta_t, remaining_time=remaining_time,
                                 error_history=error_history, step_size_history=step_size_history)
        except Exception as e:
            ev.update(sugg=None, acc=False, raised=type(e).__name__)
            self.ctrl_log.append(ev)
            raise
        ev["sugg"] = float(np.ravel(st.step_size_suggestion)[0])
        ev["acc"] = bool(st.acceptance)
        self.ctrl_log.append(ev)
        if len(self.ctrl_log) > self.cap:
            raise Budget("attempt cap exceeded: adaptive integration makes no progress")
        return st

    def reset(self):
        f = getattr(self.inner_ctrl, "reset", None)
        if callable(f):
            f()

    def __str__(self):
        return str(self.inner_ctrl)


class RecMeasurer(ErrorMeasurer):
    def __init__(self, inner, log):
        self.inner = inner
        self.log = log

    def get_measure(self, state_error_estimate, state, ode):
        v = self.inner.get_measure(state_error_estimate, state, ode)
        self.log.append({"kind": "meas", "est": np.array(state_error_estimate.stage_state),
                         "y": np.array(state.stage_state), "val": float(v)})
        return v


def rec_factory(lib, log):
    def make(p, base=None, **kw):
        return RecController(lib(p, base=base, **kw), log)
    return make


CHECKPOINTS = {
    "all": (AllCheckpointer, {}),
    "none": (NoCheckpointer, {}),
}


def checkpoint_choice(rng, n, allow_multilevel=False):
    """A random legal checkpointing configuration for n steps."""
    r = rng.random()
    if r < 0.2:
        return "all", AllCheckpointer, {}
    typ = str(rng.choice(["Memory", "Disk", "SingleLevel"]))
    opts = {}
    if rng.random() < 0.7:
        opts["n_checkpoints"] = int(rng.integers(1, max(2, min(n, 8))))
    return f"pyrevolve:{typ}:{opts.get('n_checkpoints')}", PyrevolveCheckpointer, {"revolver_type": typ, "revolver_options": opts}


class Rig:
    """One outer problem + integrator + reference helpers."""

    def __init__(self, sp, tab, *, n=None, T=None, h=0.1, arch="explicit", adaptive=False, ckpt=(AllCheckpointer, {}),
                 controllers=None, ctrl_cfg=None, measurer=None, termination=None, callbacks=True, rng=None, promotes=True,
                 extra=None, probe_kw=None, quantities=None, stage=None, setup=True, model_hook=None, cap=20000, mode="auto"):
        self.sp, self.tab = sp, tab
        self.arr = M.tab_arrays(tab)
        self.trace = []             # everything, in order
        self.log = TList(self.trace)    # callback events
        self.actl = TList(self.trace)   # controller / measurer events
        self.h = h
        if stage is None:
            self.stage, self.probe = M.build_stage_problem(sp, arch, rng, **(probe_kw or {}))
        else:
            self.stage, self.probe = stage
        term = termination if termination is not None else (
            PredefinedNumberOfSteps(n) if n is not None else PredefinedFinalTime(T))
        self.term = term
        self.config = IntegrationConfig(use_adaptive_time_stepping=adaptive, termination_criterion=term, initial_step_size=h)
        self.cbs = [RecordingCallback(self.log, w, cap) for w in ("compute", "fwd", "rev")]
        kw = dict(
            time_stage_problem=self.stage, butcher_tableau=tab, integration_config=self.config,
            time_integration_quantities=quantities or [q.name for q in sp.quants],
            time_independent_input_quantities=[q.name for q in sp.indeps],
            checkpointing_type=ckpt[0], checkpoint_options=ckpt[1],
            compute_callbacks=[self.cbs[0]] if callbacks else [],
            compute_jacvec_product_fwd_callbacks=[self.cbs[1]] if callbacks else [],
            compute_jacvec_product_rev_callbacks=[self.cbs[2]] if callbacks else [],
        )
        if adaptive:
            ctrls = controllers or [integral]
            kw["error_controller"] = list(ctrls[:-1]) + [rec_factory(ctrls[-1], self.actl)]
            if ctrl_cfg is not None:
                kw["error_controller_options"] = {"config": ctrl_cfg}
            kw["error_measurer"] = RecMeasurer(measurer or SimpleErrorMeasurer(), self.actl)
        kw.update(extra or {})
        self.integrator = RungeKuttaIntegrator(**kw)
        self.prob = om.Problem()
        self.prob.model.add_subsystem("rk", self.integrator, promotes=["*"] if promotes else [])
        self.pre = "" if promotes else "rk."
        if model_hook:
            model_hook(self.prob.model)
        if setup:
            self.prob.setup(mode=mode)
            self.prob.final_setup()

    # -- inputs -----------------------------------------------------------
    def set_inputs(self, t0, y0, p):
        pr = self.prob
        pr.set_val(self.pre + "time_initial", t0)
        for q in self.sp.quants:
            pr.set_val(self.pre + q.name + "_initial", y0[self.sp.slices()[q.name]].reshape(q.shape))
        for q in self.sp.indeps:
            pr.set_val(self.pre + q.name, p[self.sp.slices("indeps")[q.name]].reshape(q.shape))

    def run(self, t0, y0, p):
        self.set_inputs(t0, y0, p)
        self.prob.run_model()
        return self.outputs()

    def outputs(self):
        y = np.zeros(self.sp.n)
        for q in self.sp.quants:
            v = self.prob.get_val(self.pre + q.name + "_final")
            if tuple(v.shape) != tuple(q.shape):
                from rtm.core import Violation
                raise Violation("output-shape", f"{q.name}_final has shape {v.shape}, expected {q.shape}")
            y[self.sp.slices()[q.name]] = v.ravel()
        return float(self.prob.get_val(self.pre + "time_final")[0]), y

    # -- derivatives ------------------------------------------------------
    def of(self):
        return ["rk.time_final"] + ["rk." + q.name + "_final" for q in self.sp.quants]

    def wrt(self):
        return (["rk.time_initial"] + ["rk." + q.name + "_initial" for q in self.sp.quants]
                + ["rk." + q.name for q in self.sp.indeps])

    def _shapes(self):
        return [(1,)] + [q.shape for q in self.sp.quants]

    def fwd(self, v):
        """J v through OpenMDAO's public jacobian-vector API."""
        sp = self.sp
        seed, o = {}, 0
        for name, shp in zip(self.wrt(), [(1,)] + [q.shape for q in sp.quants] + [q.shape for q in sp.indeps]):
            s = int(np.prod(shp))
            seed[name] = v[o:o + s].reshape(shp)
            o += s
        r = self.prob.compute_jacvec_product(self.of(), self.wrt(), "fwd", seed)
        return np.concatenate([np.ravel(r[k]) for k in self.of()])

    def rev(self, w):
        sp = self.sp
        seed, o = {}, 0
        for name, shp in zip(self.of(), self._shapes()):
            s = int(np.prod(shp))
            seed[name] = w[o:o + s].reshape(shp)
            o += s
        r = self.prob.compute_jacvec_product(self.of(), self.wrt(), "rev", seed)
        return np.concatenate([np.ravel(r[k]) for k in self.wrt()])

    # -- layout -----------------------------------------------------------
    def flat_index(self):
        """Positions of the spec's entries inside the flattened state, as published by the ODE's metadata."""
        cb = self.cbs[0]
        idx = np.zeros(self.sp.n, int)
        sl = self.sp.slices()
        for q in cb.ode.time_integration_metadata.time_integration_quantity_list:
            idx[sl[q.name]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
        return idx

    # -- reference --------------------------------------------------------
    def ref(self, t0, y0, p, hs):
        return M.ref_run(self.sp, self.arr, t0, y0, p, hs)

    def ref_jac(self, steps, p):
        return M.ref_jacobian(self.sp, self.arr, steps, p)

    def accepted(self, which="compute"):
        """Accepted step sizes, recomputed from the event log of one list."""
        return [e["t1"] - e["t0"] for e in self.log if e["list"] == which and e["when"] == "after"]


def far_clock(rng, sp, t0, share=0.35):
    """For ODEs that ignore the time: start times that are large in comparison with the step sizes."""
    if sp.uses_time or rng.random() >= share:
        return t0, False
    return t0 + float(rng.choice([-1.0, 1.0]) * 10 ** rng.uniform(4, 9)), True


def random_state(rng, sp):
    t, y, p = float(rng.normal()), sp.scale * rng.normal(size=sp.n), rng.normal(size=sp.m)
    u = rng.random(3)
    if sp.rest:
        return t, 0.0 * y, 0.0 * p
    if u[0] < 0.1:
        t = 0.0
    if u[1] < 0.05:
        y = 0.0 * y
    if u[2] < 0.05:
        p = 0.0 * p
    return t, y, p
