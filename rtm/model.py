"""Independent reference model: ODE family with analytic Jacobians, a textbook
Runge-Kutta step, its tangent, and OpenMDAO / plain-Python realisations of the
same ODE that can be handed to rkopenmdao.

Nothing in here imports numerics from rkopenmdao: only base classes that the
library requires for plugging in a user problem.
"""

from __future__ import annotations

from dataclasses import dataclass, field

import numpy as np
import openmdao.api as om

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE,
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)
from rkopenmdao.utils.utility_components import StageValueComponent

from rtm.core import Budget, HarnessError, Planned, Skip


# --------------------------------------------------------------------------
# The mathematics
# --------------------------------------------------------------------------
@dataclass
class Quant:
    name: str
    shape: tuple
    has_input: bool = True

    @property
    def size(self):
        return int(np.prod(self.shape))


@dataclass
class Spec:
    """y' = A y + N tanh(C y + D p + w t + c0) + E p + G sin(om t + ph)."""

    quants: list
    indeps: list  # of Quant
    A: np.ndarray = None
    N: np.ndarray = None
    C: np.ndarray = None
    D: np.ndarray = None
    w: np.ndarray = None
    c0: np.ndarray = None
    E: np.ndarray = None
    G: np.ndarray = None
    om_: np.ndarray = None
    ph: np.ndarray = None
    uses_time: bool = True
    scale: float = 1.0
    rest: bool = False     # the zero state with zero parameters is an equilibrium, at which runs start

    @property
    def n(self):
        return sum(q.size for q in self.quants)

    @property
    def m(self):
        return sum(q.size for q in self.indeps)

    def slices(self, which="quants"):
        out, s = {}, 0
        for q in getattr(self, which):
            out[q.name] = slice(s, s + q.size)
            s += q.size
        return out

    def mask(self):
        return np.concatenate([np.full(q.size, 1.0 if q.has_input else 0.0) for q in self.quants]) if self.quants else np.zeros(0)

    def _z(self, t, y, p):
        return self.C @ y + self.D @ p + self.w * t + self.c0

    def f(self, t, y, p):
        return (self.A @ y + self.N @ np.tanh(self._z(t, y, p)) + self.E @ p
                + self.G * np.sin(self.om_ * t + self.ph))

    def jac(self, t, y, p):
        """(df/dt, df/dy, df/dp)"""
        s = 1.0 - np.tanh(self._z(t, y, p)) ** 2
        jy = self.A + self.N @ (s[:, None] * self.C)
        jp = self.E + self.N @ (s[:, None] * self.D)
        jt = self.N @ (s * self.w) + self.G * self.om_ * np.cos(self.om_ * t + self.ph)
        return jt, jy, jp

    def solve_stage(self, t, base, p, ha, guess=None):
        """k with k = f(t, base + ha k, p); Newton to machine precision."""
        if ha == 0.0:
            return self.f(t, base, p)
        if not np.all(np.isfinite(base)):
            return np.full(self.n, np.nan)
        k = self.f(t, base, p) if guess is None else guess.copy()
        n = self.n
        for _ in range(60):
            y = base + ha * k
            r = k - self.f(t, y, p)
            _, jy, _ = self.jac(t, y, p)
            d = np.linalg.solve(np.eye(n) - ha * jy, -r)
            k = k + d
            if np.max(np.abs(d), initial=0.0) <= 1e-15 * (1.0 + np.max(np.abs(k), initial=0.0)):
                return k
        if np.max(np.abs(k - self.f(t, base + ha * k, p)), initial=0.0) < 1e-11 * (1.0 + np.max(np.abs(k), initial=0.0)):
            return k
        raise Skip("the generated stage equation has no solution the harness finds")


def random_spec(rng, nq=None, max_size=3, indep=None, time=None, stiff=False, noinput=True, prefix="q", shapes=True, rest=0.0, scaled=0.0):
    scaled = float(10 ** rng.uniform(-6, 7)) if scaled and rng.random() < scaled else 1.0
    rest = bool(rest and rng.random() < rest)
    time = False if rest else time
    nq = nq if nq is not None else int(rng.integers(1, 4))
    names = [f"{prefix}{i}" for i in range(nq)]
    if prefix == "q" and nq <= 6 and rng.random() < 0.3:
        # names that contain each other, in no particular order
        names = [str(x) for x in rng.permutation(["u", "uu", "u1", "u10", "a_u", "u_"])[:nq]]
    quants = []
    for i in range(nq):
        quants.append(Quant(names[i], _shape(rng, max_size, shapes)))
    if noinput and nq > 1 and rng.random() < 0.3:
        quants[int(rng.integers(1, nq))].has_input = False
    ni = indep if indep is not None else int(rng.integers(0, 3))
    indeps = [Quant(f"par{i}", _shape(rng, 2, shapes)) for i in range(ni)]
    uses_time = bool(rng.random() < 0.8) if time is None else time
    sp = Spec(quants, indeps, uses_time=uses_time, rest=rest)
    n, m = sp.n, sp.m
    mask = sp.mask()
    r = lambda *s: rng.normal(size=s)
    sp.A = (0.6 * r(n, n) / max(1, n) ** 0.5 - np.diag(0.5 * rng.random(n))) * mask[None, :]
    if stiff:
        sp.A = sp.A - np.diag((10.0 ** (rng.random(n) * 2)) * mask)
    sp.N = 0.7 * r(n, n) / max(1, n) ** 0.5
    sp.C = 0.7 * r(n, n) / max(1, n) ** 0.5 * mask[None, :]
    sp.D = 0.5 * r(n, m)
    sp.w = r(n) * (1.0 if uses_time else 0.0)
    sp.c0 = 0.3 * r(n) * (0.0 if rest else 1.0)
    sp.E = 0.5 * r(n, m)
    sp.G = r(n) * (1.0 if uses_time else 0.0)
    sp.om_ = 2.0 * r(n)
    sp.ph = r(n)
    if scaled != 1.0:
        # the same ODE for the variable scaled*y
        sp.scale = scaled
        sp.N, sp.C, sp.E, sp.G = sp.N * scaled, sp.C / scaled, sp.E * scaled, sp.G * scaled
    return sp


def _shape(rng, max_size, shapes):
    if not shapes:
        return (int(rng.integers(1, max_size + 1)),)
    c = rng.random()
    if c < 0.3:
        return (1,)
    if c < 0.7:
        return (int(rng.integers(1, max_size + 1)),)
    if c < 0.9:
        return (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    return [(2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 2, 3), (3, 1, 2), (1, 3, 1, 2)][int(rng.integers(6))]


# --------------------------------------------------------------------------
# Reference Runge-Kutta
# --------------------------------------------------------------------------
@dataclass
class RefStep:
    t: float
    h: float
    y0: np.ndarray
    ts: np.ndarray
    ks: np.ndarray
    ys: np.ndarray
    y1: np.ndarray
    emb: np.ndarray | None
    bases: np.ndarray


def tab_arrays(tab):
    A = np.array(tab.butcher_matrix, dtype=float)
    b = np.array(tab.butcher_weight_vector, dtype=float)
    c = np.array(tab.butcher_time_stages, dtype=float)
    bh = np.array(tab.butcher_adaptive_weights, dtype=float) if tab.is_embedded else None
    return A, b, c, bh


def ref_step(sp, arr, t, y, p, h):
    A, b, c, bh = arr
    s = b.size
    n = y.size
    ks, ys, bases, ts = np.zeros((s, n)), np.zeros((s, n)), np.zeros((s, n)), np.zeros(s)
    for i in range(s):
        ts[i] = t + c[i] * h
        base = y.copy()
        for j in range(i):
            base = base + h * A[i, j] * ks[j]
        bases[i] = base
        ks[i] = sp.solve_stage(ts[i], base, p, h * A[i, i])
        ys[i] = base + h * A[i, i] * ks[i]
    y1 = y.copy()
    for i in range(s):
        y1 = y1 + h * b[i] * ks[i]
    emb = None
    if bh is not None:
        emb = y.copy()
        for i in range(s):
            emb = emb + h * bh[i] * ks[i]
    if not np.all(np.isfinite(y1)) or np.max(np.abs(y1), initial=0) > 1e8 * max(1.0, sp.scale):
        raise Skip("reference trajectory left the well-conditioned range")
    return RefStep(t, h, y.copy(), ts, ks, ys, y1, emb, bases)


def ref_run(sp, arr, t, y, p, hs):
    steps = []
    for h in hs:
        st = ref_step(sp, arr, t, y, p, h)
        steps.append(st)
        t, y = t + h, st.y1
    return steps, t, y


def ref_step_tangent(sp, arr, st, p, dt, dy, dp):
    """Exact tangent of one discrete step (step size frozen)."""
    A, b, c, _ = arr
    s, n = b.size, dy.size
    dk = np.zeros((s, n))
    for i in range(s):
        jt, jy, jp = sp.jac(st.ts[i], st.ys[i], p)
        db = dy.copy()
        for j in range(i):
            db = db + st.h * A[i, j] * dk[j]
        rhs = jt * dt + jy @ db + jp @ dp
        dk[i] = np.linalg.solve(np.eye(n) - st.h * A[i, i] * jy, rhs)
    out = dy.copy()
    for i in range(s):
        out = out + st.h * b[i] * dk[i]
    return out, dk


def ref_tangent(sp, arr, steps, p, dt, dy, dp):
    for st in steps:
        dy, _ = ref_step_tangent(sp, arr, st, p, dt, dy, dp)
    return dt, dy


def ref_jacobian(sp, arr, steps, p):
    """Dense (1+n) x (1+n+m) Jacobian of (t,y,p) -> (tN, yN)."""
    n, m = sp.n, sp.m
    J = np.zeros((1 + n, 1 + n + m))
    for col in range(1 + n + m):
        v = np.zeros(1 + n + m)
        v[col] = 1.0
        a, d = ref_tangent(sp, arr, steps, p, v[0], v[1:1 + n], v[1 + n:])
        J[0, col], J[1:, col] = a, d
    return J


# --------------------------------------------------------------------------
# Tableaux
# --------------------------------------------------------------------------
def shipped():
    import rkopenmdao.butcher_tableaux as bt
    return {k: getattr(bt, k) for k in sorted(bt.__all__)}


def random_tableau(rng, embedded=None, kind=None, stages=None):
    s = stages or int(rng.integers(1, 6) if rng.random() < 0.85 else rng.integers(6, 11))
    kind = kind or str(rng.choice(["erk", "dirk", "esdirk", "mixed"]))
    A = np.tril(0.5 * rng.normal(size=(s, s)), -1)
    if kind == "dirk":
        A += np.diag(0.1 + 0.5 * rng.random(s))
    elif kind == "esdirk":
        g = 0.1 + 0.4 * rng.random()
        A += np.diag([0.0] + [g] * (s - 1))
    elif kind == "mixed":
        A += np.diag(np.where(rng.random(s) < 0.5, 0.0, 0.3 * rng.random(s)))
    A[rng.random((s, s)) < 0.1] = 0.0
    if rng.random() < 0.15:     # small, but not zero
        tiny = rng.random((s, s)) < 0.5
        A = np.where(tiny, A * 10.0 ** rng.uniform(-8, -2, size=(s, s)), A)
    b = rng.normal(size=s)
    if s > 1 and rng.random() < 0.2:
        b[int(rng.integers(0, s))] = 0.0
    b = b / b.sum() if abs(b.sum()) > 0.3 else b - b.mean() + 1.0 / s
    bh = rng.normal(size=s)
    bh = bh / bh.sum() if abs(bh.sum()) > 0.3 else bh - bh.mean() + 1.0 / s
    c = A.sum(1) if rng.random() < 0.7 else A.sum(1) + 0.2 * rng.normal(size=s)
    embedded = bool(rng.random() < 0.5) if embedded is None else embedded
    p = int(rng.integers(1, 5))
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p, name="rnd " + kind)
    if embedded:
        return EmbeddedButcherTableau(butcher_adaptive_weights=bh, phat=int(rng.integers(1, 5)), **kw)
    return ButcherTableau(**kw)


def pick_tableau(rng, embedded=None, implicit_ok=True, p_random=0.35):
    """A shipped or a random ERK/DIRK tableau; returns (tableau, label)."""
    if rng.random() < p_random:
        t = random_tableau(rng, embedded=embedded, kind=None if implicit_ok else "erk")
        return t, "random:" + t.name
    pool = [(k, t) for k, t in shipped().items()
            if (embedded is None or t.is_embedded == embedded) and (implicit_ok or t.is_explicit())]
    k, t = pool[int(rng.integers(0, len(pool)))]
    return t, k


# --------------------------------------------------------------------------
# The same ODE as a plain DiscretizedODE
# --------------------------------------------------------------------------
class PyODE(DiscretizedODE):
    """Spec as DiscretizedODE, recording every evaluation."""

    def __init__(self, spec, cap=200000):
        self.spec = spec
        self.log = []
        self.cap = cap

    def compute_update(self, ode_input, step_size, stage_factor):
        sp = self.spec
        self.log.append(("update", float(ode_input.time), float(step_size), float(stage_factor)))
        if len(self.log) > self.cap:
            raise Budget("evaluation cap of the ODE exceeded")
        base = sp.mask() * (ode_input.step_input + step_size * ode_input.stage_input)
        k = sp.solve_stage(ode_input.time, base, ode_input.independent_input, step_size * stage_factor)
        y = base + step_size * stage_factor * k
        lin = np.concatenate([[ode_input.time], y, ode_input.independent_input])
        return DiscretizedODEResultState(k.copy(), y, np.zeros(0), lin)

    def _jacs(self, lin):
        n = self.spec.n
        return self.spec.jac(lin[0], lin[1:1 + n], lin[1 + n:])

    def compute_update_derivative(self, ode_input_perturbation, step_size, stage_factor):
        self.log.append(("fwd", float(step_size), float(stage_factor)))
        d = ode_input_perturbation
        jt, jy, jp = self._jacs(d.linearization_point)
        n = self.spec.n
        db = d.step_input + step_size * d.stage_input
        k = np.linalg.solve(np.eye(n) - step_size * stage_factor * jy,
                            jt * d.time + jy @ db + jp @ d.independent_input)
        return DiscretizedODEResultState(k, db + step_size * stage_factor * k, np.zeros(0))

    def compute_update_adjoint_derivative(self, ode_result_perturbation, step_size, stage_factor):
        self.log.append(("rev", float(step_size), float(stage_factor)))
        d = ode_result_perturbation
        jt, jy, jp = self._jacs(d.linearization_point)
        n = self.spec.n
        w = np.linalg.solve((np.eye(n) - step_size * stage_factor * jy).T, d.stage_update)
        g = jy.T @ w
        return DiscretizedODEInputState(g.copy(), step_size * g, jp.T @ w, float(jt @ w))

    def get_state_size(self):
        return self.spec.n

    def get_independent_input_size(self):
        return self.spec.m

    def get_independent_output_size(self):
        return 0

    def get_linearization_point_size(self):
        return 1 + self.spec.n + self.spec.m

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))


# --------------------------------------------------------------------------
# The same ODE as OpenMDAO inner problems
# --------------------------------------------------------------------------
@dataclass
class Probe:
    """Shared by the inner components of one stage problem."""

    spec: Spec
    cap: int = 200000
    evals: int = 0
    lin: int = 0
    log: list = field(default_factory=list)
    lin_log: list = field(default_factory=list)
    record: bool = False
    fail_at: int | None = None     # injected fault: raise at this evaluation
    fail_rev_at: int | None = None
    nan_at: int | None = None      # injected fault: this evaluation yields NaN
    scaling: dict = field(default_factory=dict)  # solver scaling of the outputs
    linear: str = "direct"  # linear solver of coupled groups
    rev_calls: int = 0

    def hit(self, **kw):
        self.evals += 1
        if self.record:
            self.log.append(kw)
        if self.evals > self.cap:
            raise Budget("evaluation cap of the stage problem exceeded")
        if self.fail_at is not None and self.evals == self.fail_at:
            raise Planned("injected stage failure")
        return np.nan if self.nan_at is not None and self.evals == self.nan_at else 1.0

    def saw(self, **kw):
        """A linearisation of a component at these values."""
        self.lin += 1
        if self.record:
            self.lin_log.append(kw)

    def hit_rev(self):
        self.rev_calls += 1
        if self.fail_rev_at is not None and self.rev_calls == self.fail_rev_at:
            raise Planned("injected linear failure")


def _names(sp, promote_style=0):
    return {q.name: (f"{q.name}_old", f"{q.name}_acc", f"{q.name}_k") for q in sp.quants}


class MonoExplicit(ExplicitUnsteadyComponent):
    """Whole stage in one explicit component, derivative by implicit function
    theorem, matrix free."""

    def initialize(self):
        self.options.declare("probe")
        self.options.declare("order", default=None)

    def setup(self):
        sp = self.options["probe"].spec
        if sp.uses_time:
            self.add_input("time", val=0.0, tags=["time_variable"])
        for i in (self.options["order"] or range(len(sp.quants))):
            q = sp.quants[i]
            if q.has_input:
                self.add_input(f"{q.name}_old", shape=q.shape, tags=[q.name, "step_input_var"])
                self.add_input(f"{q.name}_acc", shape=q.shape, tags=[q.name, "accumulated_stage_var"])
            self.add_output(f"{q.name}_k", shape=q.shape, tags=[q.name, "stage_output_var"], **self.options["probe"].scaling.get(q.name, {}))
        for q in sp.indeps:
            self.add_input(q.name, shape=q.shape, tags=[q.name, "time_independent_input_var"])

    def _gather(self, vec):
        sp = self.options["probe"].spec
        t = float(vec["time"][0]) if sp.uses_time else 0.0
        old, acc = np.zeros(sp.n), np.zeros(sp.n)
        for name, s in sp.slices().items():
            if f"{name}_old" in vec:
                old[s] = vec[f"{name}_old"].ravel()
            if f"{name}_acc" in vec:
                acc[s] = vec[f"{name}_acc"].ravel()
        p = np.zeros(sp.m)
        for name, s in sp.slices("indeps").items():
            if name in vec:
                p[s] = vec[name].ravel()
        return t, old, acc, p

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        pr = self.options["probe"]
        sp = pr.spec
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        flag = pr.hit(t=t, h=float(h), a=float(a), old=old, acc=acc, p=p)
        k = flag * sp.solve_stage(t, old + h * acc, p, h * a)
        for name, s in sp.slices().items():
            outputs[f"{name}_k"] = k[s].reshape(outputs[f"{name}_k"].shape)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None):
        pr = self.options["probe"]
        sp = pr.spec
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        k = np.zeros(sp.n)
        base = old + h * acc
        k = sp.solve_stage(t, base, p, h * a)
        jt, jy, jp = sp.jac(t, base + h * a * k, p)
        M = np.eye(sp.n) - h * a * jy
        pr.saw(t=t, h=float(h), a=float(a), old=old, acc=acc, p=p)
        if mode == "fwd":
            dt, do, da, dp = 0.0, np.zeros(sp.n), np.zeros(sp.n), np.zeros(sp.m)
            if sp.uses_time and "time" in d_inputs:
                dt = float(d_inputs["time"][0])
            for name, s in sp.slices().items():
                if f"{name}_old" in d_inputs:
                    do[s] = d_inputs[f"{name}_old"].ravel()
                if f"{name}_acc" in d_inputs:
                    da[s] = d_inputs[f"{name}_acc"].ravel()
            for name, s in sp.slices("indeps").items():
                if name in d_inputs:
                    dp[s] = d_inputs[name].ravel()
            dk = np.linalg.solve(M, jt * dt + jy @ (do + h * da) + jp @ dp)
            for name, s in sp.slices().items():
                if f"{name}_k" in d_outputs:
                    d_outputs[f"{name}_k"] += dk[s].reshape(d_outputs[f"{name}_k"].shape)
        else:
            pr.hit_rev()
            w = np.zeros(sp.n)
            for name, s in sp.slices().items():
                if f"{name}_k" in d_outputs:
                    w[s] = d_outputs[f"{name}_k"].ravel()
            w = np.linalg.solve(M.T, w)
            g = jy.T @ w
            if sp.uses_time and "time" in d_inputs:
                d_inputs["time"] += jt @ w
            for name, s in sp.slices().items():
                if f"{name}_old" in d_inputs:
                    d_inputs[f"{name}_old"] += g[s].reshape(d_inputs[f"{name}_old"].shape)
                if f"{name}_acc" in d_inputs:
                    d_inputs[f"{name}_acc"] += h * g[s].reshape(d_inputs[f"{name}_acc"].shape)
            gp = jp.T @ w
            for name, s in sp.slices("indeps").items():
                if name in d_inputs:
                    d_inputs[name] += gp[s].reshape(d_inputs[name].shape)


class MonoImplicit(ImplicitUnsteadyComponent):
    """Whole stage as implicit component with assembled partials."""

    def initialize(self):
        self.options.declare("probe")
        self.options.declare("order", default=None)

    def setup(self):
        MonoExplicit.setup(self)
        self.declare_partials("*", "*")
        self.linear_solver = om.DirectSolver(assemble_jac=False)

    _gather = MonoExplicit._gather

    def _kvec(self, outputs):
        sp = self.options["probe"].spec
        k = np.zeros(sp.n)
        for name, s in sp.slices().items():
            k[s] = outputs[f"{name}_k"].ravel()
        return k

    def apply_nonlinear(self, inputs, outputs, residuals, discrete_inputs=None, discrete_outputs=None):
        sp = self.options["probe"].spec
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        k = self._kvec(outputs)
        r = k - sp.f(t, old + h * acc + h * a * k, p)
        for name, s in sp.slices().items():
            residuals[f"{name}_k"] = r[s].reshape(residuals[f"{name}_k"].shape)

    def solve_nonlinear(self, inputs, outputs):
        pr = self.options["probe"]
        sp = pr.spec
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        flag = pr.hit(t=t, h=float(h), a=float(a), old=old, acc=acc, p=p)
        k = flag * sp.solve_stage(t, old + h * acc, p, h * a)
        for name, s in sp.slices().items():
            outputs[f"{name}_k"] = k[s].reshape(outputs[f"{name}_k"].shape)

    def linearize(self, inputs, outputs, jacobian, discrete_inputs=None, discrete_outputs=None):
        pr = self.options["probe"]
        sp = pr.spec
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        k = self._kvec(outputs)
        pr.saw(t=t, h=float(h), a=float(a), old=old, acc=acc, p=p, k=k)
        jt, jy, jp = sp.jac(t, old + h * acc + h * a * k, p)
        sl = sp.slices()
        M = np.eye(sp.n) - h * a * jy
        for n1, s1 in sl.items():
            o = f"{n1}_k"
            if sp.uses_time:
                jacobian[o, "time"] = -jt[s1].reshape(-1, 1)
            for q in sp.quants:
                s2 = sl[q.name]
                jacobian[o, f"{q.name}_k"] = M[s1, s2]
                if q.has_input:
                    jacobian[o, f"{q.name}_old"] = -jy[s1, s2]
                    jacobian[o, f"{q.name}_acc"] = -h * jy[s1, s2]
            for n2, s2 in sp.slices("indeps").items():
                jacobian[o, n2] = -jp[s1, s2]


class RHSPart(om.ExplicitComponent):
    """k_i = f_i(t, Y, p): one quantity of the right-hand side."""

    def initialize(self):
        self.options.declare("probe")
        self.options.declare("which")
        self.options.declare("tag_time", default=True)

    def setup(self):
        sp = self.options["probe"].spec
        if sp.uses_time:
            self.add_input("time", val=0.0, tags=["time_variable"] if self.options["tag_time"] else [])
        for q in sp.quants:
            if q.has_input:
                self.add_input(f"{q.name}_Y", shape=q.shape)
        for q in sp.indeps:
            self.add_input(q.name, shape=q.shape,
                           tags=[q.name, "time_independent_input_var"] if self.options["tag_time"] else [])
        q = sp.quants[self.options["which"]]
        self.add_output(f"{q.name}_k", shape=q.shape, tags=[q.name, "stage_output_var"])
        self.declare_partials("*", "*")

    def _get(self, inputs):
        sp = self.options["probe"].spec
        y, p = np.zeros(sp.n), np.zeros(sp.m)
        for q in sp.quants:
            if q.has_input:
                y[sp.slices()[q.name]] = inputs[f"{q.name}_Y"].ravel()
        for name, s in sp.slices("indeps").items():
            p[s] = inputs[name].ravel()
        return float(inputs["time"][0]) if sp.uses_time else 0.0, y, p

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        pr = self.options["probe"]
        t, y, p = self._get(inputs)
        pr.hit(t=t, y=y, p=p)
        q = pr.spec.quants[self.options["which"]]
        outputs[f"{q.name}_k"] = pr.spec.f(t, y, p)[pr.spec.slices()[q.name]].reshape(q.shape)

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        sp = self.options["probe"].spec
        t, y, p = self._get(inputs)
        self.options["probe"].saw(t=t, y=y, p=p)
        jt, jy, jp = sp.jac(t, y, p)
        q = sp.quants[self.options["which"]]
        s1 = sp.slices()[q.name]
        o = f"{q.name}_k"
        if sp.uses_time:
            partials[o, "time"] = jt[s1].reshape(-1, 1)
        for q2 in sp.quants:
            if q2.has_input:
                partials[o, f"{q2.name}_Y"] = jy[s1, sp.slices()[q2.name]]
        for n2, s2 in sp.slices("indeps").items():
            partials[o, n2] = jp[s1, s2]


class CoupledGroup(om.Group):
    """Right-hand side parts coupled to the shipped stage-value components by a
    Newton solver."""

    def initialize(self):
        self.options.declare("probe")
        self.options.declare("order", default=None)

    def setup(self):
        pr = self.options["probe"]
        sp = pr.spec
        order = self.options["order"] or list(range(len(sp.quants)))
        first = True
        for i in order:
            q = sp.quants[i]
            if q.has_input:
                self.add_subsystem(f"val_{q.name}", StageValueComponent(tag=q.name),
                                   promotes=[("stage_slope", f"{q.name}_k"), ("stage_value", f"{q.name}_Y"),
                                             ("old_value", f"{q.name}_old"), ("acc_stages", f"{q.name}_acc")])
            self.add_subsystem(f"rhs_{q.name}", RHSPart(probe=pr, which=i, tag_time=first), promotes=["*"])
            first = False
        self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, iprint=-1, maxiter=40,
                                                atol=1e-13, rtol=1e-14, stall_limit=3, stall_tol=1e-2)
        self.nonlinear_solver.linear_solver = om.DirectSolver(assemble_jac=False)
        # iterative solvers of derivatives start from what the linear vectors contain
        if pr.linear == "scipy":
            self.linear_solver = om.ScipyKrylov(maxiter=200, restart=80, atol=1e-200, rtol=1e-15, iprint=-1)
        elif pr.linear.startswith("petsc"):
            if pr.linear == "petsc-gs":     # leaves the linear vectors alone, unlike Newton's method
                self.nonlinear_solver = om.NonlinearBlockGS(iprint=-1, maxiter=300, atol=1e-14, rtol=1e-15)
            self.linear_solver = om.PETScKrylov(maxiter=200, restart=80, atol=1e-200, rtol=1e-15, iprint=-1)
        else:
            self.linear_solver = om.DirectSolver(assemble_jac=False)


ARCHS = ("explicit", "implicit", "coupled", "nested", "ivc")


def build_stage_problem(sp, arch, rng=None, **probe_kw):
    """Inner OpenMDAO problem realising `sp`; returns (problem, probe)."""
    probe = Probe(sp, **probe_kw)
    order = list(range(len(sp.quants)))
    if rng is not None:
        rng.shuffle(order)
    prob = om.Problem()
    two = lambda: float(2.0 ** int(rng.integers(-8, 9)))  # exact in floating point
    # (with implicit components or res_ref != ref OpenMDAO's own total derivatives are wrong)
    scaled = rng is not None and arch in ("explicit", "ivc") and rng.random() < 0.25
    if scaled:
        probe.scaling = {q.name: {"ref": two()} for q in sp.quants}
    if arch == "explicit":
        prob.model.add_subsystem("ode", MonoExplicit(probe=probe, order=order),
                                 promotes=["*"] if rng is None or rng.random() < 0.5 else [])
        prob.model.linear_solver = om.LinearRunOnce()
    elif arch == "implicit":
        prob.model.add_subsystem("ode", MonoImplicit(probe=probe, order=order), promotes=["*"])
    elif arch == "coupled":
        if rng is not None and "linear" not in probe_kw:
            probe.linear = ("direct", "scipy", "direct", "petsc")[int(rng.integers(4))]
        prob.model.add_subsystem("grp", CoupledGroup(probe=probe, order=order),
                                 promotes=["*"] if rng is None or rng.random() < 0.5 else [])
    elif arch == "nested":
        g = prob.model.add_subsystem("outer", om.Group())
        g2 = g.add_subsystem("inner", om.Group())
        g2.add_subsystem("ode", MonoImplicit(probe=probe, order=order), promotes=["*"])
    elif arch == "ivc":
        ivc = om.IndepVarComp()
        for q in sp.quants:
            if q.has_input:
                ivc.add_output(f"src_{q.name}_old", shape=q.shape, ref=two() if scaled else 1.0)
                ivc.add_output(f"src_{q.name}_acc", shape=q.shape, ref=two() if scaled else 1.0)
        for q in sp.indeps:
            ivc.add_output(f"src_{q.name}", shape=q.shape, ref=two() if scaled else 1.0)
        if sp.uses_time:
            ivc.add_output("src_time", val=0.0, ref=two() if scaled else 1.0)
        prob.model.add_subsystem("ivc", ivc, promotes=["*"]) if (len(sp.indeps) or sp.uses_time or any(q.has_input for q in sp.quants)) else None
        prob.model.add_subsystem("ode", MonoExplicit(probe=probe, order=order))
        for q in sp.quants:
            if q.has_input:
                prob.model.connect(f"src_{q.name}_old", f"ode.{q.name}_old")
                prob.model.connect(f"src_{q.name}_acc", f"ode.{q.name}_acc")
        for q in sp.indeps:
            prob.model.connect(f"src_{q.name}", f"ode.{q.name}")
        if sp.uses_time:
            prob.model.connect("src_time", "ode.time")
    else:
        raise HarnessError(f"unknown architecture {arch}")
    return prob, probe
