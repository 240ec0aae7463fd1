"""C23: the discretization schemes serve any implementation of the ODE interface."""

import copy
import pickle

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE, DiscretizedODEInputState, DiscretizedODEResultState)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues, TimeDiscretizationStartingValues)

from rtm import model as M
from rtm.rig import random_state
from rtm.props.c01 import scheme_for, step_size

KINDS = {"chain": (1200, 5000), "interleaved": (360, 1500)}
MIN_EVENTS = {"primal_calls": 1500, "tangent_calls": 1500, "adjoint_calls": 1500, "independent_outputs": 800, "recycled": 150, "duality": 250, "transposed_maps": 300, "zero_tangents": 300}
RULE = ("user-defined ODE classes (own linearization data of arbitrary length, 0-3 independent outputs, returned arrays freshly made, recycled between calls or scribbled over after the next "
        "call) x shipped or random tableaux x chains of 1-6 steps of varying and negative step sizes, states kept by deep copy, pickling, exported dictionary or set; the recording ODE checks "
        "the linearization data, step size and stage factor of each request, products are compared with the reference Jacobian and each other, kept states bit for bit; distinct = (class of "
        "ODE, way of keeping, tableau, number of steps)")


class UserODE(DiscretizedODE):
    """A Spec with independent outputs and own bookkeeping."""

    def __init__(self, sp, rng, nout, style, pad):
        self.sp, self.nout, self.style, self.pad = sp, nout, style, pad
        self.R = rng.normal(size=(nout, 1 + sp.n + sp.m))
        self.calls = []
        self.ticket = 0
        self.buffers = {}
        self.last = []

    def give(self, role, x):
        x = np.asarray(x, dtype=float)
        if self.style == "fresh":
            return x.copy()
        if self.style == "recycled":
            buf = self.buffers.setdefault(role, np.zeros_like(x))
            buf[...] = x
            return buf
        x = x.copy()
        self.last.append(x)
        return x

    def begin(self):
        if self.style == "scribbled":
            for a in self.last:
                a[...] = np.nan
            self.last = []

    def compute_update(self, ode_input, step_size, stage_factor):
        self.begin()
        sp, i = self.sp, ode_input
        rec = dict(op="primal", time=float(i.time), step=np.array(i.step_input), stage=np.array(i.stage_input), par=np.array(i.independent_input), h=float(step_size), f=float(stage_factor))
        base = sp.mask() * (i.step_input + step_size * i.stage_input)
        k = sp.solve_stage(float(i.time), base, np.array(i.independent_input), step_size * stage_factor)
        y = base + step_size * stage_factor * k
        x = np.concatenate([[float(i.time)], y, i.independent_input])
        self.ticket += 1
        lin = np.concatenate([[self.ticket], np.zeros(self.pad), x])
        rec.update(k=k.copy(), y=y.copy(), out=self.R @ np.tanh(x), lin=lin.copy())
        self.calls.append(rec)
        return DiscretizedODEResultState(self.give("k", k), self.give("y", y), self.give("o", rec["out"]), self.give("l", lin))

    def _lin(self, lin):
        x = np.array(lin)[1 + self.pad:]
        n = self.sp.n
        return (x,) + self.sp.jac(x[0], x[1:1 + n], x[1 + n:])

    def compute_update_derivative(self, d, step_size, stage_factor):
        self.begin()
        x, jt, jy, jp = self._lin(d.linearization_point)
        n = self.sp.n
        db = d.step_input + step_size * d.stage_input
        k = np.linalg.solve(np.eye(n) - step_size * stage_factor * jy, jt * d.time + jy @ db + jp @ d.independent_input)
        y = self.sp.mask() * db + step_size * stage_factor * k
        out = self.R @ ((1 - np.tanh(x) ** 2) * np.concatenate([[float(d.time)], y, d.independent_input]))
        self.calls.append(dict(op="tangent", h=float(step_size), f=float(stage_factor), lin=np.array(d.linearization_point), k=k.copy(), y=y.copy(), out=out.copy()))
        return DiscretizedODEResultState(self.give("k", k), self.give("y", y), self.give("o", out))

    def compute_update_adjoint_derivative(self, d, step_size, stage_factor):
        self.begin()
        x, jt, jy, jp = self._lin(d.linearization_point)
        n = self.sp.n
        w = np.linalg.solve((np.eye(n) - step_size * stage_factor * jy).T, d.stage_update)
        g = jy.T @ w
        self.calls.append(dict(op="adjoint", h=float(step_size), f=float(stage_factor), lin=np.array(d.linearization_point)))
        return DiscretizedODEInputState(self.give("s", g), self.give("a", step_size * g), self.give("p", jp.T @ w), float(jt @ w))

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def get_state_size(self):
        return self.sp.n

    def get_independent_input_size(self):
        return self.sp.m

    def get_independent_output_size(self):
        return self.nout

    def get_linearization_point_size(self):
        return 2 + self.pad + self.sp.n + self.sp.m


def keep(how, st, scheme, ode):
    if how == "deepcopy":
        return copy.deepcopy(st)
    if how == "pickle":
        return pickle.loads(pickle.dumps(st))
    if how == "dict":
        return type(st).from_dict(copy.deepcopy(st.to_dict()))
    new = scheme.create_empty_discretization_state(ode)
    new.set(st)
    return new


def fields(st):
    return {k: v.copy() for k, v in vars(st).items() if isinstance(v, np.ndarray)}


def same(mon, st, before, what):
    for k, v in fields(st).items():
        mon.require(np.array_equal(v, before[k], equal_nan=True), "state-kept", f"{what}: field {k} of the given state was altered", got=v, want=before[k])


def run(kind, idx, rng, mon, tier):
    sp = M.random_spec(rng)
    tab, label = M.pick_tableau(rng)
    arr = M.tab_arrays(tab)
    A, b, c, bh = arr
    s = b.size
    scheme = scheme_for(tab)
    style = ["fresh", "recycled", "scribbled"][idx % 3]
    how = ["deepcopy", "pickle", "dict", "set"][int(rng.integers(4))]
    nout = int(rng.integers(0, 4))
    ode = UserODE(sp, rng, nout, style, int(rng.integers(0, 4)))
    t, y, p = random_state(rng, sp)
    N = int(rng.integers(1, 7))
    hs = [step_size(rng) for _ in range(N)]
    steps, tN, yN = M.ref_run(sp, arr, t, y, p, hs)
    J = M.ref_jacobian(sp, arr, steps, p)
    mon.note(kind=kind, tableau=label, style=style, how=how, steps=N, nout=nout, n=sp.n, m=sp.m)
    if style != "fresh":
        mon.count("recycled")
    h_start = float(rng.choice([0.1, hs[0], 1e-3]))
    given = (t, y.copy(), p.copy())
    start = TimeDiscretizationStartingValues(t, y, p)
    st = scheme.time_discretization_starting_scheme(ode, start, h_start)
    mon.require(len(ode.calls) == 0 or all(r["op"] == "primal" for r in ode.calls), "start-calls", "the starting scheme only evaluates the ODE")
    ode.calls.clear()
    kept, per_step = [], []
    for k, h in enumerate(hs):
        st = scheme.compute_step(ode, st, h)
        calls = ode.calls[:]
        ode.calls.clear()
        mon.require([r["op"] for r in calls] == ["primal"] * s, "primal-calls", f"step {k} makes {len(calls)} evaluations for {s} stages ({label})")
        mon.count("primal_calls", s)
        ref = steps[k]
        sc = max(1.0, float(np.max(np.abs(ref.ys), initial=0)), float(np.max(np.abs(ref.ks), initial=0)))
        tsc = max(1.0, abs(ref.t), abs(h))
        for i, r in enumerate(calls):
            w = f"request for stage {i} of step {k} with {label}"
            mon.close(r["time"], ref.ts[i], "request", w + ": time", rtol=1e-12, atol=1e-13, scale=tsc)
            mon.close(r["step"], ref.y0, "request", w + ": state at the step's start", rtol=1e-10, atol=1e-12, scale=sc)
            acc = sum((A[i, j] * ref.ks[j] for j in range(i)), np.zeros(sp.n))
            mon.close(r["stage"], acc, "request", w + ": accumulated stage updates", rtol=1e-10, atol=1e-12, scale=sc)
            mon.close(r["par"], p, "request", w + ": independent inputs", rtol=0, atol=0)
            mon.require(r["h"] == h and r["f"] == A[i, i], "request", w + ": step size and stage factor")
            mon.require(np.array_equal(st.stage_updates[i], r["k"]), "stored", f"update of stage {i} as returned by the ODE", got=st.stage_updates[i], want=r["k"])
            mon.require(np.array_equal(st.stage_states[i], r["y"]), "stored", f"state of stage {i} as returned by the ODE")
            mon.require(np.array_equal(st.stage_independent_outputs[i], r["out"]), "stored", f"independent output of stage {i} as returned by the ODE")
            mon.require(np.array_equal(st.linearization_points[i], r["lin"]), "stored", f"linearization data of stage {i} as returned by the ODE")
            mon.count("independent_outputs", 1 if nout else 0)
        mon.close(st.final_state, ref.y1, "step", f"state after step {k}", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(st.final_time[0], ref.t + h, "step", f"time after step {k}", rtol=1e-12, atol=1e-13, scale=tsc)
        mon.close(st.start_state, ref.y0, "step", f"start state of step {k}", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(st.independent_inputs, p, "step", "independent inputs", rtol=0, atol=0)
        kept.append(keep(how, st, scheme, ode))
        per_step.append([r["lin"] for r in calls])
    mon.require(given[0] == start.initial_time and np.array_equal(given[1], start.initial_values) and np.array_equal(given[2], start.independent_inputs),
                "starting-values", "starting values are left unchanged")
    fin = scheme.time_discretization_finalization_scheme(ode, st, hs[-1])
    sc = max(1.0, float(np.max(np.abs(yN))))
    mon.close(fin.final_values, yN, "finalization", "finalized state", rtol=1e-10, atol=1e-12, scale=sc)
    mon.close(np.ravel(fin.final_time)[0], tN, "finalization", "finalized time", rtol=1e-12, atol=1e-13, scale=max(1.0, abs(tN)))
    ode.calls.clear()
    frozen = [fields(x) for x in kept]
    jsc = max(1.0, float(np.max(np.abs(J))))
    n, m = sp.n, sp.m
    todo = [("fwd", rng.normal(size=1 + n + m)) for _ in range(2)] + [("rev", rng.normal(size=1 + n)) for _ in range(2)]
    e = np.zeros(1 + n + m)
    e[int(rng.integers(1 + n + m))] = 1.0
    todo.append(("fwd", e))
    e = np.zeros(1 + n)
    e[int(rng.integers(1 + n))] = 1.0
    todo.append(("rev", e))
    machines = []
    for mode, v in todo:
        machines.append([mode, v, product(mode, v, scheme, ode, start, st, kept, hs, mon, per_step, A, n, sp), None])
    if kind == "chain":
        for mc in machines:
            mc[3] = exhaust(mc[2])
    else:  # step by step in random order
        live = list(machines)
        while live:
            pos = int(rng.integers(len(live)))
            mc = live[pos]
            try:
                next(mc[2])
            except StopIteration as stop:
                mc[3] = stop.value
                del live[pos]
    for mode, v, _, got in machines:
        want = (J if mode == "fwd" else J.T) @ v
        mon.close(got, want, mode + "-product", f"{mode} product over {N} steps with {label} ({style}, kept by {how})", rtol=1e-10, atol=1e-12,
                  scale=jsc * max(1.0, float(np.abs(v).sum())))
    for mc in machines:
        for md in machines:
            if mc[0] == "fwd" and md[0] == "rev":
                a, bb = float(md[1] @ mc[3]), float(md[3] @ mc[1])
                mon.close(a, bb, "duality", "<w, J v> = <J^T w, v>", rtol=1e-10, atol=1e-11, scale=jsc * float(np.abs(mc[1]).sum() * np.abs(md[1]).sum() + 1))
                mon.count("duality")
    transposed(mon, rng, scheme, ode, start, kept[-1], hs, nout)
    for x, f in zip(kept, frozen):
        same(mon, x, f, "derivative operations")
    mon.distinct(kind, style, how, label, N, nout)


def transposed(mon, rng, scheme, ode, start, last, hs, nout):
    """The starting and finalization maps and their adjoints are transposes of each other on the whole state, independent outputs included."""
    names = ("final_time", "final_state", "independent_inputs", "final_independent_outputs")
    x = scheme.create_empty_discretization_state(ode)
    for a in names:
        getattr(x, a)[...] = rng.normal(size=getattr(x, a).shape)
    w = (rng.normal(), rng.normal(size=x.final_state.size), rng.normal(size=nout))
    f = scheme.time_discretization_finalization_scheme_derivative(ode, last, x, hs[-1])
    left = sum(float(np.dot(np.ravel(c), np.ravel(z))) for c, z in zip(w, (f.final_time, f.final_values, f.final_independent_outputs)))
    g = scheme.time_discretization_finalization_scheme_adjoint_derivative(ode, last, TimeDiscretizationFinalizationValues(*w), hs[-1])
    right = sum(float(np.dot(np.ravel(getattr(g, a)), np.ravel(getattr(x, a)))) for a in names)
    mon.close(left, right, "duality", "finalization: <w, F x> = <F^T w, x>", rtol=1e-12, atol=1e-12, scale=10.0)
    v = (rng.normal(), rng.normal(size=x.final_state.size), rng.normal(size=x.independent_inputs.size))
    g = scheme.time_discretization_starting_scheme_derivative(ode, start, TimeDiscretizationStartingValues(*v), hs[0])
    left = sum(float(np.dot(np.ravel(getattr(g, a)), np.ravel(getattr(x, a)))) for a in names)
    f = scheme.time_discretization_starting_scheme_adjoint_derivative(ode, start, x, hs[0])
    right = sum(float(np.dot(np.ravel(c), np.ravel(z))) for c, z in zip(v, (f.initial_time, f.initial_values, f.independent_inputs)))
    mon.close(left, right, "duality", "starting: <x, S v> = <S^T x, v>", rtol=1e-12, atol=1e-12, scale=10.0)
    mon.count("transposed_maps", 2)


def exhaust(gen):
    while True:
        try:
            next(gen)
        except StopIteration as stop:
            return stop.value


def audit(mon, ode, op, h, lins, A, first, what):
    for r in ode.calls[first:]:
        if r["op"] == "primal":
            continue
        mon.require(r["op"] == op, "derivative-calls", f"{what} asks the ODE for its {r['op']}")
        ids = [i for i, l in enumerate(lins) if np.array_equal(l, r["lin"])]
        mon.require(len(ids) == 1, "linearization", f"{what} passes linearization data that is not one of this step's stages", got=r["lin"])
        mon.require(r["h"] == h and r["f"] == A[ids[0], ids[0]], "derivative-request", f"{what}: step size {r['h']} and factor {r['f']} for stage {ids[0]}")
        mon.count(op + "_calls")


def stored_tangents(mon, calls, d, lins, k):
    """Tangents of the stages are kept as the ODE returned them."""
    for r in calls:
        if r["op"] == "tangent":
            i = next(j for j, l in enumerate(lins) if np.array_equal(l, r["lin"]))
            for name, key in (("stage_updates", "k"), ("stage_states", "y"), ("stage_independent_outputs", "out")):
                mon.require(np.array_equal(getattr(d, name)[i], r[key]), "stored-tangent", f"{name} of stage {i} in the tangent of step {k} as returned by the ODE",
                            got=getattr(d, name)[i], want=r[key])


def product(mode, v, scheme, ode, start, last, kept, hs, mon, per_step, A, n, sp):
    v0 = v.copy()
    if mode == "fwd":
        pert = TimeDiscretizationStartingValues(v[0], v[1:1 + n], v[1 + n:])
        d = scheme.time_discretization_starting_scheme_derivative(ode, start, pert, hs[0])
        yield
        for k, h in enumerate(hs):
            first = len(ode.calls)
            d = scheme.compute_step_derivative(ode, kept[k], d, h)
            audit(mon, ode, "tangent", h, per_step[k], A, first, f"tangent of step {k}")
            stored_tangents(mon, ode.calls[first:], d, per_step[k], k)
            yield
        # a state full of the tangents of previous steps, whose seed vanishes
        x = copy.deepcopy(d)
        for name in ("final_time", "final_state", "independent_inputs"):
            getattr(x, name)[...] = 0.0
        first = len(ode.calls)
        x = scheme.compute_step_derivative(ode, kept[-1], x, hs[-1])
        stored_tangents(mon, ode.calls[first:], x, per_step[-1], len(hs) - 1)
        for name in ("final_time", "final_state", "stage_updates", "stage_states", "stage_independent_outputs"):
            mon.require(not np.any(getattr(x, name)), "zero-tangent", f"{name} of the tangent of a vanishing perturbation", got=getattr(x, name))
        mon.count("zero_tangents")
        f = scheme.time_discretization_finalization_scheme_derivative(ode, kept[-1], d, hs[-1])
        out = np.concatenate([np.ravel(f.final_time), np.ravel(f.final_values)]).copy()
    else:
        pert = TimeDiscretizationFinalizationValues(v[0], v[1:], np.zeros(ode.nout))
        d = scheme.time_discretization_finalization_scheme_adjoint_derivative(ode, kept[-1], pert, hs[-1])
        yield
        for k in reversed(range(len(hs))):
            first = len(ode.calls)
            d = scheme.compute_step_adjoint_derivative(ode, kept[k], d, hs[k])
            audit(mon, ode, "adjoint", hs[k], per_step[k], A, first, f"adjoint of step {k}")
            yield
        f = scheme.time_discretization_starting_scheme_adjoint_derivative(ode, start, d, hs[0])
        out = np.concatenate([np.ravel(f.initial_time), np.ravel(f.initial_values), np.ravel(f.independent_inputs)]).copy()
    mon.require(np.array_equal(v, v0), "seed-kept", "the seed is left unchanged")
    return out
