"""C03: forward-mode derivatives are the exact tangent of the computed map."""

import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

from rtm import model as M
from rtm.rig import Rig, AllCheckpointer, NoCheckpointer, checkpoint_choice, far_clock, random_state
from rtm.props.c01 import scheme_for, step_size

KINDS = {"component": (260, 2000), "adaptive": (70, 500), "scheme": (200, 1500)}
MIN_EVENTS = {"jvp": 200, "adaptive_jvp": 30}
RULE = ("as C02 plus adaptive runs (step sequence frozen at the one taken) and direct use of the scheme's tangent step; "
        "directions are unit vectors and random vectors over (start time, initial values, parameters); distinct = "
        "(architecture, tableau, #steps, direction class)")


def directions(rng, n, m):
    dirs = [("random", rng.normal(size=1 + n + m))]
    v = np.zeros(1 + n + m)
    v[0] = 1.0
    dirs.append(("time", v))
    v = np.zeros(1 + n + m)
    v[1 + int(rng.integers(n))] = 1.0
    dirs.append(("state", v))
    if m:
        v = np.zeros(1 + n + m)
        v[1 + n + int(rng.integers(m))] = 1.0
        dirs.append(("param", v))
    dirs.append(("zero", np.zeros(1 + n + m)))
    return dirs


def adaptive_rig(rng, sp, ck, h=None, T=None, arch="explicit", **kw):
    tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
    h = h or float(10 ** rng.uniform(-2, -0.5))
    tol = float(10 ** rng.uniform(-6, -3))
    cfg = ErrorControllerConfig(tol=tol, lower_bound=1e-3, upper_bound=0.5)
    if T is None:
        kw["n"] = int(rng.integers(2, 8))
    else:
        kw["T"] = T
    return Rig(sp, tab, h=h, arch=arch, rng=rng, ckpt=ck, adaptive=True, ctrl_cfg=cfg, **kw), label


def run(kind, idx, rng, mon, tier):
    if kind == "scheme":
        return run_scheme(rng, mon)
    sp = M.random_spec(rng, rest=0.2, scaled=0.1 if kind == "component" else 0.0)
    arch = M.ARCHS[idx % len(M.ARCHS)]
    if sp.rest:
        arch = str(rng.choice(["implicit", "coupled", "nested"]))
    t0, y0, p = random_state(rng, sp)
    far = False
    if kind == "adaptive":
        final = rng.random() < 0.5
        rig, label = adaptive_rig(rng, sp, (AllCheckpointer, {}) if rng.random() < 0.5 else (NoCheckpointer, {}),
                                  T=t0 + float(rng.uniform(0.2, 1.0)) if final else None, arch=arch if sp.rest else "explicit")
    else:
        tab, label = M.pick_tableau(rng, p_random=0.7 if sp.rest else 0.35)
        n, h = int(rng.integers(1, 10)), float(10 ** rng.uniform(-2.5, -0.7)) * (-1.0 if rng.random() < 0.1 else 1.0)
        t0, far = far_clock(rng, sp, t0)
        ck = checkpoint_choice(rng, n)[1:] if rng.random() < 0.6 else (NoCheckpointer, {})
        rig = Rig(sp, tab, n=n, h=h, arch=arch, rng=rng, ckpt=ck)
    tf, yf = rig.run(t0, y0, p)
    hs = rig.accepted() if kind == "adaptive" else [h] * n
    if far:
        mon.count("far_clocks")
    if sp.rest:
        mon.count("started_at_equilibrium")
    steps, tr, yr = rig.ref(t0, y0, p, hs)
    J = rig.ref_jac(steps, p)
    mon.note(kind=kind, tableau=label, arch=arch, steps=len(hs), n=sp.n, m=sp.m)
    sc = max(1.0, float(np.max(np.abs(J))))
    for name, v in directions(rng, sp.n, sp.m):
        rig.log.clear()
        jv = rig.fwd(v)
        mon.close(jv, J @ v, "forward-product", f"J v ({name} direction) with {label}, {arch}", rtol=1e-9, atol=1e-11,
                  scale=sc * max(1.0, float(np.max(np.abs(v)))))
        mon.count("jvp")
        if kind == "adaptive":
            mon.count("adaptive_jvp")
        mon.distinct(kind, arch, label, len(hs), name)
    # the primal result is untouched by differentiation
    tf2, yf2 = rig.outputs()
    mon.require(tf2 == tf and np.array_equal(yf, yf2), "outputs-kept", "forward products do not alter the outputs")


def run_scheme(rng, mon):
    tab, label = M.pick_tableau(rng)
    sp = M.random_spec(rng)
    arr = M.tab_arrays(tab)
    scheme = scheme_for(tab)
    ode = M.PyODE(sp)
    t, y, p = random_state(rng, sp)
    st = scheme.time_discretization_starting_scheme(ode, TimeDiscretizationStartingValues(t, y, p), 0.1)
    v = rng.normal(size=1 + sp.n + sp.m)
    if rng.random() < 0.2:
        v[0] = 0.0
    dst = scheme.time_discretization_starting_scheme_derivative(
        ode, TimeDiscretizationStartingValues(t, y, p),
        TimeDiscretizationStartingValues(v[0], v[1:1 + sp.n], v[1 + sp.n:]), 0.1)
    steps = []
    n = int(rng.integers(1, 6))
    mon.note(tableau=label, steps=n, n=sp.n)
    for k in range(n):
        h = step_size(rng)
        ref = M.ref_step(sp, arr, t, y, p, h)
        steps.append(ref)
        t, y = t + h, ref.y1
        st = scheme.compute_step(ode, st, h)
        dst = scheme.compute_step_derivative(ode, st, dst, h)
        dt, dy = M.ref_tangent(sp, arr, steps, p, v[0], v[1:1 + sp.n], v[1 + sp.n:])
        sc = max(1.0, float(np.max(np.abs(dy), initial=0)))
        mon.close(dst.final_state, dy, "tangent-step", f"tangent of step {k} with {label}", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(dst.final_time[0], dt, "tangent-time", "tangent of the time", rtol=1e-12, atol=1e-13)
        mon.close(dst.independent_inputs, v[1 + sp.n:], "tangent-params", "parameter direction carried along", rtol=0, atol=0)
        mon.close(st.final_state, y, "primal-kept", "primal state kept by the tangent step", rtol=1e-10, atol=1e-12,
                  scale=max(1.0, float(np.max(np.abs(y)))))
        mon.count("jvp")
    fin = scheme.time_discretization_finalization_scheme(ode, st, 0.1)
    mon.close(fin.final_values, y, "finalization", "finalized values", rtol=1e-10, atol=1e-12, scale=max(1.0, float(np.max(np.abs(y)))))
    mon.close(np.ravel(fin.final_time)[0], t, "finalization", "finalized time", rtol=1e-12, atol=1e-13)
    dfin = scheme.time_discretization_finalization_scheme_derivative(ode, st, dst, 0.1)
    mon.close(dfin.final_values, dst.final_state, "finalization", "finalized tangent", rtol=0, atol=0)
    mon.distinct("scheme", label, n, sp.n, sp.m)
