"""C04: reverse-mode derivatives are the exact transpose."""

import numpy as np

from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues,
    TimeDiscretizationStartingValues,
)

from rtm import model as M
from rtm.rig import Rig, AllCheckpointer, checkpoint_choice, far_clock, random_state
from rtm.props.c01 import scheme_for, step_size
from rtm.props.c03 import adaptive_rig

KINDS = {"component": (200, 2000), "adaptive": (50, 500), "scheme": (160, 1500)}
MIN_EVENTS = {"vjp": 200, "adaptive_vjp": 30}
RULE = ("as C03 for transposed products: seeds are unit and random vectors over (final time, final values); each product is compared "
        "with the transpose of an independently assembled dense Jacobian and, as a duality monitor, with the code's own forward "
        "product; distinct = (architecture, tableau, #steps, checkpointing, seed class)")


def seeds(rng, n):
    out = [("random", rng.normal(size=1 + n))]
    w = np.zeros(1 + n)
    w[0] = 1.0
    out.append(("time", w))
    w = np.zeros(1 + n)
    w[1 + int(rng.integers(n))] = 1.0
    out.append(("state", w))
    out.append(("zero", np.zeros(1 + n)))
    return out


def run(kind, idx, rng, mon, tier):
    if kind == "scheme":
        return run_scheme(rng, mon)
    sp = M.random_spec(rng, rest=0.2, scaled=0.1 if kind == "component" else 0.0)
    arch = M.ARCHS[idx % len(M.ARCHS)]
    if sp.rest:
        arch = str(rng.choice(["implicit", "coupled", "nested"]))
    t0, y0, p = random_state(rng, sp)
    far = False
    if kind == "adaptive":
        final = rng.random() < 0.5
        ck = ("all", AllCheckpointer, {})
        rig, label = adaptive_rig(rng, sp, ck[1:], T=t0 + float(rng.uniform(0.2, 1.0)) if final else None, arch=arch if sp.rest else "explicit")
    else:
        tab, label = M.pick_tableau(rng, p_random=0.7 if sp.rest else 0.35)
        n, h = int(rng.integers(1, 10)), float(10 ** rng.uniform(-2.5, -0.7)) * (-1.0 if rng.random() < 0.1 else 1.0)
        t0, far = far_clock(rng, sp, t0)
        ck = checkpoint_choice(rng, n)
        rig = Rig(sp, tab, n=n, h=h, arch=arch, rng=rng, ckpt=ck[1:])
    tf, yf = rig.run(t0, y0, p)
    hs = rig.accepted() if kind == "adaptive" else [h] * n
    if far:
        mon.count("far_clocks")
    if sp.rest:
        mon.count("started_at_equilibrium")
    steps, tr, yr = rig.ref(t0, y0, p, hs)
    J = rig.ref_jac(steps, p)
    mon.note(kind=kind, tableau=label, arch=arch, steps=len(hs), n=sp.n, m=sp.m, ckpt=ck[0])
    sc = max(1.0, float(np.max(np.abs(J))))
    for name, w in seeds(rng, sp.n):
        rig.log.clear()
        jw = rig.rev(w)
        mon.close(jw, J.T @ w, "reverse-product", f"J^T w ({name} seed) with {label}, {arch}, {ck[0]}", rtol=1e-9, atol=1e-11,
                  scale=sc * max(1.0, float(np.max(np.abs(w)))))
        mon.count("vjp")
        if kind == "adaptive":
            mon.count("adaptive_vjp")
        mon.distinct(kind, arch, label, len(hs), ck[0], name)
    v, w = rng.normal(size=J.shape[1]), rng.normal(size=J.shape[0])
    a, b = float(w @ rig.fwd(v)), float(rig.rev(w) @ v)
    mon.close(a, b, "duality", "<w, J v> = <J^T w, v>", rtol=1e-9, atol=1e-11, scale=sc * (1 + np.abs(v).sum() * np.abs(w).sum()))
    tf2, yf2 = rig.outputs()
    mon.require(tf2 == tf and np.array_equal(yf, yf2), "outputs-kept", "reverse products do not alter the outputs")


def run_scheme(rng, mon):
    tab, label = M.pick_tableau(rng)
    sp = M.random_spec(rng)
    arr = M.tab_arrays(tab)
    scheme = scheme_for(tab)
    ode = M.PyODE(sp)
    t, y, p = random_state(rng, sp)
    n = int(rng.integers(1, 6))
    hs = [step_size(rng) for _ in range(n)]
    steps, tN, yN = M.ref_run(sp, arr, t, y, p, hs)
    J = M.ref_jacobian(sp, arr, steps, p)
    import copy
    st = scheme.time_discretization_starting_scheme(ode, TimeDiscretizationStartingValues(t, y, p), 0.1)
    traj = []
    for h in hs:
        st = scheme.compute_step(ode, st, h)
        traj.append(copy.deepcopy(st))
    w = rng.normal(size=1 + sp.n)
    if rng.random() < 0.2:
        w[0] = 0.0
    pst = scheme.time_discretization_finalization_scheme_adjoint_derivative(
        ode, st, TimeDiscretizationFinalizationValues(w[0], w[1:], np.zeros(0)), 0.1)
    mon.note(tableau=label, steps=n, n=sp.n)
    for h, s in zip(reversed(hs), reversed(traj)):
        pst = scheme.compute_step_adjoint_derivative(ode, s, pst, h)
        mon.count("vjp")
    sv = scheme.time_discretization_starting_scheme_adjoint_derivative(
        ode, TimeDiscretizationStartingValues(t, y, p), pst, 0.1)
    got = np.concatenate([np.ravel(sv.initial_time), np.ravel(sv.initial_values), np.ravel(sv.independent_inputs)])
    sc = max(1.0, float(np.max(np.abs(J)))) * max(1.0, float(np.max(np.abs(w))))
    mon.close(got, J.T @ w, "adjoint-steps", f"adjoint of {n} steps with {label}", rtol=1e-10, atol=1e-12, scale=sc)
    mon.distinct("scheme", label, n, sp.n, sp.m)
