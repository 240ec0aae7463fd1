"""C01: one step of a scheme equals the Runge-Kutta definition."""

import numpy as np

from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization,
    StageOrderedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

from rtm import model as M
from rtm.rig import random_state

KINDS = {"py": (720, 3000), "om": (270, 1200), "shipped": (140, 480)}
MIN_EVENTS = {"steps": 200, "embedded_steps": 50, "implicit_stages": 200}
RULE = ("random ODE (1-3 quantities, random shapes, optional parameters and time dependence, some stiff) x shipped or "
        "random ERK/DIRK/ESDIRK tableau x chains of 1-6 steps with varying step sizes; distinct = (tableau, stages, "
        "state size, step index); non-trivial when the step moved the state")
ASSUMPTIONS = ["stage equations of the generated ODEs are solved to ~1e-14 by the harness's own Newton iteration"]


def scheme_for(tab):
    return (StageOrderedEmbeddedRungeKuttaDiscretization if tab.is_embedded else StageOrderedRungeKuttaDiscretization)(tab)


def step_size(rng):
    return _step_size(rng) * (-1.0 if rng.random() < 0.1 else 1.0)


def _step_size(rng):
    r = rng.random()
    if r < 0.7:
        return float(10 ** rng.uniform(-3, -0.7))
    if r < 0.9:
        return float(rng.uniform(0.01, 0.3))
    return float(10 ** rng.uniform(-7, -4))


def run(kind, idx, rng, mon, tier):
    if kind == "shipped":
        names = sorted(M.shipped())
        label = names[idx % len(names)]
        tab = M.shipped()[label]
    else:
        tab, label = M.pick_tableau(rng)
    stiff = kind != "om" and rng.random() < 0.2 and not tab.is_explicit() and not label.startswith("random")
    sp = M.random_spec(rng, stiff=stiff, scaled=0.15)
    arr = M.tab_arrays(tab)
    before = [np.array(x) for x in arr if x is not None]
    scheme = scheme_for(tab)
    if kind == "om":
        arch = M.ARCHS[int(rng.integers(len(M.ARCHS)))]
        prob, probe = M.build_stage_problem(sp, arch, rng)
        prob.setup()
        prob.final_setup()
        ode = OpenMDAOODE(prob, [q.name for q in sp.quants], [q.name for q in sp.indeps])
        # order of the flattened state as published by the ODE's metadata
        perm, o = {}, 0
        sl = sp.slices()
        idx_map = np.zeros(sp.n, int)
        for q in ode.time_integration_metadata.time_integration_quantity_list:
            a, b = q.array_metadata.start_index, q.array_metadata.end_index
            idx_map[a:b] = np.arange(sl[q.name].start, sl[q.name].stop)
        pidx = np.zeros(sp.m, int)
        for q in ode.time_integration_metadata.time_independent_input_quantity_list:
            a, b = q.array_metadata.start_index, q.array_metadata.end_index
            s = sp.slices("indeps")[q.name]
            pidx[a:b] = np.arange(s.start, s.stop)
    else:
        arch = "py"
        ode = M.PyODE(sp)
        idx_map, pidx = np.arange(sp.n), np.arange(sp.m)
    inv = np.argsort(idx_map)
    t, y, p = random_state(rng, sp)
    if rng.random() < 0.5:
        st = scheme.time_discretization_starting_scheme(
            ode, TimeDiscretizationStartingValues(t, y[idx_map], p[pidx]), 0.1)
    else:
        st = scheme.create_empty_discretization_state(ode)
        st.final_time[0] = t
        st.final_state[:] = y[idx_map]
        st.independent_inputs[:] = p[pidx]
    nsteps = int(rng.integers(1, 7))
    tol = dict(rtol=2e-9, atol=1e-11) if arch in ("coupled",) else dict(rtol=1e-10, atol=1e-12)
    if stiff or label.startswith("random"):
        tol = dict(rtol=1e-8, atol=1e-10)
    hs = []
    mon.note(tableau=label, arch=arch, n=sp.n, m=sp.m, steps=nsteps)
    for k in range(nsteps):
        h = step_size(rng)
        hs.append(h)
        ref = M.ref_step(sp, arr, t, y, p, h)
        sc = float(max(np.max(np.abs(ref.ks), initial=0.0), np.max(np.abs(ref.y1), initial=0.0)))
        st = scheme.compute_step(ode, st, h)
        mon.close(st.start_time[0], t, "start-time", "start time of the step", atol=1e-12, rtol=1e-13)
        mon.close(np.array(st.start_state)[inv], y, "start-state", "start state is the previous final state", **tol, scale=sc)
        mon.close(np.array(st.stage_times), ref.ts, "stage-times", "stage times t + c_i h", atol=1e-12, rtol=1e-13)
        mon.close(np.array(st.stage_updates)[:, inv], ref.ks, "stage-updates", "stage slopes", scale=sc, **tol)
        if arch == "py":
            mon.close(np.array(st.stage_states)[:, inv], ref.ys * 1.0, "stage-states", "stage states", scale=sc, **tol) \
                if all(q.has_input for q in sp.quants) else None
        mon.close(np.array(st.final_state)[inv], ref.y1, "final-state", f"new state after step {k} with {label}", scale=sc, **tol)
        mon.close(st.final_time[0], t + h, "final-time", "new time t + h", atol=1e-12, rtol=1e-13)
        mon.close(np.array(st.independent_inputs), p[pidx], "params", "parameters unchanged", atol=0, rtol=0)
        mon.close(st.step_size[0], h, "step-size", "step size reported by the state", atol=0, rtol=1e-14)
        if tab.is_embedded:
            mon.close(np.array(st.embedded_state)[inv], ref.emb, "embedded-state", "embedded state", scale=sc, **tol)
            # the estimate is a difference of O(h) updates: compare at the scale of the updates
            mon.close(np.array(st.error_estimate)[inv], ref.y1 - ref.emb, "error-estimate", "error estimate",
                      rtol=1e-9, atol=(1e-13 if arch != "coupled" else 1e-10) * (1 + sc), scale=abs(h) * sc)
            mon.count("embedded_steps")
        mon.count("steps")
        mon.count("stages", arr[1].size)
        mon.count("implicit_stages", int(np.count_nonzero(np.diag(arr[0]))))
        if np.max(np.abs(ref.y1 - y), initial=0) > 0:
            mon.distinct(label, arr[1].size, sp.n, k, arch)
        # continue from what the code produced (so that errors cannot hide) but
        # refer to the same point
        y = np.array(st.final_state)[inv]
        t = float(st.final_time[0])
    after = [np.array(x) for x in M.tab_arrays(tab) if x is not None]
    for a, b in zip(before, after):
        mon.require(np.array_equal(a, b), "tableau-mutated", "stepping must not change the tableau")
    if arch == "py":
        ups = [e for e in ode.log if e[0] == "update"]
        want = [(h, arr[0][i, i]) for h in hs for i in range(arr[1].size)]
        mon.require(len(ups) >= len(want), "stage-evaluated", "each stage is evaluated with its own step size and diagonal")
        seen = {(u[2], u[3]) for u in ups}
        mon.require(seen == {(h, float(a)) for h, a in want}, "stage-parameters",
                    "the ODE is asked with exactly (h, a_ii) of the stages", seen=sorted(seen), want=sorted(want))
