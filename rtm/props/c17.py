"""C17: error measures and norms equal their definition."""

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer

from rtm import model as M
from rtm.adapt import GAVE_UP, Setup
from rtm.core import Skip
from rtm.rig import Rig, random_state

KINDS = {"norm": (1600, 16000), "measure": (800, 6000), "custom": (200, 1000), "live": (120, 800)}
MIN_EVENTS = {"norms": 300, "measures": 200, "live_measures": 60, "custom_calls": 60, "embedded_fixed": 20}
RULE = ("compute_state_norm of real stage problems (1-4 quantities, random shapes and listing orders) for orders 2,1,3,4,1.5,0.5,0,-1,-2,inf,-inf and random ones, with and without excluded quantities, on states with "
        "zeros, huge/tiny entries; measurers directly, with user-defined norms and inside real adaptive and fixed-step runs; each value against the textbook formula over the gathered entries; "
        "distinct = (order, #quantities, excluded, special entries)")


def textbook(x, order):
    a = np.abs(np.asarray(x, dtype=np.longdouble))
    if order == np.inf:
        return float(a.max())
    if order == -np.inf:
        return float(a.min())
    if order == 0:
        return float(np.count_nonzero(a))
    if order < 0 and np.any(a == 0):
        return 0.0
    return float((a ** np.longdouble(order)).sum() ** (np.longdouble(1) / np.longdouble(order)))


def vec(rng, n):
    r = rng.random()
    x = rng.normal(size=n)
    tag = "normal"
    if r < 0.2:
        x[rng.random(n) < 0.5] = 0.0
        tag = "zeros"
    elif r < 0.26:
        x[:] = 0.0
        tag = "allzero"
    elif r < 0.36:
        x[int(rng.integers(n))] = 0.0
        tag = "onezero"
    elif r < 0.5:
        x *= 10.0 ** rng.uniform(-30, 30, size=n)
        tag = "wide"
    elif r < 0.6:
        x = np.full(n, x[0])
        tag = "equal"
    return x, tag


def make_ode(rng, sp, order=None, excl=None, listing=None):
    prob, _ = M.build_stage_problem(sp, str(rng.choice(["explicit", "ivc", "nested"])), rng)
    prob.setup()
    prob.final_setup()
    kw = {}
    if order is not None:
        kw["norm_order"] = order
    if excl is not None:
        kw["norm_exclusions"] = excl
    ode = OpenMDAOODE(prob, listing or [q.name for q in sp.quants], [q.name for q in sp.indeps], **kw)
    return ode


def layout(ode, sp):
    idx = np.zeros(sp.n, int)
    for q in ode.time_integration_metadata.time_integration_quantity_list:
        idx[sp.slices()[q.name]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
    return idx


def pick_order(rng):
    if rng.random() < 0.85:
        return [2.0, 1.0, 3.0, 4.0, 1.5, 0.5, 0.0, -1.0, -2.0, np.inf, -np.inf, 2, 1, 0, np.inf, -np.inf][int(rng.integers(16))]
    if rng.random() < 0.5:
        return float(rng.uniform(0.3, 5))
    return float(rng.choice([-1, 1])) * float(rng.uniform(0.3, 25))


def state_of(x):
    return DiscretizedODEResultState(np.full(x.size, 7.7), x.copy(), np.zeros(0))


def norm(rng, mon):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 5)), max_size=4)
    order = pick_order(rng)
    names = [q.name for q in sp.quants]
    excl = None
    if rng.random() < 0.4 and len(names) > 1:
        excl = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names)))]]
    ode = make_ode(rng, sp, order, excl, [names[i] for i in rng.permutation(len(names))])
    idx = layout(ode, sp)
    keep = np.concatenate([np.full(q.size, not excl or q.name not in excl) for q in sp.quants]).astype(bool)
    for _ in range(3):
        x, tag = vec(rng, sp.n)
        if order not in (np.inf, -np.inf, 0) and (abs(order) > 3 or order < 1) and tag == "wide":
            x, tag = rng.normal(size=sp.n), "normal"
        flat = np.zeros(ode.get_state_size())
        flat[idx] = x
        st = state_of(flat)
        with np.errstate(all="ignore"):
            got = ode.compute_state_norm(st)
        want = textbook(x[keep], order)
        mon.close(got, want, "norm", f"norm of order {order} over {int(keep.sum())} entries ({tag}, excluded {excl})", rtol=1e-12, atol=0.0, state=x)
        mon.require(np.ndim(got) == 0 and float(got) >= 0, "norm-scalar", f"norm {got!r} is not a non-negative scalar")
        mon.require(np.array_equal(st.stage_state, flat), "norm-readonly", "the normed state was modified")
        if order not in (0,) and order != np.inf and tag == "normal":
            with np.errstate(all="ignore"):
                s = ode.compute_state_norm(state_of(-3.0 * flat))
            mon.close(s, 3.0 * want, "homogeneous", f"norm of order {order} is not homogeneous", rtol=1e-11, atol=0.0)
        mon.count("norms")
        mon.distinct(str(order), len(names), bool(excl), tag)
    mon.note(order=str(order), quantities=names, excluded=excl)


def measure(rng, mon):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), max_size=3)
    order = pick_order(rng) if rng.random() < 0.5 else None
    if order is not None and order <= 0:
        order = None
    ode = make_ode(rng, sp, order)
    o = 2.0 if order is None else order
    e, te = vec(rng, sp.n)
    y, ty = vec(rng, sp.n)
    if o not in (np.inf,):
        e, y = np.clip(e, -1e20, 1e20), np.clip(y, -1e20, 1e20)
    em, ym = textbook(e, o), textbook(y, o)
    idx = layout(ode, sp)
    fe, fy = np.zeros(sp.n), np.zeros(sp.n)
    fe[idx], fy[idx] = e, y
    got = SimpleErrorMeasurer().get_measure(state_of(fe), state_of(fy), ode)
    mon.close(got, em, "simple", "simple error measure", rtol=1e-12, atol=0.0)
    eta, eps = float(10 ** rng.uniform(-9, 2)), float(10 ** rng.uniform(-9, 2))
    got = ImprovedErrorMeasurer(eta=eta, eps=eps).get_measure(state_of(fe), state_of(fy), ode)
    mon.close(got, em / (ym + eta / eps), "improved", f"improved error measure with eta={eta}, eps={eps}", rtol=1e-12, atol=0.0)
    got = ImprovedErrorMeasurer().get_measure(state_of(fe), state_of(fy), ode)
    mon.close(got, em / (ym + 1.0), "improved-default", "improved error measure with default tolerances", rtol=1e-12, atol=0.0)
    z = ImprovedErrorMeasurer(eta=eta, eps=eps).get_measure(state_of(np.zeros(sp.n)), state_of(fy), ode)
    mon.require(z == 0.0 and SimpleErrorMeasurer().get_measure(state_of(np.zeros(sp.n)), state_of(fy), ode) == 0.0, "zero-error", "vanishing error estimate has nonzero measure")
    mon.count("measures")
    mon.distinct("measure", str(o), te, ty)
    mon.note(order=str(o), eta=eta, eps=eps)


def custom(rng, mon):
    """Measurers take norms from the given ODE, whatever norm it defines."""
    sp = M.random_spec(rng, nq=1, max_size=3)
    calls = []
    w = rng.random(sp.n) + 0.1

    class Weighted(M.PyODE):
        def compute_state_norm(self, state):
            calls.append(np.array(state.stage_state))
            return float(np.sum(w * np.abs(state.stage_state)))

    ode = Weighted(sp)
    e, y = rng.normal(size=sp.n), rng.normal(size=sp.n)
    got = SimpleErrorMeasurer().get_measure(state_of(e), state_of(y), ode)
    mon.close(got, float(np.sum(w * np.abs(e))), "custom-simple", "simple measure with a user-defined norm", rtol=1e-13)
    eta, eps = float(10 ** rng.uniform(-6, 1)), float(10 ** rng.uniform(-6, 1))
    got = ImprovedErrorMeasurer(eta=eta, eps=eps).get_measure(state_of(e), state_of(y), ode)
    mon.close(got, float(np.sum(w * np.abs(e))) / (float(np.sum(w * np.abs(y))) + eta / eps), "custom-improved", "improved measure with a user-defined norm", rtol=1e-13)
    mon.count("custom_calls", len(calls))
    mon.distinct("custom", sp.n)


def live(rng, mon):
    """Measures used and stored by real runs."""
    if rng.random() < 0.5:
        s = Setup(rng, final=False, chain=False)
        s.note(mon)
        try:
            s.rig.run(s.t0, s.y0, s.p)
        except GAVE_UP:
            raise Skip("gave up") from None
        fi = s.rig.flat_index()
        for ev in s.rig.actl:
            if ev["kind"] == "meas":
                mon.close(ev["val"], s.measure(ev["est"], ev["y"]), "live-measure", "error measure of an attempt", rtol=1e-12, atol=0.0)
                mon.count("live_measures")
        acc = [e for e in s.rig.log if e["list"] == "compute" and e["when"] == "after"]
        for e in acc:
            mon.close(e["err"][0], s.measure(e["est"], e["y1"]), "stored-measure", "newest entry of the error history", rtol=1e-12, atol=0.0)
        mon.distinct("live", s.label, type(s.measurer).__name__)
        return
    # fixed steps with an embedded tableau: histories hold the measures as well
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)))
    tab, label = M.pick_tableau(rng, embedded=True)
    meas = SimpleErrorMeasurer() if rng.random() < 0.5 else ImprovedErrorMeasurer(eta=float(10 ** rng.uniform(-4, 1)), eps=float(10 ** rng.uniform(-4, 1)))
    rig = Rig(sp, tab, n=int(rng.integers(1, 6)), h=0.05, extra={"error_measurer": meas})
    t0, y0, p = random_state(rng, sp)
    rig.run(t0, y0, p)
    for e in rig.log:
        if e["when"] == "after":
            en = textbook(e["est"], 2)
            want = en if isinstance(meas, SimpleErrorMeasurer) else en / (textbook(e["y1"], 2) + meas.eta / meas.eps)
            mon.close(e["err"][0], want, "fixed-measure", "newest entry of the error history of a fixed-step run", rtol=1e-11, atol=1e-300)
            mon.count("embedded_fixed")
    mon.distinct("fixed", label, type(meas).__name__)
    mon.note(tableau=label)


def run(kind, idx, rng, mon, tier):
    {"norm": norm, "measure": measure, "custom": custom, "live": live}[kind](rng, mon)
