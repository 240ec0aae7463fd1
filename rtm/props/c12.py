"""C12: callbacks see every step exactly once, in order, with the right state."""

import numpy as np

from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
from rkopenmdao.error_controller import ErrorControllerConfig

from rtm import model as M
from rtm.adapt import GAVE_UP
from rtm.core import Planned, Skip, Violation
from rtm.rig import AllCheckpointer, NoCheckpointer, RecordingCallback, Rig, checkpoint_choice, random_state

KINDS = {"fixed": (400, 1600), "adaptive": (200, 800), "shipped": (120, 500), "raise": (100, 300)}
MIN_EVENTS = {"events": 6000, "rev_events": 1000, "fwd_events": 1000, "recomputed": 100, "raised": 30, "shipped_runs": 30}
RULE = ("random integrations (fixed/adaptive, final time/step count, all checkpointing strategies incl. those that recompute steps) with lists of 0-3 recording callbacks per "
        "hook; the totally ordered event log of runs, forward and reverse products is checked against the protocol (numbering, alternation, list order, state at "
        "begin/end of the step against the reference trajectory, no events of other lists); distinct = (operation, #callbacks, #steps, checkpointing, adaptive)")


def lists(rng, log):
    out, names = {}, {}
    for which in ("compute", "fwd", "rev"):
        k = int(rng.integers(1, 4)) if which == "compute" or rng.random() < 0.75 else 0
        names[which] = k
        out[which] = [RecordingCallback(log, f"{which}:{i}") for i in range(k)]
    return out, names


def check_fwd(mon, ev, which, k_cb, traj, fi, what):
    """traj: [(t, y)] reference points 0..N; events must be exactly the protocol."""
    n = len(traj) - 1
    mine = [e for e in ev if e["list"].startswith(which + ":")]
    mon.require(len(mine) == len(ev), "foreign-events", f"{what}: events of other callback lists: {sorted({e['list'] for e in ev if e not in mine})}" if len(mine) != len(ev) else "")
    want = [(w, it, f"{which}:{i}") for it in range(1, n + 1) for w in ("before", "after") for i in range(k_cb)]
    got = [(e["when"], e["it"], e["list"]) for e in mine]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("protocol", f"{what}: event {k} is {got[k] if k < len(got) else 'missing'}, expected {want[k] if k < len(want) else 'none'}")
    mon.count("checks")
    for e in mine:
        it = e["it"]
        a, b = traj[it - 1], traj[it]
        sc = max(1.0, float(np.max(np.abs(b[1]))), float(np.max(np.abs(a[1]))))
        if e["when"] == "before":
            mon.close(e["y1"][fi], a[1], "state-before", f"{what} step {it}: state before the step", rtol=1e-10, atol=1e-12, scale=sc)
            mon.close(e["t1"], a[0], "time-before", f"{what} step {it}: time before the step", rtol=1e-11, atol=1e-12)
        else:
            mon.close(e["y0"][fi], a[1], "state-begin", f"{what} step {it}: start state", rtol=1e-10, atol=1e-12, scale=sc)
            mon.close(e["y1"][fi], b[1], "state-after", f"{what} step {it}: state after the step", rtol=1e-10, atol=1e-12, scale=sc)
            mon.close([e["t0"], e["t1"]], [a[0], b[0]], "time-after", f"{what} step {it}: times", rtol=1e-11, atol=1e-12)
    mon.count("events", len(mine))
    mon.count(which + "_events", len(mine))


def check_rev(mon, ev, k_cb, traj, fi, what):
    n = len(traj) - 1
    mine = [e for e in ev if e["list"].startswith("rev:")]
    want = [(w, it, f"rev:{i}") for it in range(n, 0, -1) for w in ("before", "after") for i in range(k_cb)]
    got = [(e["when"], e["it"], e["list"]) for e in mine]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("rev-protocol", f"{what}: event {k} is {got[k] if k < len(got) else 'missing'}, expected {want[k] if k < len(want) else 'none'}")
    mon.count("checks")
    for e in mine:
        a, b = traj[e["it"] - 1], traj[e["it"]]
        sc = max(1.0, float(np.max(np.abs(b[1]))), float(np.max(np.abs(a[1]))))
        mon.close(e["y0"][fi], a[1], "rev-state", f"{what} step {e['it']}: start state of the reversed step", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(e["y1"][fi], b[1], "rev-state", f"{what} step {e['it']}: end state of the reversed step", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close([e["t0"], e["t1"]], [a[0], b[0]], "rev-time", f"{what} step {e['it']}: times of the reversed step", rtol=1e-11, atol=1e-12)
    # recomputation of steps for checkpointing: right number for the right state
    for e in ev:
        if e["list"].startswith("compute:"):
            mon.require(1 <= e["it"] <= n, "recompute-number", f"{what}: recomputed step number {e['it']}")
            a, b = traj[e["it"] - 1], traj[e["it"]]
            ref = a if e["when"] == "before" else b
            sc = max(1.0, float(np.max(np.abs(ref[1]))))
            mon.close(e["y1"][fi], ref[1], "recompute-state", f"{what}: recomputed step {e['it']} {e['when']}", rtol=1e-10, atol=1e-12, scale=sc)
            mon.close(e["t1"], ref[0], "recompute-time", f"{what}: recomputed step {e['it']} {e['when']}", rtol=1e-11, atol=1e-12)
            mon.count("recomputed")
        else:
            mon.require(e["list"].startswith("rev:"), "foreign-events", f"{what}: event of {e['list']}")
    mon.count("events", len(ev))
    mon.count("rev_events", len(mine))


def build(rng, kind, sp, t0, extra=None, ck=None):
    kw = {}
    n = int(rng.integers(1, 12))
    h = float(10 ** rng.uniform(-2.3, -0.9))
    if kind == "adaptive":
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        kw = dict(adaptive=True, ctrl_cfg=ErrorControllerConfig(tol=float(10 ** rng.uniform(-5, -2)), lower_bound=5e-3, upper_bound=0.5))
    else:
        tab, label = M.pick_tableau(rng)
    if rng.random() < 0.3:
        kw["T"] = t0 + h * float(rng.uniform(0.5, 8))
        ck = ck or ("all", AllCheckpointer, {})
    else:
        kw["n"] = n
        ck = ck or checkpoint_choice(rng, n)
    return lambda ex: Rig(sp, tab, h=h, ckpt=ck[1:], extra=ex, **kw), label, ck


def opts(cb):
    return {"compute_callbacks": cb["compute"], "compute_jacvec_product_fwd_callbacks": cb["fwd"], "compute_jacvec_product_rev_callbacks": cb["rev"]}


def run(kind, idx, rng, mon, tier):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2)
    t0, y0, p = random_state(rng, sp)
    if kind == "shipped":
        return shipped(rng, mon, sp, t0, y0, p)
    if kind == "raise":
        return raising(rng, mon, sp, t0, y0, p)
    mk, label, ck = build(rng, kind, sp, t0)
    log = []
    cb, ks = lists(rng, log)
    rig = mk(opts(cb))
    rig.cbs[0] = cb["compute"][0]
    mon.note(kind=kind, tableau=label, ckpt=ck[0], callbacks=ks)
    seq = ["run", "fwd", "run", "rev", "rev", "fwd", "run", "rev"]
    if rng.random() < 0.5:
        seq = ["run", "rev", "fwd", "run"]
    traj = None
    for op in seq:
        log.clear()
        if op == "run":
            try:
                out = rig.run(t0, y0, p)
            except GAVE_UP:
                raise Skip("controller gave up") from None
            hs = [e["t1"] - e["t0"] for e in log if e["list"] == "compute:0" and e["when"] == "after"]
            steps, _, _ = rig.ref(t0, y0, p, hs)
            traj = [(t0, y0)] + [(s.t + s.h, s.y1) for s in steps]
            fi = rig.flat_index()
            check_fwd(mon, log, "compute", ks["compute"], traj, fi, f"run ({ck[0]})")
            mon.require(out[0] == log[-1]["t1"] and np.array_equal(out[1], log[-1]["y1"][fi]), "result-is-last", "outputs are the state seen last")
        elif op == "fwd":
            rig.fwd(rng.normal(size=1 + sp.n + sp.m))
            check_fwd(mon, log, "fwd", ks["fwd"], traj, fi, f"forward product ({ck[0]})")
        else:
            rig.rev(rng.normal(size=1 + sp.n))
            check_rev(mon, log, ks["rev"], traj, fi, f"reverse product ({ck[0]})")
        mon.distinct(op, ks, len(traj) - 1, ck[0], kind)


def shipped(rng, mon, sp, t0, y0, p):
    """Default and explicitly passed logging/timing callbacks change nothing."""
    mk, label, ck = build(rng, str(rng.choice(["fixed", "adaptive"])), sp, t0)
    none = {"compute_callbacks": [], "compute_jacvec_product_fwd_callbacks": [], "compute_jacvec_product_rev_callbacks": []}
    default = {k: None for k in none}
    explicit = {k: [IterationLogging("f"), WallClockMeasurement()] for k in none}
    res = []
    v, w = rng.normal(size=1 + sp.n + sp.m), rng.normal(size=1 + sp.n)
    for ex in (none, default, explicit):
        rig = mk(dict(ex))
        try:
            out = rig.run(t0, y0, p)
        except GAVE_UP:
            raise Skip("controller gave up") from None
        res.append(np.concatenate([[out[0]], out[1], rig.fwd(v), rig.rev(w)]))
        mon.count("shipped_runs")
    mon.note(tableau=label, ckpt=ck[0])
    mon.require(np.array_equal(res[0], res[1]), "default-callbacks", "default callbacks change results")
    mon.require(np.array_equal(res[0], res[2]), "explicit-callbacks", "explicitly passed shipped callbacks change results")
    mon.distinct("shipped", label, ck[0])


def raising(rng, mon, sp, t0, y0, p):
    """An exception of a user callback reaches the user and stops the integration at that point."""
    mk, label, ck = build(rng, "fixed", sp, t0)
    log = []
    cb, ks = lists(rng, log)
    rig = mk(opts(cb))
    rig.run(t0, y0, p)
    n_ev = len(log)
    log.clear()
    stop = int(rng.integers(1, n_ev + 1))

    def hook(ev, st):
        if len(log) == stop:
            raise Planned("callback")
    for c in cb["compute"]:
        c.hook = hook
    try:
        rig.run(t0, y0, p)
    except Planned:
        mon.require(len(log) == stop, "stops-at-raise", f"{len(log)} events seen though event {stop} raised")
        mon.count("raised")
        mon.distinct("raise", stop, ck[0])
        return
    raise Violation("swallowed", f"the exception of callback event {stop} of {n_ev} was swallowed")
