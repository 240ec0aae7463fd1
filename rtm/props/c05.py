"""C05: checkpointing strategy and budget never change results."""

import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from rtm import model as M
from rtm.core import HarnessError, Violation
from rtm.rig import AllCheckpointer, NoCheckpointer, PyrevolveCheckpointer, Rig, random_state

# complete grid of (strategy, checkpoints, steps) for small sizes, sampled beyond
TYPES = ("Memory", "Disk", "SingleLevel", "SingleLevelDisk", "all", "none")


def grid():
    out = []
    for n in range(0, 13):
        for typ in ("Memory", "Disk", "SingleLevel"):
            for c in [None] + list(range(1, min(n, 9) + 2)):
                out.append((typ, c, n))
        out.append(("all", None, n))
        out.append(("none", None, n))
    return out


GRID = grid()
KINDS = {"grid": (len(GRID), len(GRID) * 4), "large": (40, 400), "adaptive": (30, 300), "models": (40, 400), "long": (14, 90), "refuse": (30, 200)}
MIN_EVENTS = {"vjp": 300, "repeat_vjp": 100, "refusals": 10, "recomputed_steps": 200}
RULE = (f"complete grid of {len(GRID)} (strategy, #checkpoints incl. unset and more than steps, #steps 0..12) combinations, random ones up to 40 "
        "steps (100 to 3000 in the long runs), adaptive step sizes and the OpenMDAO stage-problem architectures; per combination: run, two to three reverse products (same and "
        "other seeds, with runs in between), each compared with the store-all strategy and a dense reference Jacobian; distinct = (strategy, "
        "checkpoints, steps)")
ASSUMPTIONS = ["Revolve's MultiLevel strategy (documented as unreliable upstream) and the abstract Base strategy are not exercised"]


def choice(typ, c):
    if typ == "all":
        return AllCheckpointer, {}
    if typ == "none":
        return NoCheckpointer, {}
    opts = {} if c is None else {"n_checkpoints": c}
    if typ == "SingleLevelDisk":
        opts["diskstorage"] = True
        typ = "SingleLevel"
    return PyrevolveCheckpointer, {"revolver_type": typ, "revolver_options": opts}


def run(kind, idx, rng, mon, tier):
    if kind == "refuse":
        return refuse(idx, rng, mon)
    if kind == "long":
        return long_run(idx, rng, mon)
    arch = "explicit"
    if kind == "grid":
        typ, c, n = GRID[idx % len(GRID)]
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2)
    else:
        typ = str(rng.choice(TYPES[:5]))
        n = int(rng.integers(13, 41)) if kind == "large" else int(rng.integers(1, 10))
        c = None if rng.random() < 0.3 else int(rng.integers(1, n + 2 if rng.random() < 0.5 else 6))
        if typ == "SingleLevelDisk" and c is None:
            c = 2
        sp = M.random_spec(rng, nq=2, max_size=2)
        if kind == "models":
            arch = M.ARCHS[idx % len(M.ARCHS)]
    kw = {}
    if kind == "adaptive":
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        kw = dict(adaptive=True, ctrl_cfg=ErrorControllerConfig(tol=float(10 ** rng.uniform(-6, -3)), lower_bound=1e-3, upper_bound=0.5))
    else:
        tab, label = M.pick_tableau(rng)
    h = float(10 ** rng.uniform(-2.3, -1))
    mon.note(strategy=typ, checkpoints=c, steps=n, tableau=label, arch=arch)
    mk = lambda ck: Rig(sp, tab, n=n, h=h, arch=arch, ckpt=ck, **kw)
    rig, base = mk(choice(typ, c)), mk((AllCheckpointer, {}))
    tol = dict(rtol=1e-11, atol=1e-13)
    pts = [random_state(rng, sp), random_state(rng, sp)]
    seq = [("run", 0), ("rev", 0), ("rev", 0), ("run", 1), ("rev", 1), ("run", 0), ("run", 0), ("rev", 0)]
    last = None
    for op, k in seq:
        t0, y0, p = pts[k]
        if op == "run":
            rig.log.clear()
            a, b = rig.run(t0, y0, p), base.run(t0, y0, p)
            mon.close(a[0], b[0], "same-time", f"final time with {typ}/{c}/{n}", **tol)
            mon.close(a[1], b[1], "same-values", f"final values with {typ}/{c}/{n}", **tol)
            hs = [e["t1"] - e["t0"] for e in rig.log if e["when"] == "after"]
            mon.require(len(hs) == n, "steps", f"{len(hs)} steps seen in the forward run, {n} requested")
            steps, _, yr = rig.ref(t0, y0, p, hs)
            mon.close(a[1], yr, "reference-values", "final values against reference", rtol=1e-10, atol=1e-12, scale=max(1.0, float(np.max(np.abs(yr), initial=0))))
            J = rig.ref_jac(steps, p)
            continue
        if typ == "none":
            expect_refusal(mon, lambda: rig.rev(np.ones(1 + sp.n)), "no-checkpoint-reverse", (NotImplementedError,))
            continue
        w = rng.normal(size=1 + sp.n)
        rig.log.clear()
        a, b = rig.rev(w), base.rev(w)
        mon.count("recomputed_steps", sum(e["list"] == "compute" and e["when"] == "after" for e in rig.log))
        sc = max(1.0, float(np.max(np.abs(J)))) * float(np.max(np.abs(w)))
        mon.close(a, b, "same-derivatives", f"reverse product with {typ}/{c} and {n} steps vs. storing all", rtol=1e-10, atol=1e-12, scale=sc)
        mon.close(a, J.T @ w, "reference-derivatives", f"reverse product with {typ}/{c} and {n} steps", rtol=1e-9, atol=1e-11, scale=sc)
        mon.count("vjp")
        if last == ("rev", k):
            mon.count("repeat_vjp")
        last = (op, k)
    mon.distinct(typ, c, n, kind)


def long_run(idx, rng, mon):
    """Step counts far beyond the small grids: nothing may be tied to a fixed capacity."""
    typ = ("all", "Memory", "SingleLevel", "Disk")[idx % 4]
    n = int(round(10 ** rng.uniform(2, 3.5 if typ == "all" else 3)))
    c = None if typ == "all" or rng.random() < 0.2 else int(round(10 ** rng.uniform(np.log10(5), np.log10(n))))
    sp = M.random_spec(rng, nq=1, max_size=2)
    tab, label = M.pick_tableau(rng, p_random=0.0)
    while tab.number_of_stages() > 3:
        tab, label = M.pick_tableau(rng, p_random=0.0)
    h = float(rng.uniform(0.5, 2.0)) / n
    mon.note(strategy=typ, checkpoints=c, steps=n, tableau=label, h=h)
    rig = Rig(sp, tab, n=n, h=h, ckpt=choice(typ, c), cap=10 ** 6)
    t0, y0, p = random_state(rng, sp)
    for rep in range(2):
        if rep:
            y0 = y0 + 0.1 * rng.normal(size=sp.n)
        rig.log.clear()
        _, yn = rig.run(t0, y0, p)
        hs = rig.accepted()
        mon.require(len(hs) == n, "steps", f"{len(hs)} steps seen in the forward run, {n} requested")
        steps, _, yr = rig.ref(t0, y0, p, hs)
        mon.close(yn, yr, "reference-values", "final values against reference", rtol=1e-9, atol=1e-11, scale=max(1.0, float(np.max(np.abs(yr)))))
        w = rng.normal(size=1 + sp.n)
        rig.log.clear()
        a = rig.rev(w)
        mon.count("recomputed_steps", sum(e["list"] == "compute" and e["when"] == "after" for e in rig.log))
        J = rig.ref_jac(steps, p)
        mon.close(a, J.T @ w, "reference-derivatives", f"reverse product with {typ}/{c} and {n} steps", rtol=1e-9, atol=1e-11,
                  scale=max(1.0, float(np.max(np.abs(J)))) * float(np.max(np.abs(w))))
        mon.count("vjp")
        mon.count("long_steps", n)
        if typ != "all" and n > 1000:
            break
    mon.distinct(typ, c, n, "long")


LOUD = (AttributeError, NameError, ZeroDivisionError, IndexError, KeyError, RecursionError)


def expect_refusal(mon, call, key, prefer=()):
    try:
        call()
    except (HarnessError, Violation):
        raise
    except Exception as e:  # pylint: disable=broad-except
        mon.count("refusals")
        mon.require(not isinstance(e, LOUD), key, f"refused by accident: {type(e).__name__}: {str(e)[:200]}")
        return
    raise Violation(key, "accepted silently instead of being refused")


def refuse(idx, rng, mon):
    sp = M.random_spec(rng, nq=1)
    tab, label = M.pick_tableau(rng)
    t0, y0, p = random_state(rng, sp)
    which = ("final-time", "unknown-type", "not-a-checkpointer", "no-checkpointer", "default")[idx % 5]
    mon.note(which=which, tableau=label)
    if which == "final-time":
        def call():
            Rig(sp, tab, T=t0 + 0.5, h=0.1, ckpt=(PyrevolveCheckpointer, {"revolver_type": str(rng.choice(["Memory", "Disk", "SingleLevel"]))}))
        expect_refusal(mon, call, "online-checkpointing")
        # the same setting works with the store-all strategy
        rig = Rig(sp, tab, T=t0 + 0.5, h=0.1)
        rig.run(t0, y0, p)
        steps, _, _ = rig.ref(t0, y0, p, rig.accepted())
        w = rng.normal(size=1 + sp.n)
        J = rig.ref_jac(steps, p)
        mon.close(rig.rev(w), J.T @ w, "final-time-all", "store-all supports final times", rtol=1e-9, atol=1e-11, scale=max(1., np.abs(J).max()) * np.abs(w).max())
    elif which == "unknown-type":
        bad = str(rng.choice(["memory", "Disc", "", "Revolve", "single"]))
        expect_refusal(mon, lambda: Rig(sp, tab, n=3, h=0.1, ckpt=(PyrevolveCheckpointer, {"revolver_type": bad})), "unknown-revolver")
    elif which == "not-a-checkpointer":
        bad = [int, dict, M.PyODE][int(rng.integers(3))]
        expect_refusal(mon, lambda: Rig(sp, tab, n=3, h=0.1, ckpt=(bad, {})), "not-a-checkpointer")
    else:
        n = int(rng.integers(1, 6))
        extra = None
        rig = Rig(sp, tab, n=n, h=0.05, ckpt=(NoCheckpointer, {}))
        base = Rig(sp, tab, n=n, h=0.05)
        for _ in range(2):
            a, b = rig.run(t0, y0, p), base.run(t0, y0, p)
            mon.require(a[0] == b[0], "same-time", "time without checkpointing")
            mon.close(a[1], b[1], "same-values", "values without checkpointing", rtol=1e-13, atol=1e-14)
            v = rng.normal(size=1 + sp.n + sp.m)
            mon.close(rig.fwd(v), base.fwd(v), "same-tangent", "forward product without checkpointing", rtol=1e-12, atol=1e-13)
            expect_refusal(mon, lambda: rig.rev(np.ones(1 + sp.n)), "no-checkpoint-reverse")
    mon.distinct(which, label)
