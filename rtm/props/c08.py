"""C08: step sizes respect the bounds, final times are hit exactly, progress is made."""

import numpy as np

from rkopenmdao import error_controllers as EC
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ErrorMeasurer

from rtm import model as M
from rtm.adapt import GAVE_UP, Setup, pick_controllers, split_steps
from rtm.core import Violation
from rtm.rig import Rig, random_state

KINDS = {"final": (420, 3000), "steps": (190, 1200), "direct": (240, 1500), "grow": (100, 600), "retries": (40, 200)}
MIN_EVENTS = {"suggestions": 5000, "cut_to_remaining": 100, "clamped_low": 60, "clamped_high": 60, "initial_exceeds_interval": 30, "final_times": 200, "long_retry_chains": 4, "retries": 4000}
RULE = ("adaptive integrations (as C07) with emphasis on final times: initial step sizes from far below to far above the interval, bounds active or contradictory to the "
        "interval, start times of any sign and magnitude; controllers driven directly with error ratios 1e-40..1e40, histories and bounds at extremes; "
        "distinct = (controllers, tableau, which bound was active, final/steps)")
ASSUMPTIONS = ["times are compared to 4 ulp of the largest time involved",
               "the number of attempts is bounded only for purely integral controllers (filter controllers may legitimately give up or crawl at the lower bound)"]


def check_suggestion(mon, cfg, c, where):
    s, cap = c["sugg"], c["rem"] + (0.0 if c["acc"] else c["dt"])
    if s is None:
        return "gave-up"
    mon.count("suggestions")
    mon.require(np.isfinite(s) or not np.isfinite(cfg.upper_bound), "finite", f"{where}: suggestion {s}")
    mon.require(s <= cfg.upper_bound * (1 + 1e-14), "upper-bound", f"{where}: suggested {s!r} above the upper bound {cfg.upper_bound!r}")
    tiny = 4 * np.finfo(float).eps * max(abs(c["dt"]), abs(cap) if np.isfinite(cap) else 0.0)
    mon.require(s <= cap + tiny, "remaining-time", f"{where}: suggested {s!r} exceeds the remaining time {cap!r}")
    if s < cfg.lower_bound * (1 - 1e-14):
        mon.close(s, cap, "lower-bound", f"{where}: suggested {s!r} below the lower bound {cfg.lower_bound!r} though {cap!r} remain", rtol=1e-12, atol=tiny)
        mon.count("cut_to_remaining")
        return "cut"
    if s == cap:
        mon.count("cut_to_remaining")
        return "cut"
    if s == cfg.lower_bound:
        mon.count("clamped_low")
        return "low"
    if s == cfg.upper_bound:
        mon.count("clamped_high")
        return "high"
    return "free"


def run(kind, idx, rng, mon, tier):
    if kind == "direct":
        return direct(rng, mon)
    if kind == "grow":
        return grow(rng, mon)
    if kind == "retries":
        return retries(rng, mon, idx)
    kw = {}
    if kind == "final":
        if rng.random() < 0.35:     # an initial step size that does not fit
            kw["h_rel"] = float(rng.choice([1.0, 1.0 + 1e-12, 1.5, 7.0, 100.0]))
        if rng.random() < 0.3:      # the same interval far away from zero
            kw["offset"] = float(rng.choice([-1, 1]) * 10 ** rng.uniform(1, 4))
    s = Setup(rng, final=kind == "final", **kw)
    s.note(mon)
    rig, cfg = s.rig, s.cfg
    gave_up = False
    out = None
    try:
        out = rig.run(s.t0, s.y0, s.p)
    except GAVE_UP:
        gave_up = True
        mon.count("controller_gave_up")
        mon.require(not s.tame, "integral-gave-up", "the integral controller always finds a smaller step size")
    eps = np.finfo(float).eps
    steps = split_steps(rig.trace, "compute")
    t = s.t0
    for k, (bef, evs, aft) in enumerate(steps):
        for c in [e for e in evs if e["kind"] == "ctrl"]:
            act = check_suggestion(mon, cfg, c, f"step {k + 1}")
            mon.distinct(s.cname, s.label, act, kind)
            mon.require(c["dt"] > 0, "positive", f"step {k + 1}: attempted step size {c['dt']!r}")
            if kind == "final":
                end = t + c["dt"]
                u = 4 * eps * max(abs(s.T), abs(t), abs(end))
                mon.require(end <= s.T + u, "overshoot", f"step {k + 1} attempts to step from {t!r} to {end!r} past the final time {s.T!r}")
                mon.close(c["rem"], s.T - end, "remaining", "remaining time passed to the controller", rtol=0, atol=4 * u)
        if aft is None:
            break
        mon.require(aft["t1"] > aft["t0"], "time-increases", f"step {k + 1}: time from {aft['t0']!r} to {aft['t1']!r}")
        mon.require(aft["t0"] == t, "time-continues", f"step {k + 1} starts at {aft['t0']!r}, previous one ended at {t!r}")
        t = aft["t1"]
    if steps and steps[0][1]:
        first = [e for e in steps[0][1] if e["kind"] == "ctrl"][0]["dt"]
        want = s.h if kind == "steps" else min(s.h, s.T - s.t0)
        mon.close(first, want, "first-step", "the first attempt uses the initial step size cut to the interval", rtol=1e-12, atol=0)
        if kind == "final" and s.h > s.T - s.t0:
            mon.count("initial_exceeds_interval")
    if not gave_up:
        if kind == "final":
            u = 4 * eps * max(abs(s.T), abs(s.t0))
            mon.require(abs(out[0] - s.T) <= u, "final-time", f"integration ended at {out[0]!r} instead of {s.T!r}")
            mon.count("final_times")
        else:
            n = sum(1 for x in steps if x[2] is not None)
            mon.require(n == s.n, "number-of-steps", f"{n} accepted steps instead of {s.n}")


def grow(rng, mon):
    """Constant and polynomial right-hand sides: zero error estimates must not stop progress."""
    sp = M.random_spec(rng, nq=1, max_size=2, indep=0, time=False)
    sp.A[:], sp.N[:] = 0.0, 0.0
    sp.G, sp.om_, sp.ph = rng.normal(size=sp.n), np.zeros(sp.n), np.full(sp.n, np.pi / 2)
    s = Setup(rng, final=True, sp=sp, chain=False)
    s.note(mon)
    try:
        out = s.rig.run(s.t0, s.y0, s.p)
    except GAVE_UP:
        raise Violation("constant-gave-up", "a constant right-hand side is integrated without error") from None
    u = 4 * np.finfo(float).eps * max(abs(s.T), abs(s.t0))
    mon.require(abs(out[0] - s.T) <= u, "final-time", f"integration ended at {out[0]!r} instead of {s.T!r}")
    mon.close(out[1], s.y0 + (s.T - s.t0) * sp.G, "constant-slope", "linear growth is exact", rtol=1e-10, atol=1e-12)
    mon.count("final_times")
    for e in s.rig.actl:
        if e["kind"] == "ctrl":
            check_suggestion(mon, s.cfg, e, "constant slope")


def direct(rng, mon):
    cname, facs = pick_controllers(rng)
    mon.note(controllers=cname)
    for _ in range(60):
        tol = float(10 ** rng.uniform(-10, 2))
        lb = float(rng.choice([0.0, 10 ** rng.uniform(-6, 1)]))
        ub = float(rng.choice([np.inf, lb * 1.0 + 10 ** rng.uniform(-5, 3), max(lb, 1e-3)]))
        cfg = ErrorControllerConfig(tol=tol, lower_bound=lb, upper_bound=ub, safety_factor=float(rng.uniform(0.3, 1.0)), max_iter=int(rng.integers(0, 4)))
        c = None
        p = int(rng.integers(1, 9))
        for f in facs:
            c = f(p, config=cfg, base=c)
        for _ in range(4):
            dt = float(np.clip(10 ** rng.uniform(-8, 3), lb * 0.3, None))
            rem = float(rng.choice([0.0, 10 ** rng.uniform(-8, 3), np.inf, dt, 1e-15]))
            err = tol * float(10 ** rng.uniform(-40, 40)) if rng.random() < 0.5 else tol * float(10 ** rng.uniform(-1, 1))
            if rng.random() < 0.1:
                err = 0.0
            k = int(rng.integers(3))  # how many entries of the histories are filled
            sh, eh = np.zeros(2), np.full(2, tol)
            sh[:k] = dt * 10 ** rng.uniform(-2, 2, size=k)
            eh[:k] = tol * 10 ** rng.uniform(-5, 5, size=k)
            if k and rng.random() < 0.15:
                eh[int(rng.integers(k))] = 0.0
            try:
                st = c(error_measure=err, delta_t=dt, remaining_time=rem, error_history=eh, step_size_history=sh)
            except GAVE_UP:
                mon.count("controller_gave_up")
                break
            ev = {"sugg": float(np.ravel(st.step_size_suggestion)[0]), "acc": bool(st.acceptance), "dt": dt, "rem": rem, "err": err}
            act = check_suggestion(mon, cfg, ev, f"{cname} err/tol={err / tol:.2e} dt={dt:.2e} rem={rem:.2e}")
            if not ev["acc"]:
                mon.require(ev["sugg"] < dt or len(facs) > 1, "retry-shrinks", f"{cname}: rejected step {dt!r} is retried with {ev['sugg']!r}")
            mon.distinct("direct", cname, act, ev["acc"])


class Reluctant(ErrorMeasurer):
    """Reports errors slightly above tolerance for the first attempts of each step."""

    def __init__(self, tol, ratio, counts):
        self.tol, self.ratio, self.counts, self.k, self.i = tol, ratio, counts, 0, 0

    def restart(self):
        self.k, self.i = 0, 0

    def get_measure(self, state_error_estimate, state, ode):
        if self.k < self.counts[self.i % len(self.counts)]:
            self.k += 1
            return self.tol * self.ratio
        self.k, self.i = 0, self.i + 1
        return self.tol / self.ratio


def retries(rng, mon, idx):
    """Steps that are rejected any number of times: every attempt starts anew, the last one counts."""
    sp = M.random_spec(rng, nq=1, max_size=2)
    t0, y0, p = random_state(rng, sp)
    tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
    n = int(rng.integers(1, 4))
    long_ = idx % 4 == 0
    counts = [int(10 ** rng.uniform(0, 2)) for _ in range(n)]
    if long_:
        counts[int(rng.integers(n))] = int(rng.integers(900, 1600))
    tol, sf = 1e-3, float(rng.choice([0.995, 0.99])) if long_ else float(rng.uniform(0.9, 0.99))
    meas = Reluctant(tol, 1.0 + 1e-5, counts)
    cfg = ErrorControllerConfig(tol=tol, safety_factor=sf, max_iter=10 ** 6)
    h = float(rng.uniform(0.2, 0.5))
    rig = Rig(sp, tab, n=n, h=h, adaptive=True, controllers=[EC.integral], ctrl_cfg=cfg, measurer=meas)
    mon.note(tableau=label, retries=counts, safety=sf)
    out = rig.run(t0, y0, p)
    steps = split_steps(rig.trace, "compute")
    mon.require(len(steps) == n and all(x[2] is not None for x in steps), "number-of-steps", f"{len(steps)} steps instead of {n}")
    hs = []
    for k, (bef, evs, aft) in enumerate(steps):
        att = [e for e in evs if e["kind"] == "ctrl"]
        mon.require(len(att) == counts[k] + 1, "attempts", f"step {k + 1}: {len(att)} attempts, {counts[k]} of them rejected by the measure")
        for a, b in zip(att, att[1:]):
            mon.require(b["dt"] == a["sugg"], "retry-size", f"step {k + 1}: retry with {b['dt']!r}, suggested {a['sugg']!r}")
            mon.require(b["dt"] < a["dt"], "retry-shrinks", f"step {k + 1}: retry with {b['dt']!r} after {a['dt']!r}")
        mon.count("retries", counts[k])
        if counts[k] >= 900:
            mon.count("long_retry_chains")
        hs.append(att[-1]["dt"])
    ref, _, _ = rig.ref(t0, y0, p, hs)
    mon.close(out[1], ref[-1].y1, "result", "result of the accepted steps alone", rtol=1e-9, atol=1e-11, scale=1 + float(np.max(np.abs(ref[-1].y1))))
    mon.close(out[0], t0 + sum(hs), "final-time", "sum of accepted steps", rtol=1e-12, atol=1e-12)
    J = rig.ref_jac(ref, p)
    meas.restart()
    v = rng.normal(size=J.shape[1])
    mon.close(rig.fwd(v), J @ v, "forward", "forward product with many retries", rtol=1e-7, atol=1e-9, scale=1 + float(np.max(np.abs(J))))
    meas.restart()
    w = rng.normal(size=J.shape[0])
    mon.close(rig.rev(w), J.T @ w, "reverse", "reverse product with many retries", rtol=1e-7, atol=1e-9, scale=1 + float(np.max(np.abs(J))))
    mon.distinct("retries", label, n, long_)
