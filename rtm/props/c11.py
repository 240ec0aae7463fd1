"""C11: integrations stop exactly when their termination criterion says so."""

import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps, TerminationCriterion

from rtm import model as M
from rtm.adapt import GAVE_UP
from rtm.core import Budget, Skip
from rtm.rig import AllCheckpointer, NoCheckpointer, Rig, checkpoint_choice, random_state

KINDS = {"steps": (180, 900), "time": (180, 900), "custom": (180, 900), "degenerate": (80, 300), "adaptive": (120, 600)}
MIN_EVENTS = {"runs": 250, "steps": 1000, "criterion_calls": 300, "no_step_runs": 30, "fwd_runs": 150, "rev_runs": 80}
RULE = ("fixed and adaptive integrations x step counts 0..60 x start/final times with step sizes that divide the interval, almost divide it (one ulp around) or not x "
        "user-defined criteria (by state, by time, by count, with and without remaining time) x checkpointing; run, forward and reverse products are all counted; distinct = "
        "(criterion kind, relation of step size and interval, #steps, checkpointing)")


class Recorded(TerminationCriterion):
    """User-defined criterion; logs every question."""

    def __init__(self, trace, rule, with_remaining=None, cap=3000):
        self.trace, self.rule, self.cap = trace, rule, cap
        if with_remaining is not None:
            self.remaining_time = lambda t: with_remaining - t

    def is_iteration_finished(self, iteration, time_integration_state):
        d = time_integration_state.discretization_state
        t, y = float(d.final_time[0]), np.array(d.final_state)
        ans = bool(self.rule(iteration, t, y))
        self.trace.append({"crit": True, "it": int(iteration), "t": t, "y": y, "ans": ans})
        if len(self.trace) > self.cap:
            raise Budget("the termination criterion is ignored")
        return ans


def count(rig, which):
    return sum(1 for e in rig.log if e["list"] == which and e["when"] == "after")


def products(mon, rig, sp, rng, nsteps, rev=True):
    """Forward and reverse products go through the same number of steps."""
    rig.log.clear()
    rig.fwd(rng.normal(size=1 + sp.n + sp.m))
    mon.require(count(rig, "fwd") == nsteps, "fwd-steps", f"forward product made {count(rig, 'fwd')} steps, the run {nsteps}")
    mon.count("fwd_runs")
    if rev:
        rig.log.clear()
        rig.rev(rng.normal(size=1 + sp.n))
        mon.require(count(rig, "rev") == nsteps, "rev-steps", f"reverse product made {count(rig, 'rev')} steps, the run {nsteps}")
        mon.count("rev_runs")


def run(kind, idx, rng, mon, tier):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2)
    t0, y0, p = random_state(rng, sp)
    rev = True
    if kind == "steps":
        tab, label = M.pick_tableau(rng)
        n = int(rng.integers(0, 61)) if rng.random() < 0.3 else int(rng.integers(0, 10))
        h = float(10 ** rng.uniform(-4, -1.3))
        ck = checkpoint_choice(rng, max(n, 1))
        if rng.random() < 0.2:
            ck, rev = ("none", NoCheckpointer, {}), False
        rig = Rig(sp, tab, n=n, h=h, ckpt=ck[1:])
        out = rig.run(t0, y0, p)
        mon.note(criterion="steps", n=n, tableau=label, ckpt=ck[0])
        k = count(rig, "compute")
        mon.require(k == n, "number-of-steps", f"{k} steps made, {n} requested ({ck[0]})")
        mon.close(out[0], t0 + n * h, "time", f"{n} steps of {h}", rtol=1e-12, atol=1e-12)
        crit = PredefinedNumberOfSteps(n)
        st = getattr(rig.integrator, "_time_integration_state", None)
        for k in (0, max(n - 1, 0), n, n + 1, n + 7):
            mon.require(bool(crit.is_iteration_finished(k, st)) == (k >= n), "criterion", f"{k} of {n} steps done")
        mon.distinct("steps", n, ck[0])
        products(mon, rig, sp, rng, n, rev)
    elif kind == "time":
        tab, label = M.pick_tableau(rng)
        h = float(10 ** rng.uniform(-3, -0.7))
        k = int(rng.integers(1, 25))
        rel = str(rng.choice(["divides", "ulp-above", "ulp-below", "free", "short"]))
        t = t0
        for _ in range(k):
            t = t + h
        T = {"divides": t, "ulp-above": float(np.nextafter(t, np.inf)), "ulp-below": float(np.nextafter(t, -np.inf)),
             "free": t0 + h * float(rng.uniform(0.05, 25)), "short": t0 + h * float(rng.uniform(1e-6, 0.99))}[rel]
        ck = (AllCheckpointer, {}) if rng.random() < 0.7 else (NoCheckpointer, {})
        rig = Rig(sp, tab, T=T, h=h, ckpt=ck)
        out = rig.run(t0, y0, p)
        mon.note(criterion="time", relation=rel, h=h, interval=T - t0, tableau=label)
        ev = [e for e in rig.log if e["when"] == "after"]
        mon.require(len(ev) >= 1, "makes-steps", f"no step made from {t0!r} to {T!r}")
        for e in ev:
            mon.require(e["t0"] < T, "late-step", f"a step starts at {e['t0']!r} although the final time {T!r} is reached")
            mon.close(e["t1"] - e["t0"], h, "fixed-size", "step size", rtol=1e-9, atol=1e-13)
        mon.require(out[0] >= T, "too-early", f"stopped at {out[0]!r} before the final time {T!r}")
        mon.require(out[0] == ev[-1]["t1"], "final-time", "time_final is the end of the last step")
        mon.require(out[0] - T < h * (1 + 1e-9) + 1e-12, "too-late", f"stopped at {out[0]!r}, more than one step after {T!r}")
        mon.distinct("time", rel, len(ev))
        products(mon, rig, sp, rng, len(ev), ck[0] is AllCheckpointer)
        n = len(ev)
    elif kind == "custom":
        tab, label = M.pick_tableau(rng)
        h = float(10 ** rng.uniform(-2.5, -1))
        by = str(rng.choice(["state", "time", "count"]))
        lim = int(rng.integers(1, 15))
        if by == "state":
            d0 = float(rng.uniform(0.01, 0.3))
            ref = {}

            def rule(i, t, y):
                if i == 0:
                    ref["y"] = y
                return i >= 25 or float(np.max(np.abs(y - ref["y"]))) > d0
        elif by == "time":
            T = t0 + h * (lim - 0.5)
            rule = lambda i, t, y: t >= T
        else:
            rule = lambda i, t, y: i >= lim
        trace = []
        crit = Recorded(trace, rule)
        ck = (AllCheckpointer, {}) if rng.random() < 0.7 else (NoCheckpointer, {})
        rig = Rig(sp, tab, termination=crit, h=h, ckpt=ck)
        crit.trace = rig.trace
        rig.trace.clear()
        mon.note(criterion="custom:" + by, tableau=label, h=h)
        out = rig.run(t0, y0, p)
        n = count(rig, "compute")
        protocol(mon, rig, "compute", t0)
        if by == "count":
            mon.require(n == lim, "number-of-steps", f"{n} steps instead of {lim}")
        steps, tr, yr = rig.ref(t0, y0, p, [h] * n)
        mon.close(out[1], yr, "result", "the result is the state at which the criterion stopped", rtol=1e-10, atol=1e-12, scale=max(1.0, np.abs(yr).max()))
        rig.trace.clear(), rig.log.clear()
        rig.fwd(rng.normal(size=1 + sp.n + sp.m))
        protocol(mon, rig, "fwd", t0)
        mon.distinct("custom", by, n)
        products(mon, rig, sp, rng, n, ck[0] is AllCheckpointer)
    elif kind == "degenerate":
        tab, label = M.pick_tableau(rng)
        which = str(rng.choice(["zero-steps", "at-final-time", "after-final-time", "custom-stop"]))
        adaptive = bool(tab.is_embedded and rng.random() < 0.4)
        kw = dict(adaptive=True, ctrl_cfg=ErrorControllerConfig(tol=1e-3)) if adaptive else {}
        ck = ("all", AllCheckpointer, {})
        if which == "zero-steps":
            ck = checkpoint_choice(rng, 1)
            rig = Rig(sp, tab, n=0, h=0.1, ckpt=ck[1:], **kw)
        elif which == "custom-stop":
            rig = Rig(sp, tab, termination=Recorded([], lambda i, t, y: True), h=0.1, **kw)
        else:
            rig = Rig(sp, tab, T=t0 - (0.0 if which == "at-final-time" else float(10 ** rng.uniform(-10, 1))), h=0.1, **kw)
        mon.note(criterion=which, adaptive=adaptive, ckpt=ck[0])
        out = rig.run(t0, y0, p)
        mon.require(len(rig.log) == 0, "no-steps", f"{which}: {len(rig.log)} callback events though there is nothing to do")
        mon.require(out[0] == t0 and np.array_equal(out[1], y0), "unchanged", f"{which}: result differs from the initial values", got=out, want=(t0, y0))
        v, w = rng.normal(size=1 + sp.n + sp.m), rng.normal(size=1 + sp.n)
        mon.close(rig.fwd(v), v[:1 + sp.n], "identity-fwd", f"{which}: forward derivative is the identity", rtol=0, atol=0)
        mon.close(rig.rev(w), np.concatenate([w, np.zeros(sp.m)]), "identity-rev", f"{which}: reverse derivative is the identity", rtol=0, atol=0)
        mon.count("no_step_runs")
        mon.distinct(which, adaptive, ck[0])
        n = 0
    else:
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        cfg = ErrorControllerConfig(tol=float(10 ** rng.uniform(-5, -2)), lower_bound=2e-3, upper_bound=0.5)
        how = str(rng.choice(["steps", "time", "custom-remaining", "custom"]))
        h = float(10 ** rng.uniform(-3, -0.3))
        T = t0 + float(rng.uniform(0.05, 0.8))
        n0 = int(rng.integers(1, 10))
        trace = []
        term = {"steps": lambda: PredefinedNumberOfSteps(n0), "time": lambda: PredefinedFinalTime(T),
                "custom-remaining": lambda: Recorded(trace, lambda i, t, y: t >= T, with_remaining=T),
                "custom": lambda: Recorded(trace, lambda i, t, y: i >= n0)}[how]()
        rig = Rig(sp, tab, termination=term, h=h, adaptive=True, ctrl_cfg=cfg)
        if trace is not None and isinstance(term, Recorded):
            term.trace = rig.trace
        mon.note(criterion="adaptive:" + how, tableau=label, h=h)
        try:
            out = rig.run(t0, y0, p)
        except GAVE_UP:
            raise Skip("controller gave up") from None
        n = count(rig, "compute")
        if how in ("steps", "custom"):
            mon.require(n == n0, "number-of-steps", f"{n} accepted steps instead of {n0}")
        else:
            u = 8 * np.finfo(float).eps * max(abs(T), abs(t0))
            mon.require(abs(out[0] - T) <= u, "final-time", f"stopped at {out[0]!r} instead of {T!r} ({how})")
        if isinstance(term, Recorded):
            protocol(mon, rig, "compute", t0)
        mon.distinct("adaptive", how, n)
        products(mon, rig, sp, rng, n)
    mon.count("runs")
    mon.count("steps", n)


def protocol(mon, rig, which, t0):
    """Each step is preceded by a 'go on' answer for exactly that number of completed steps and state."""
    done, go, last = 0, None, None
    stopped = False
    for e in rig.trace:
        if e.get("crit"):
            mon.count("criterion_calls")
            if last is not None:
                mon.require(e["it"] == done, "criterion-count", f"criterion asked with {e['it']} completed steps, {done} were made")
                mon.require(e["t"] == last["t1"] and np.array_equal(e["y"], last["y1"]), "criterion-state", "criterion asked with the state after the last step")
            else:
                mon.require(e["it"] == 0 and e["t"] == t0, "criterion-start", f"first question with iteration {e['it']} at {e['t']}")
            go = not e["ans"]
            stopped = stopped or e["ans"]
        elif e.get("list") == which and e["when"] == "before":
            mon.require(go, "step-without-asking", f"step {done + 1} starts although the criterion was not asked or said stop")
        elif e.get("list") == which and e["when"] == "after":
            done += 1
            last, go = e, None
    mon.require(stopped, "stopped-by-criterion", "the integration ended without the criterion saying so")
