"""C10: chains of error controllers hand over exactly as configured."""

import numpy as np

from rkopenmdao import error_controllers as EC
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.errors import InnerErrorControllerError, OuterErrorControllerError

from rtm.adapt import GAVE_UP, PLAIN, Setup, split_steps
from rtm.core import Planned, Skip, Violation
from rtm.props.c09 import clamp, coeff, law

KINDS = {"lockstep": (1200, 4000), "run": (750, 2500)}
MIN_EVENTS = {"calls": 6000, "handovers": 300, "gave_up": 60, "accept_after_handover": 60, "run_calls": 1000, "runs_after_abort": 20}
RULE = ("random chains of 1-4 controllers x retry limits 0-5 x tolerances x bounds, driven with random error sequences through many accepted and rejected steps in "
        "lock-step with a reference automaton (who decides, with which suggestion, when is it refused), plus chains recorded inside real adaptive "
        "integrations, including integrations started after one that was aborted; distinct = (chain, limit, level that decided, outcome)")
ASSUMPTIONS = ["suggestions within 1e-9 relative of the handover threshold end the comparison of that case"]


class Tie(Exception):
    pass


class RefChain:
    """Level 0 is the first listed controller; level i wraps level i-1."""

    def __init__(self, names, p, cfg):
        self.co = [coeff(n, p) for n in names]
        self.cfg = cfg
        self.reset()

    def reset(self):
        self.count = [0] * len(self.co)
        self.own = [False] * len(self.co)

    def _own(self, i, err, dt, rem, eh, sh):
        acc = err <= self.cfg.tol or dt - self.cfg.lower_bound < 1e-10
        s = clamp(self.cfg, law(self.co[i], self.cfg, err, dt, eh, sh), dt, rem, acc)
        if not acc and s != dt and abs(s - dt) <= 1e-9 * dt:
            raise Tie()
        self.level = i
        return s, acc

    def _last(self, i, s, acc, dt):
        if not acc and s >= dt and i == len(self.co) - 1:
            raise (OuterErrorControllerError if i == 0 else InnerErrorControllerError)("reference gives up")

    def call(self, i, *a):
        dt = a[1]
        if i == 0:
            s, acc = self._own(0, *a)
            self._last(0, s, acc, dt)
            return s, acc
        if not self.own[i]:
            s, acc = self.call(i - 1, *a)
            if acc:
                self.count[i] = 0
                return s, acc
            self.count[i] += 1
            if s < dt and self.count[i] <= self.cfg.max_iter:
                return s, acc
            self.count[i] = 0
            self.handed = True
        self.own[i] = False
        s, acc = self._own(i, *a)
        if not acc:
            self.own[i] = True
            self._last(i, s, acc, dt)
        else:
            self.count[:i] = [0] * i
            self.own[:i] = [False] * i
        return s, acc

    def __call__(self, *a):
        self.handed = False
        return self.call(len(self.co) - 1, *a)


def pick_chain(rng, n):
    return [str(x) for x in rng.choice(PLAIN + ["integral"] * 3, size=n)]


def compare(mon, ref, args, call, names, where):
    """One lock-step call. Returns (suggestion, acceptance) or None if refused."""
    try:
        want = ref(*args)
        lvl = ref.level
    except GAVE_UP as e:
        want, lvl = e, None
    try:
        got = call()
    except GAVE_UP as e:
        mon.require(isinstance(want, Exception), "gave-up", f"{where}: {names} gave up, the chain would still suggest {want}")
        mon.count("gave_up")
        return None
    mon.require(not isinstance(want, Exception), "must-give-up", f"{where}: {names} should refuse but suggests {got}")
    mon.require(got[1] == want[1], "acceptance", f"{where}: {names} acceptance {got[1]}")
    mon.close(got[0], want[0], "decider", f"{where}: suggestion must come from controller {lvl + 1} ({names[lvl]}) of {names}", rtol=1e-8, atol=0)
    if ref.handed:
        mon.count("handovers")
    if lvl > 0 and want[1]:
        mon.count("accept_after_handover")
    mon.distinct(names, lvl, want[1], ref.cfg.max_iter)
    return got


def run(kind, idx, rng, mon, tier):
    try:
        if kind == "lockstep":
            lockstep(idx, rng, mon)
        else:
            in_run(idx, rng, mon)
    except Tie:
        mon.count("ties")


def lockstep(idx, rng, mon):
    names = pick_chain(rng, 1 + idx % 4)
    p = int(rng.integers(1, 6))
    tol = float(10 ** rng.uniform(-8, -1))
    lb = float(rng.choice([0.0, 1e-5, 1e-3]))
    cfg = ErrorControllerConfig(tol=tol, lower_bound=lb, upper_bound=float(rng.choice([np.inf, 1.0])),
                                safety_factor=float(rng.choice([0.95, 0.8, 1.0])), max_iter=int(rng.integers(0, 6)))
    mon.note(chain=names, order=p, max_iter=cfg.max_iter)
    c = None
    for nm in names:
        c = getattr(EC, nm)(p, config=cfg, base=c)
    ref = RefChain(names, p, cfg)
    dt, sh, eh = float(10 ** rng.uniform(-2, 0)), np.zeros(2), np.full(2, tol)
    hard = rng.random()
    for k in range(60):
        err = tol * float(10 ** (rng.uniform(0.02, 1.0) if rng.random() < 0.3 + 0.6 * hard else rng.uniform(-1.5, 0)))
        if rng.random() < 0.01:
            err = 0.0
        rem = np.inf if rng.random() < 0.9 else float(10 ** rng.uniform(-2, 1))

        def call():
            st = c(error_measure=err, delta_t=dt, remaining_time=rem, error_history=eh.copy(), step_size_history=sh.copy())
            return float(np.ravel(st.step_size_suggestion)[0]), bool(st.acceptance)
        mon.count("calls")
        r = compare(mon, ref, (err, dt, rem, eh, sh), call, names, f"call {k + 1}")
        if r is None:
            return
        if r[1]:
            sh, eh = np.array([dt, sh[0]]), np.array([err, eh[0]])
        dt = r[0]
        if dt <= 1e-9 or dt > 1e6:
            dt = float(10 ** rng.uniform(-2, 0)) if r[1] else dt
        if dt <= 0:
            return


class NamedSetup(Setup):
    """Adaptive set-up with a chain of named controllers only."""


def in_run(idx, rng, mon):
    import rtm.adapt as A
    names = pick_chain(rng, 2 + idx % 2)
    orig = A.pick_controllers
    A.pick_controllers = lambda r, chain=None: ("+".join(names), [getattr(EC, x) for x in names])
    try:
        s = Setup(rng)
    finally:
        A.pick_controllers = orig
    s.note(mon)
    p = min(int(s.tab.p), int(s.tab.phat))
    aborted = False
    for rep in range(3):
        s.rig.trace.clear(), s.rig.log.clear(), s.rig.actl.clear()
        ref = RefChain(names, p, s.cfg)
        pr = s.rig.probe
        pr.fail_at = pr.evals + int(rng.integers(1, 40)) if rep < 2 and rng.random() < 0.6 else None
        fail = False
        t0 = s.t0 if s.final else float(rng.normal())
        y0 = s.y0 if rng.random() < 0.5 else rng.normal(size=s.sp.n)
        try:
            s.rig.run(t0, y0, s.p)
        except GAVE_UP:
            fail = True
        except Planned:
            fail = True
        if aborted:
            mon.count("runs_after_abort")
        for c in [e for e in s.rig.actl if e["kind"] == "ctrl"]:
            mon.count("run_calls")

            def call():
                if c["sugg"] is None:
                    raise OuterErrorControllerError("recorded")
                return c["sugg"], c["acc"]
            if compare(mon, ref, (c["err"], c["dt"], c["rem"], c["eh"], c["sh"]), call, names, f"run {rep + 1}") is None:
                break
        aborted = fail
