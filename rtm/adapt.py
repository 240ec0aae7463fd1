"""Random adaptive integrations shared by the adaptive properties."""

from __future__ import annotations

import numpy as np

from rkopenmdao import error_controllers as EC
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.errors import InnerErrorControllerError, OuterErrorControllerError

from rtm import model as M
from rtm.rig import AllCheckpointer, NoCheckpointer, Rig, checkpoint_choice, random_state

GAVE_UP = (InnerErrorControllerError, OuterErrorControllerError)
PLAIN = ["integral", "h0_110", "h_211", "h0_211", "pc", "h0_220", "pid", "h_312", "h0_312", "ppid", "h_321", "h0_321", "h0_330"]


def general(rng):
    """A factory for one of the parametrised controllers with random, sane parameters."""
    k = int(rng.integers(3))
    if k == 0:
        va, a, b = float(rng.uniform(0.1, 0.4)), float(rng.uniform(-0.8, -0.2)), float(rng.uniform(-0.3, 0))
        return f"h_312_general({va:.2f})", lambda p, **kw: EC.h_312_general(p, va, a, b, **kw)
    if k == 1:
        va, vb, a = float(rng.uniform(0.3, 1.0)), float(rng.uniform(-0.3, 0.0)), float(rng.uniform(0.2, 0.9))
        return f"h_321_general({va:.2f})", lambda p, **kw: EC.h_321_general(p, va, vb, a, **kw)
    va, vb, vg = float(rng.uniform(0.5, 3)), float(rng.uniform(0, 3)), float(rng.uniform(0, 1))
    return f"h_330_general({va:.2f})", lambda p, **kw: EC.h_330_general(p, va, vb, vg, **kw)


def pick_controllers(rng, chain=None):
    r = rng.random()
    n = 1 if (chain is False or (chain is None and r < 0.6)) else int(rng.integers(2, 4))
    out = []
    for _ in range(n):
        if rng.random() < 0.12:
            out.append(general(rng))
        elif rng.random() < 0.35:
            out.append(("integral", EC.integral))
        else:
            nm = PLAIN[int(rng.integers(len(PLAIN)))]
            out.append((nm, getattr(EC, nm)))
    return "+".join(o[0] for o in out), [o[1] for o in out]


def wild_spec(rng):
    """ODEs that make controllers reject: fast transients, kinks in time, growth."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2, time=True)
    r = rng.random()
    if r < 0.3:
        sp.G = sp.G * 5
        sp.om_ = sp.om_ * 6
    elif r < 0.6:
        sp.N, sp.w = sp.N * 4, sp.w * 8
    return sp


class Setup:
    """A random adaptive rig with everything that was drawn."""

    def __init__(self, rng, *, final=None, chain=None, arch="explicit", ck=None, sp=None, h_rel=None, offset=0.0):
        self.sp = sp or wild_spec(rng)
        self.t0, self.y0, self.p = random_state(rng, self.sp)
        self.t0 += offset
        self.tab, self.label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        self.tol = float(10 ** rng.uniform(-7 if self.tab.min_p_order() > 2 else -4.5, -2))
        self.final = bool(rng.random() < 0.6) if final is None else final
        span = float(10 ** rng.uniform(-1.5, 0.0))
        self.cname, self.ctrls = pick_controllers(rng, chain)
        self.tame = set(self.cname.split("+")) <= {"integral", "h0_110"}
        # a filter controller may legitimately crawl at the lower bound: keep the number of such steps small
        lb = float(rng.choice([0.0, 1e-6, 1e-4, 1e-3, 1e-2, 0.05]))
        if self.final and not self.tame:
            lb = max(lb, span / 150)
        ub = float(rng.choice([np.inf, 1.0, 0.3, 0.1])) if rng.random() < 0.8 else max(lb, 0.06)
        self.cfg = ErrorControllerConfig(tol=self.tol, lower_bound=lb, upper_bound=ub,
                                         safety_factor=float(rng.choice([0.95, 0.9, 0.8, 1.0])) if rng.random() < 0.5 else 0.95,
                                         max_iter=int(rng.integers(0, 6)))
        self.measurer = SimpleErrorMeasurer() if rng.random() < 0.6 else ImprovedErrorMeasurer(
            eta=float(10 ** rng.uniform(-6, 0)), eps=float(10 ** rng.uniform(-6, 0)))
        self.h = float(10 ** rng.uniform(-3.5, 0.3))
        if h_rel is not None:
            self.h = span * h_rel
        kw = {}
        if self.final:
            self.T = self.t0 + span
            kw["T"] = self.T
            self.n = None
        else:
            self.n = int(rng.integers(1, 9))
            kw["n"] = self.n
            self.T = None
        if ck is None:
            ck = (AllCheckpointer, {}) if rng.random() < 0.6 or self.final else checkpoint_choice(rng, self.n)[1:]
            if rng.random() < 0.2:
                ck = (NoCheckpointer, {})
        self.rev_ok = ck[0] is not NoCheckpointer
        self.rig = Rig(self.sp, self.tab, h=self.h, arch=arch, ckpt=ck, adaptive=True, controllers=self.ctrls,
                       ctrl_cfg=self.cfg, measurer=self.measurer, **kw)

    def note(self, mon):
        mon.note(tableau=self.label, controllers=self.cname, tol=self.tol, lb=self.cfg.lower_bound, ub=str(self.cfg.upper_bound),
                 h0=self.h, T=None if self.T is None else self.T - self.t0, n=self.n, measurer=type(self.measurer).__name__)

    def measure(self, est, y):
        """Independent value of the configured error measure (2-norms)."""
        e, s = float(np.linalg.norm(est)), float(np.linalg.norm(y))
        if isinstance(self.measurer, SimpleErrorMeasurer):
            return e
        return e / (s + self.measurer.eta / self.measurer.eps)


def split_steps(trace, which):
    """[(before, [attempts], after)] of one callback list; attempts = (measure event, controller event)."""
    steps, cur = [], None
    for ev in trace:
        if "list" in ev:
            if ev["list"] != which:
                continue
            if ev["when"] == "before":
                cur = [ev, [], None]
                steps.append(cur)
            elif cur is not None:
                cur[2] = ev
                cur = None
        elif cur is not None:
            cur[1].append(ev)
    return steps
