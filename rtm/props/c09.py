"""C09: controllers follow their published law; histories are the accepted ones, newest first."""

import numpy as np

from rkopenmdao import error_controllers as EC
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig
from rkopenmdao.error_measurer import SimpleErrorMeasurer

from rtm import model as M
from rtm.adapt import GAVE_UP, Setup, split_steps
from rtm.core import HarnessError, Violation
from rtm.rig import Rig, random_state

KINDS = {"law": (600, 2000), "decorated": (300, 1000), "run": (900, 2500), "fixed": (180, 600), "general": (180, 600)}
MIN_EVENTS = {"law_values": 2000, "run_values": 500, "history_entries": 800, "fixed_histories": 100, "decorated_values": 500}
RULE = ("every shipped controller (plain, as wrapping controller, parametrised ones with random parameters) x order 1..8 x random errors, error and step histories "
        "(complete, partial, containing zeros), tolerances and safety factors, compared with the digital-filter law whose coefficients come from the literature "
        "(Soederlind's filter families, Kennedy & Carpenter's table; deadbeat coefficients re-derived from their defining equations); inside real adaptive runs "
        "every recorded controller call is compared the same way and its histories with the accepted steps; distinct = (controller, order, filled history, clamp)")
ASSUMPTIONS = ["the integral controller uses 1/(p+1), the filters 1/p as documented for this code base"]


def deadbeat():
    """Deadbeat filters H0-xyz: k*b = conditions solved from the order/adaptivity/filter definitions.

    law: h' = h * prod (tol/e_i)^(kb_i/k) * prod (h_j/h_{j+1})^(-al_j); deadbeat: kb1+al2=1, kb2-al2+al3=0, kb3=al3.
    The families fix the remaining freedom: H0-211: kb1=kb2; H0-312: kb=(1,2,1)/4; H0-220: al=-1; H0-321: kb1=5/4, kb3=-3/4;
    H0-330: al2=-2, al3=1.
    """
    out = {}
    out["h0_211"] = (1 / 2, 1 / 2, 0.0, 1 / 2, 0.0)
    out["h0_220"] = (2.0, -1.0, 0.0, -1.0, 0.0)
    out["h0_312"] = (1 / 4, 2 / 4, 1 / 4, 3 / 4, 1 / 4)
    out["h0_321"] = (5 / 4, 1 / 2, -3 / 4, -1 / 4, -3 / 4)
    out["h0_330"] = (3.0, -3.0, 1.0, -2.0, 1.0)
    for k, (k1, k2, k3, a2, a3) in out.items():
        if abs(k1 + a2 - 1) + abs(k2 - a2 + a3) + abs(k3 - a3) > 1e-15:
            raise HarnessError(f"table of {k} is not deadbeat")
    return out


DB = deadbeat()
# (kb1, kb2, kb3, alpha2, alpha3)
LIT = {**DB, "pc": DB["h0_220"], "h_211": (1 / 4, 1 / 4, 0.0, 1 / 4, 0.0), "pid": (1 / 18, 2 / 18, 1 / 18, 0.0, 0.0),
       "h_312": (1 / 8, 2 / 8, 1 / 8, 3 / 8, 1 / 8), "ppid": (6 / 20, 1 / 20, -5 / 20, -1.0, 0.0),
       "h_321": (1 / 3, 1 / 18, -5 / 18, -5 / 6, -1 / 6)}


def coeff(name, p):
    """exponents (of tol/e, tol/e1, tol/e2, h/h1, h1/h2)"""
    if name in ("integral", "h0_110"):
        return 1.0 / (p + 1), 0.0, 0.0, 0.0, 0.0
    if name == "pseudo":
        return 0.0, 0.0, 0.0, 0.0, 0.0
    k1, k2, k3, a2, a3 = LIT[name]
    return k1 / p, k2 / p, k3 / p, -a2, -a3


def law(co, cfg, err, dt, eh, sh):
    if err == 0.0:
        return dt
    x1, x2, x3, a, b = co
    lg = np.log(cfg.safety_factor) + np.log(dt) + x1 * np.log(cfg.tol / err)
    if eh[0] != 0:
        lg += x2 * np.log(cfg.tol / eh[0])
    if eh[1] != 0:
        lg += x3 * np.log(cfg.tol / eh[1])
    if sh[0] != 0:
        lg += a * np.log(dt / sh[0])
        if sh[1] != 0:
            lg += b * np.log(sh[0] / sh[1])
    return float(np.exp(lg))


def clamp(cfg, s, dt, rem, acc):
    s = max(cfg.lower_bound, min(cfg.upper_bound, s))
    return min(rem + (0.0 if acc else dt), s)


NAMES = sorted(set(LIT) | {"integral", "h0_110"})


def draw(rng, tol):
    dt = float(10 ** (rng.uniform(-4, 1) if rng.random() < 0.7 else rng.uniform(-9, 7)))
    r = rng.random()
    err = tol * float(10 ** rng.uniform(-3, 3)) if r < 0.93 else 0.0
    k = int(rng.integers(3))
    sh, eh = np.zeros(2), np.full(2, tol)
    sh[:k] = dt * 10 ** rng.uniform(-0.7, 0.7, size=k)
    eh[:k] = tol * 10 ** rng.uniform(-2, 0.5, size=k)
    if k and rng.random() < 0.1:
        eh[int(rng.integers(k))] = 0.0
    return dt, err, sh, eh, k


def one_call(rng, mon, make, co, name, key):
    """A fresh controller per call; compares the suggestion with the law."""
    tol = float(10 ** (rng.uniform(-9, 0) if rng.random() < 0.8 else rng.uniform(-14, 6)))
    lb, ub = (0.0, np.inf) if rng.random() < 0.7 else (1e-3, 2.0)
    if lb and rng.random() < 0.3:
        lb, ub = lb * 1e-4, ub * 1e4
    cfg = ErrorControllerConfig(tol=tol, lower_bound=lb, upper_bound=ub, safety_factor=float(rng.uniform(0.5, 1.0)), max_iter=5)
    dt, err, sh, eh, k = draw(rng, tol)
    if 0 < dt - lb < 1e-9:      # whether this is still a step at the lower bound is a matter of rounding
        dt = lb + 1e-9
    if err == 0.0 and key == "decorated":
        err = 2 * tol
    rem = np.inf if rng.random() < 0.7 else dt * float(10 ** rng.uniform(-3, 3))
    c = make(cfg)
    s = law(co, cfg, err, dt, eh, sh)
    acc = err <= tol or dt <= lb
    want = clamp(cfg, s, dt, rem, acc)
    try:
        st = c(error_measure=err, delta_t=dt, remaining_time=rem, error_history=eh.copy(), step_size_history=sh.copy())
    except GAVE_UP:
        mon.require(not acc and want >= dt * (1 - 1e-9), "gave-up", f"{name}: gave up although its law suggests {want!r} for rejected step {dt!r}")
        mon.count("controller_gave_up")
        return
    got = float(np.ravel(st.step_size_suggestion)[0])
    mon.close(got, want, key, f"{name}: err/tol={err / tol:.3g} dt={dt:.3g} sh={sh} eh/tol={eh / tol}", rtol=1e-9, atol=0)
    mon.count(key + "_values")
    mon.distinct(key, name, k, "clamped" if want != s else "free", acc)


def run(kind, idx, rng, mon, tier):
    if kind == "law":
        name = (NAMES + ["pseudo"])[idx % (len(NAMES) + 1)]
        mon.note(controller=name)
        for p in range(1, 9):
            for _ in range(3):
                one_call(rng, mon, lambda cfg: getattr(EC, name)(p, config=cfg), coeff(name, p), f"{name}(p={p})", "law")
    elif kind == "decorated":
        name = NAMES[idx % len(NAMES)]
        mon.note(controller=name)
        for p in (1, 2, 3, 5):
            for _ in range(4):
                def make(cfg):
                    # a base that can never repair a rejected step: hands over at once
                    base = ErrorController(alpha=0.0, config=cfg)
                    base.__dict__["config"] = cfg
                    return getattr(EC, name)(p, base=base)
                tol_case(rng, mon, make, coeff(name, p), f"decorating {name}(p={p})")
    elif kind == "general":
        for _ in range(10):
            p = int(rng.integers(1, 7))
            k = int(rng.integers(3))
            if k == 0:
                va, a, b = rng.normal(), rng.normal(), rng.normal()
                one_call(rng, mon, lambda cfg: EC.h_312_general(p, va, a, b, config=cfg), (va / p, 2 * va / p, va / p, a, b), "h_312_general", "law")
            elif k == 1:
                va, vb, a = rng.normal(), rng.normal(), rng.normal()
                one_call(rng, mon, lambda cfg: EC.h_321_general(p, va, vb, a, config=cfg),
                         (va / p, -vb / p, -(va + vb) / p, a, 1 - a), "h_321_general", "law")
            else:
                va, vb, vg = rng.normal(), rng.normal(), rng.normal()
                one_call(rng, mon, lambda cfg: EC.h_330_general(p, va, vb, vg, config=cfg), (va / p, -vb / p, vg / p, 2.0, -1.0), "h_330_general", "law")
    elif kind == "fixed":
        fixed(rng, mon)
    else:
        in_run(rng, mon)


def tol_case(rng, mon, make, co, name):
    """Only rejected steps reach the wrapping controller's law when the base does not shrink the step."""
    tol = float(10 ** (rng.uniform(-9, 0) if rng.random() < 0.8 else rng.uniform(-14, 6)))
    cfg = ErrorControllerConfig(tol=tol, lower_bound=0.0, upper_bound=np.inf, safety_factor=1.0 if rng.random() < 0.5 else 0.9, max_iter=5)
    dt, err, sh, eh, k = draw(rng, tol)
    err = tol * float(10 ** rng.uniform(0.1, 3))
    c = make(cfg)
    base_s = cfg.safety_factor * dt
    want = base_s if base_s < dt else law(co, cfg, err, dt, eh, sh)
    try:
        st = c(error_measure=err, delta_t=dt, remaining_time=np.inf, error_history=eh, step_size_history=sh)
    except GAVE_UP:
        mon.require(want >= dt * (1 - 1e-9), "gave-up", f"{name} gave up although its law suggests {want!r} < {dt!r}")
        mon.count("decorated_values")
        return
    mon.close(float(np.ravel(st.step_size_suggestion)[0]), want, "decorated", name, rtol=1e-9, atol=0)
    mon.count("decorated_values")
    mon.distinct("decorated", name, k)


def in_run(rng, mon):
    s = Setup(rng, chain=False)
    name = s.cname
    s.note(mon)
    try:
        s.rig.run(s.t0, s.y0, s.p)
    except GAVE_UP:
        mon.count("controller_gave_up")
    p = min(int(s.tab.p), int(s.tab.phat))
    co = coeff(name, p) if name in NAMES else None
    sh, eh = [], []
    cfg = s.cfg
    for bef, evs, aft in split_steps(s.rig.trace, "compute"):
        for c in [e for e in evs if e["kind"] == "ctrl"]:
            wsh = (sh[::-1] + [0.0, 0.0])[:2]
            weh = (eh[::-1] + [cfg.tol, cfg.tol])[:2]
            mon.close(c["sh"], wsh, "step-history", f"{name}: step sizes of the last accepted steps, newest first", rtol=1e-13, atol=0)
            mon.close(c["eh"], weh, "error-history", f"{name}: errors of the last accepted steps, newest first", rtol=1e-13, atol=0)
            mon.count("history_entries", 2)
            if co is not None:
                want = clamp(cfg, law(co, cfg, c["err"], c["dt"], weh, wsh), c["dt"], c["rem"], c["acc"])
                if c["sugg"] is None:
                    mon.require(want >= c["dt"] * (1 - 1e-9), "gave-up", f"{name} gave up although its law suggests {want!r} after {c['dt']!r}")
                else:
                    mon.close(c["sugg"], want, "law-in-run", f"{name}(order {p}) in {s.label}", rtol=1e-8, atol=0)
                mon.count("run_values")
                mon.distinct("run", name, s.label, min(len(sh), 2), c["acc"])
        if aft is None:
            break
        c = [e for e in evs if e["kind"] == "ctrl"][-1]
        sh.append(c["dt"])
        eh.append(c["err"])
        mon.close(aft["sugg"], [c["sugg"]], "suggestion", "the state carries the suggestion of the controller", rtol=1e-14, atol=0)


def fixed(rng, mon):
    """Without adaptivity the histories are kept all the same."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2)
    tab, label = M.pick_tableau(rng, embedded=True)
    n, h = int(rng.integers(1, 7)), float(10 ** rng.uniform(-2.3, -0.8))
    rig = Rig(sp, tab, n=n, h=h)
    t0, y0, p = random_state(rng, sp)
    mon.note(tableau=label, steps=n)
    for _ in range(2):
        rig.log.clear()
        rig.run(t0, y0, p)
        aft = [e for e in rig.log if e["when"] == "after"]
        errs = []
        for k, e in enumerate(aft):
            errs.append(float(np.linalg.norm(e["est"])))
            mon.close(e["hist"], [h, h if k else 0.0], "fixed-step-history", f"step history after step {k + 1}", rtol=1e-13, atol=0)
            mon.close(e["err"][:min(2, k + 1)], errs[::-1][:2], "fixed-error-history", f"error history after step {k + 1}", rtol=1e-12, atol=0)
            mon.count("fixed_histories")
        mon.distinct("fixed", label, n)
