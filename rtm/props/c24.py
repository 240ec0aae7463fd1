"""C24: integrations converge to the exact solution of the ODE at the scheme's order."""

import numpy as np
from scipy.integrate import solve_ivp

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, h_312, h_321, integral, pid

from rtm import model as M
from rtm.core import HarnessError, Skip
from rtm.rig import AllCheckpointer, NoCheckpointer, Rig

KINDS = {"order": (48, 480), "derivative": (48, 480), "estimate": (36, 360), "adaptive": (60, 700), "tight": (32, 400)}
MIN_EVENTS = {"slopes": 45, "derivative_slopes": 45, "estimate_slopes": 36, "tolerance_runs": 150, "tight_slopes": 28, "cuts": 30}
RULE = ("every shipped tableau x random smooth (time dependent, parametrised, multi-quantity) ODEs in all stage-problem layouts; exact solutions, their sensitivities and transposed sensitivities come from "
        "a different integrator (scipy DOP853 at 1e-13); observed orders of results, of forward and reverse derivatives, and of error estimates over a sequence of halved step sizes; errors of adaptive runs "
        "against the tolerance, also for tolerances down to 1e-11; distinct = (tableau, what, layout)")
ASSUMPTIONS = ["orders are read off at step sizes where the error is between 1e-11 and 1e-2; an order counts as missed only if three independent problems miss it"]

# controllers without predictive action: those may take any number of steps
CTRL = {"integral": [integral], "pid": [pid, integral], "h_211": [h_211, integral], "h_312": [h_312, integral], "h_321": [h_321, integral]}


def exact(sp, t0, y0, p, T, M0=None):
    """Flow and (optionally) its full Jacobian w.r.t. (t0, y0, p) at fixed duration."""
    n, m = sp.n, sp.m
    cols = 0 if M0 is None else M0.shape[1]

    def rhs(tau, z):
        y = z[:n]
        f = sp.f(t0 + tau, y, p)
        if not cols:
            return f
        jt, jy, jp = sp.jac(t0 + tau, y, p)
        D = z[n:].reshape(n, cols)
        full = np.column_stack([jt, np.zeros((n, n)), jp])
        return np.concatenate([f, (jy @ D + full).ravel()])

    z0 = y0 if not cols else np.concatenate([y0, M0.ravel()])
    r = solve_ivp(rhs, (0.0, T), z0, method="DOP853", rtol=1e-13, atol=1e-14)
    if not r.success:
        raise Skip("the reference integrator failed")
    z = r.y[:, -1]
    return z[:n], (z[n:].reshape(n, cols) if cols else None)


def smooth(rng, arch):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), noinput=False)
    return sp, float(rng.normal()), rng.normal(size=sp.n), rng.normal(size=sp.m)


def slope(errs, floor):
    """Observed order at the finest usable pair of step sizes and how many pairs were usable."""
    pairs = [(a, b) for a, b in zip(errs, errs[1:]) if b > floor and a < 3e-1]
    if not pairs:
        return None
    use = pairs[-2:]
    return float(np.log2(use[0][0] / use[-1][1]) / len(use))


def attempts(mon, rng, tries, p, measure, key, what):
    """measure() -> observed order or None; the order is missed only if all tries miss it."""
    seen = []
    for _ in range(tries):
        s = measure()
        if s is None:
            continue
        seen.append(s)
        if s >= p - 0.4:
            mon.count("checks")
            mon.count("check:" + key)
            mon.max_err[key] = max(mon.max_err.get(key, 0.0), max(0.0, p - s) / 0.4)
            return s
    if len(seen) < 3:
        raise Skip("no usable range of step sizes")
    mon.require(False, key, f"{what}: observed orders {np.round(seen, 2).tolist()} instead of {p}")


def run(kind, idx, rng, mon, tier):
    names = sorted(M.shipped())
    if kind in ("estimate", "adaptive", "tight"):
        names = [k for k in names if M.shipped()[k].is_embedded]
    if kind == "tight":
        names = [k for k in names if M.shipped()[k].phat >= (4 if idx % 5 else 3)]
    label = names[idx % len(names)]
    tab = M.shipped()[label]
    arch = M.ARCHS[int(rng.integers(len(M.ARCHS)))]
    mon.note(kind=kind, tableau=label, arch=arch)
    {"order": order, "derivative": derivative, "estimate": estimate, "adaptive": adaptive, "tight": tight}[kind](rng, mon, tab, label, arch)
    mon.distinct(kind, label, arch)


LEVELS = {1: [64, 128, 256], 2: [16, 32, 64, 128], 3: [8, 16, 32, 64], 4: [6, 12, 24, 48], 5: [4, 8, 16, 32]}


def order(rng, mon, tab, label, arch):
    def measure():
        sp, t0, y0, p = smooth(rng, arch)
        T = float(rng.uniform(0.3, 1.0)) * (-1.0 if rng.random() < 0.2 else 1.0)
        ye, _ = exact(sp, t0, y0, p, T)
        sc = max(1.0, float(np.max(np.abs(ye))))
        errs = []
        stage = None
        for n in LEVELS[tab.p]:
            rig = Rig(sp, tab, n=n, h=T / n, arch=arch, rng=np.random.default_rng(1), ckpt=(NoCheckpointer, {}), callbacks=False)
            tf, yf = rig.run(t0, y0, p)
            mon.close(tf, t0 + T, "end", "time reached by equal steps", rtol=1e-11, atol=1e-11, scale=abs(t0) + abs(T))
            errs.append(float(np.linalg.norm(yf - ye)) / sc)
        return slope(errs, 2e-11)
    attempts(mon, rng, 5, tab.p, measure, "order", f"result of {label} in {arch}")
    mon.count("slopes")


def derivative(rng, mon, tab, label, arch):
    def measure():
        sp, t0, y0, p = smooth(rng, arch)
        n_, m_ = sp.n, sp.m
        T = float(rng.uniform(0.3, 1.0))
        M0 = np.column_stack([np.zeros(n_), np.eye(n_), np.zeros((n_, m_))])
        _, J = exact(sp, t0, y0, p, T, M0)
        J = np.vstack([np.eye(1, 1 + n_ + m_), J])
        v, w = rng.normal(size=1 + n_ + m_), rng.normal(size=1 + n_)
        which = measure.mode
        want = J @ v if which == "fwd" else J.T @ w
        sc = max(1.0, float(np.max(np.abs(want))))
        errs = []
        for n in LEVELS[tab.p][:3] if tab.p > 1 else [32, 64, 128]:
            rig = Rig(sp, tab, n=n, h=T / n, arch=arch, rng=np.random.default_rng(1), callbacks=False,
                      ckpt=(AllCheckpointer, {}) if which == "rev" else (NoCheckpointer, {}))
            rig.run(t0, y0, p)
            got = rig.fwd(v) if which == "fwd" else rig.rev(w)
            errs.append(float(np.linalg.norm(got - want)) / sc)
        return slope(errs, 2e-10)
    measure.mode = str(rng.choice(["fwd", "rev"]))
    attempts(mon, rng, 5, tab.p, measure, "derivative-order", f"{measure.mode} derivative of {label} in {arch}")
    mon.count("derivative_slopes")


def estimate(rng, mon, tab, label, arch):
    """The error estimate of one step is the difference of an order p and an order phat solution."""
    q = min(tab.p, tab.phat) + 1
    rels = []

    def measure():
        sp, t0, y0, p = smooth(rng, arch)
        errs, rel = [], []
        for h in [0.2, 0.1, 0.05, 0.025]:
            rig = Rig(sp, tab, n=1, h=h, arch=arch, rng=np.random.default_rng(1), ckpt=(NoCheckpointer, {}))
            rig.run(t0, y0, p)
            ev = [e for e in rig.log if e["when"] == "after"]
            if len(ev) != 1 or "est" not in ev[0]:
                raise HarnessError("no error estimate recorded")
            errs.append(float(np.linalg.norm(ev[0]["est"])))
            ix = rig.flat_index()
            ye, _ = exact(sp, t0, y0, p, h)
            low = ev[0]["emb"][ix] if tab.phat < tab.p else ev[0]["y1"][ix]
            true = low - ye if tab.phat >= tab.p else ye - low
            rel.append(float(np.linalg.norm(ev[0]["est"][ix] - true)) / max(errs[-1], 1e-300))
        s = slope(errs, 1e-11)
        if s is not None and s >= q - 0.4:
            # the estimate is the error of the lower order solution up to a factor 1 + O(h)
            usable = [r for e, r in zip(errs, rel) if e > 1e-9]
            if usable and tab.phat != tab.p:
                rels.append(usable[-1])
        return s
    attempts(mon, rng, 5, q, measure, "estimate-order", f"error estimate of {label}")
    mon.note(relative=rels)
    mon.count("estimate_slopes")


def adaptive(rng, mon, tab, label, arch):
    sp, t0, y0, p = smooth(rng, arch)
    T = float(rng.uniform(0.5, 1.5))
    n_, m_ = sp.n, sp.m
    M0 = np.column_stack([np.zeros(n_), np.eye(n_), np.zeros((n_, m_))])
    ye, J = exact(sp, t0, y0, p, T, M0)
    name = sorted(CTRL)[int(rng.integers(len(CTRL)))]
    # how much an error made at any time can have grown by the end
    growth = 1.0
    for a in (0.25, 0.5, 0.75, 1.0):
        ya, _ = exact(sp, t0, y0, p, T * (1 - a)) if a < 1 else (y0, None)
        _, Ja = exact(sp, t0 + T * (1 - a), ya, p, T * a, M0)
        growth = max(growth, float(np.linalg.norm(Ja[:, 1:1 + n_], 2)))
    res = []
    tols = (1e-2, 1e-4, 1e-6) if tab.phat > 1 else (1e-2, 1e-3, 1e-4)
    for tol in tols:
        cfg = ErrorControllerConfig(tol=tol, lower_bound=1e-9, upper_bound=0.5 * T)
        rig = Rig(sp, tab, T=t0 + T, h=float(rng.choice([T / 50, T / 3, 2 * T])), arch=arch, rng=np.random.default_rng(1), adaptive=True, ctrl_cfg=cfg,
                  controllers=CTRL[name], ckpt=(NoCheckpointer, {}), cap=40000)
        tf, yf = rig.run(t0, y0, p)
        mon.close(tf, t0 + T, "end", "end time of the adaptive run", rtol=1e-12, atol=1e-12, scale=abs(t0) + T)
        steps = len(rig.accepted())
        err = float(np.linalg.norm(yf - ye))
        bound = growth * steps * tol
        mon.note(**{f"tol{tol}": [err, steps, growth]})
        mon.max_err["tolerance"] = max(mon.max_err.get("tolerance", 0.0), err / (10 * bound + 1e-9))
        mon.require(err <= 10 * bound + 1e-9, "tolerance", f"error {err:.2e} of an adaptive run of {steps} steps at tolerance {tol:g} ({label}, {name}; errors grow at most by {growth:.1f})")
        res.append(err)
        mon.count("tolerance_runs")
        mon.count("cuts", sum(1 for e in rig.actl if e["kind"] == "ctrl" and not e["acc"]))
    mon.require(res[2] < max(0.3 * res[0], tols[2]), "tolerance-proportional", f"errors {res} at tolerances {tols} ({label}, {name})")


def tight(rng, mon, tab, label, arch):
    """Errors still follow the tolerance where it is close to the accuracy of the arithmetic."""
    hi = 1e-9 if tab.phat >= 4 else 3e-9
    name = sorted(CTRL)[int(rng.integers(len(CTRL)))]

    def measure():
        sp, t0, y0, p = smooth(rng, arch)
        T = float(rng.uniform(0.1, 0.4) if tab.phat < 4 else rng.uniform(0.3, 1.0))
        ye, _ = exact(sp, t0, y0, p, T)
        errs = []
        for tol in (hi, hi / 100):
            cfg = ErrorControllerConfig(tol=tol, lower_bound=1e-9, upper_bound=0.5 * T)
            rig = Rig(sp, tab, T=t0 + T, h=T / 50, arch=arch, rng=np.random.default_rng(1), adaptive=True, ctrl_cfg=cfg, controllers=CTRL[name], ckpt=(NoCheckpointer, {}), cap=40000)
            tf, yf = rig.run(t0, y0, p)
            mon.count("tight_runs")
            errs.append(float(np.linalg.norm(yf - ye)))
        mon.note(**{"errors": errs, "steps": len(rig.accepted())})
        if errs[0] < 3e-12:
            return None
        return float(np.log10(errs[0] / max(errs[1], 2e-13)) / 2)
    attempts(mon, rng, 5, 0.9 if tab.phat >= 4 else 0.8, measure, "tight-tolerance", f"exponent of the error over the tolerance with {label} in {arch}")
    mon.count("tight_slopes")
