"""C14: shipped tableaux satisfy the order and structure they claim; user tableaux are reported truthfully."""

import re
import warnings

import numpy as np

import rkopenmdao.butcher_tableaux as BT
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization)

from rtm import model as M
from rtm import trees as T
from rtm.core import Violation

NAMES = sorted(BT.__all__)
KINDS = {"shipped": (len(NAMES), len(NAMES)), "converge": (len(NAMES), len(NAMES) * 6), "user": (1500, 6000), "refuse": (600, 2000), "warn": (600, 2000)}
MIN_EVENTS = {"conditions": 150, "tableaux": 15, "orders_observed": 15, "user_tableaux": 200, "refused": 80, "warned": 30, "silent": 30}
RULE = ("every tableau exported by butcher_tableaux: all rooted-tree order conditions up to its declared order hold to 1e-9 and one of the next order fails (same for embedded weights), row sums equal "
        "time stages, structure matches the advertised name (stages, order, singly diagonal, explicit first stage, weak stage order); observed convergence order of the real scheme with it; random "
        "user tableaux: flags, orders, derived tableaux against independent computation; malformed ones refused; mismatching row sums/weights warned about; distinct = (tableau) or (user class, stages)")

WORD = {"one": 1, "two": 2, "three": 3, "four": 4, "five": 5, "six": 6, "seven": 7, "eight": 8,
        "first": 1, "second": 2, "third": 3, "fourth": 4, "fifth": 5, "sixth": 6}


def flags(mon, t, A, b, c, bh, what):
    """Structural reports against an independent classification."""
    s = A.shape[0]
    up = bool(np.any(np.triu(A, 1) != 0))
    diag = bool(np.any(np.diag(A) != 0))
    kind = "implicit" if up else ("dirk" if diag else "erk")
    mon.require(t.number_of_stages() == s and t.stages == s and len(t) == s, "stages", f"{what}: reports {t.number_of_stages()}/{len(t)} stages, has {s}")
    mon.require(bool(t.is_explicit()) == (kind == "erk"), "explicit", f"{what}: is_explicit() is {t.is_explicit()} for a {kind} tableau", A=A)
    mon.require(bool(t.is_diagonally_implicit()) == (kind == "dirk"), "dirk", f"{what}: is_diagonally_implicit() is {t.is_diagonally_implicit()} for a {kind} tableau", A=A)
    mon.require(bool(t.is_implicit()) == (kind == "implicit"), "implicit", f"{what}: is_implicit() is {t.is_implicit()} for a {kind} tableau", A=A)
    mon.require(bool(t.is_embedded) == (bh is not None), "embedded", f"{what}: is_embedded is {t.is_embedded}")
    mon.require(np.array_equal(t.butcher_matrix, A) and np.array_equal(t.butcher_weight_vector, b) and np.array_equal(t.butcher_time_stages, c), "coefficients", f"{what}: coefficients altered")
    return kind


def shipped(mon, name):
    t = getattr(BT, name)
    A, b, c, bh = M.tab_arrays(t)
    kind = flags(mon, t, A, b, c, bh, name)
    mon.require(kind in ("erk", "dirk"), "usable", f"{name} is fully implicit")
    mon.close(A.sum(1), c, "row-sums", f"{name}: row sums and time stages", rtol=0, atol=1e-9)
    for w, p, lab in [(b, t.p, "weights")] + ([(bh, t.phat, "embedded weights")] if bh is not None else []):
        for order in range(1, p + 1):
            for tr in T.trees(order):
                mon.close(float(w @ T.phi(tr, A, c)), 1.0 / T.gamma(tr), "order-condition", f"{name}: {lab} violate the condition of order {order} for tree {tr}", rtol=0, atol=1e-9)
                mon.count("conditions")
        mon.require(T.residual(p + 1, A, w, c) > 1e-6, "order-is-declared", f"{name}: {lab} declare order {p} but have a higher one")
    if bh is not None:
        mon.require(t.min_p_order() == min(t.p, t.phat), "min-order", f"{name}: min_p_order() is {t.min_p_order()}")
        mon.require(not np.allclose(b, bh), "estimator", f"{name}: embedded weights equal the weights, error estimates vanish")
        mm, em = t.main_method, t.embedded_method
        mon.require(np.array_equal(mm.butcher_weight_vector, b) and mm.p == t.p and np.array_equal(em.butcher_weight_vector, bh) and em.p == t.phat, "parts", f"{name}: main/embedded part")
    else:
        mon.require(t.min_p_order() == t.p, "min-order", f"{name}: min_p_order() is {t.min_p_order()}")
    # what the exported name says
    m = re.search(r"(one|two|three|four|five|six|seven|eight)_stage", name)
    if m:
        mon.require(t.number_of_stages() == WORD[m.group(1)], "name-stages", f"{name} has {t.number_of_stages()} stages")
    m = re.search(r"(first|second|third|fourth|fifth|sixth)_order", name)
    if m:
        mon.require(t.p == WORD[m.group(1)], "name-order", f"{name} declares order {t.p}")
    m = re.search(r"(second|third|fourth)_weak_stage_order", name)
    if m:
        mon.require(T.weak_stage_residual(WORD[m.group(1)], A, b, c) < 1e-9, "weak-stage-order", f"{name}: weak stage order conditions violated")
    d = np.diag(A)
    if "esdirk" in name:
        mon.require(d[0] == 0 and np.ptp(d[1:]) < 1e-12 and d[1] != 0, "esdirk", f"{name}: diagonal {d}")
    elif "sdirk" in name:
        mon.require(np.ptp(d) < 1e-12 and d[0] != 0, "sdirk", f"{name}: diagonal {d}")
    elif "dirk" in name:
        mon.require(kind == "dirk", "name-dirk", f"{name} is {kind}")
    mon.require(name.startswith("embedded") == t.is_embedded, "name-embedded", f"{name}: embedded {t.is_embedded}")
    fixed = {"explicit_euler": ([[0.0]], [1.0]), "implicit_euler": ([[1.0]], [1.0]), "implicit_midpoint": ([[0.5]], [1.0]),
             "runge_kutta_four": ([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
             "embedded_heun_euler": ([[0, 0], [1, 0]], [.5, .5])}
    if name in fixed:
        mon.close(A, fixed[name][0], "classic", f"{name}: matrix", rtol=0, atol=1e-12)
        mon.close(b, fixed[name][1], "classic", f"{name}: weights", rtol=0, atol=1e-12)
    mon.note(tableau=name, p=t.p, kind=kind, residual_next=T.residual(t.p + 1, A, b, c))
    mon.count("tableaux")
    mon.distinct(name)


def converge(mon, rng, name):
    """Observed order of the real one-step scheme with this tableau on a smooth nonlinear problem."""
    t = getattr(BT, name)
    cls = StageOrderedEmbeddedRungeKuttaDiscretization if t.is_embedded else StageOrderedRungeKuttaDiscretization
    scheme = cls(t)
    rk = M.tab_arrays(BT.embedded_runge_kutta_fehlberg)
    probs = []
    for _ in range(10):
        sp = M.random_spec(rng, nq=1, max_size=3, time=True, indep=1)
        # moderate time scales keep the asymptotic range reachable
        sp.om_, sp.w, sp.N = np.clip(sp.om_, -1.2, 1.2), np.clip(sp.w, -1, 1), 0.7 * sp.N
        probs.append((sp, M.PyODE(sp), float(rng.normal()), rng.normal(size=sp.n), rng.normal(size=sp.m)))

    def local(h):
        """local error of the step (and of the embedded solution), summed over the problems to rule out cancellation"""
        e, eh = 0.0, 0.0
        for sp, ode, t0, y0, p0 in probs:
            st = scheme.create_empty_discretization_state(ode)
            st.final_state[:] = y0
            st.final_time[:] = t0
            st.independent_inputs[:] = p0
            r = scheme.compute_step(ode, st, h)
            m = max(4, int(np.ceil(h / 0.01)))
            ex = y0.copy()
            tt = t0
            for _ in range(m):
                ex = M.ref_step(sp, rk, tt, ex, p0, h / m).y1
                tt += h / m
            e += float(np.linalg.norm(r.final_state - ex))
            eh += float(np.linalg.norm(r.embedded_state - ex)) if t.is_embedded else 0.0
        return e, eh

    hs = [0.4, 0.2, 0.1, 0.05, 0.025]
    es = [local(h) for h in hs]
    for which, order in [(0, t.p)] + ([(1, t.phat)] if t.is_embedded else []):
        ok = []
        for (ha, ea), (hb, eb) in zip(zip(hs, es), list(zip(hs, es))[1:]):
            if eb[which] > 1e-11 and ea[which] > 1e-11:
                ok.append(np.log2(ea[which] / eb[which]))
        if not ok:
            continue
        # local error order is p+1; the finest usable pair must come close, coarse pairs may not be asymptotic yet
        best = max(ok[-3:])
        mon.require(best > order + 1 - 0.8, "observed-order", f"{name}: observed local order {best:.2f} ({'embedded' if which else 'main'}) for declared order {order}", slopes=ok)
        mon.count("orders_observed")
        mon.distinct(name, which)
    mon.note(tableau=name, errors=[e[0] for e in es])


def user(mon, rng):
    s = int(rng.integers(1, 7))
    A = np.tril(rng.normal(size=(s, s)), -1) * (rng.random((s, s)) < 0.7)
    shape = str(rng.choice(["erk", "dirk", "one-diag", "implicit", "one-upper", "full", "zero", "tiny-diag", "tiny-upper"]))
    if shape in ("dirk", "full", "one-upper") and rng.random() < 0.8:
        A = A + np.diag(rng.random(s) + 0.05)
    if shape == "one-diag":
        i = int(rng.integers(s))
        A[i, i] = rng.normal()
    if shape == "tiny-diag":
        i = int(rng.integers(s))
        A[i, i] = 1e-9
    if shape in ("implicit", "full"):
        A = A + np.triu(rng.normal(size=(s, s)), 1)
    if shape in ("one-upper", "tiny-upper") and s > 1:
        i = int(rng.integers(0, s - 1))
        j = int(rng.integers(i + 1, s))
        A[i, j] = rng.normal() if shape == "one-upper" else -1e-9
    if shape == "zero":
        A[:] = 0
    b = rng.normal(size=s)
    b = b + (1 - b.sum()) / s
    bh = rng.normal(size=s)
    emb = bool(rng.random() < 0.5)
    c = A.sum(1)
    none_c = bool(rng.random() < 0.2)
    if not none_c and rng.random() < 0.4:
        c = c + rng.normal(size=s)   # unusual, but only worth a warning
    p, ph = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    A0, b0, c0, bh0 = A.copy(), b.copy(), c.copy(), bh.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=None if none_c else c, p=p)
        if emb and rng.random() < 0.4:
            t = EmbeddedButcherTableau.from_butchertableau(ButcherTableau(**kw), bh, phat=ph)
        elif emb:
            t = EmbeddedButcherTableau(butcher_adaptive_weights=bh, phat=ph, **kw)
        else:
            t = ButcherTableau(**kw)
        k = flags(mon, t, A0, b0, c0, bh0 if emb else None, f"user tableau {shape} with {s} stages")
        mon.require(t.p == p and t.min_p_order() == (min(p, ph) if emb else p), "user-order", f"order {t.p}/{t.min_p_order()} reported for p={p}, phat={ph}, embedded={emb}")
        if emb:
            mon.require(t.phat == ph and np.array_equal(t.butcher_adaptive_weights, bh0), "user-embedded", "embedded weights/order altered")
            flags(mon, t.main_method, A0, b0, c0, None, "main method")
            flags(mon, t.embedded_method, A0, bh0, c0, None, "embedded method")
            mon.require(t.main_method.p == p and t.embedded_method.p == ph, "user-parts", "orders of main/embedded part")
        if rng.random() < 0.3:
            unknown_order(mon, rng, kw, bh0 if emb else None)
        text = str(t)
        mon.require(t.name in text, "str", "string form lacks the name")
    mon.require(np.array_equal(A, A0) and np.array_equal(b, b0) and np.array_equal(c, c0) and np.array_equal(bh, bh0), "caller-arrays", "arrays of the caller modified")
    mon.count("user_tableaux")
    mon.distinct("user", shape, s, k, emb)
    mon.note(shape=shape, stages=s, embedded=emb)


def unknown_order(mon, rng, kw, bh):
    """Orders not given are reported as unknown until they are set."""
    if bh is None:
        t, names = ButcherTableau(**dict(kw, p=None)), ["p"]
    elif rng.random() < 0.5:
        t, names = EmbeddedButcherTableau(butcher_adaptive_weights=bh, phat=None, **dict(kw, p=None)), ["p", "phat"]
    else:
        t, names = EmbeddedButcherTableau.from_butchertableau(ButcherTableau(**kw), bh), ["phat"]
    for nm in names:
        try:
            v = getattr(t, nm)
        except ValueError:
            pass
        else:
            mon.require(False, "unknown-order", f"{nm} of a tableau without that order is {v}")
    want = {nm: int(rng.integers(1, 9)) for nm in names}
    for nm in names:
        setattr(t, nm, want[nm])
    mon.require({nm: getattr(t, nm) for nm in names} == want, "set-order", f"orders {want} were set")
    mon.count("unknown_orders")


def refuse(mon, rng):
    s = int(rng.integers(1, 6))
    A, b, c, bh = rng.normal(size=(s, s)), np.full(s, 1.0 / s), None, np.full(s, 1.0 / s)
    c = A.sum(1)
    d = int(rng.choice([-1, 1, 2])) if s > 1 else 1
    what = str(rng.choice(["rect", "matrix", "weights", "stages", "adaptive"]))
    emb = what == "adaptive" or rng.random() < 0.3
    if what == "rect":
        A = rng.normal(size=(s, s + d)) if s + d > 0 else rng.normal(size=(s, s + 1))
    elif what == "matrix":
        A = rng.normal(size=(s + 1, s + 1))
    elif what == "weights":
        b = np.full(s + d, 1.0 / max(1, s + d)) if s + d > 0 else np.ones(s + 1)
    elif what == "stages":
        c = rng.normal(size=max(1, s + d) if s + d != s else s + 1)
    else:
        bh = np.full(max(1, s + d), 1.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=1)
        try:
            t = EmbeddedButcherTableau(butcher_adaptive_weights=bh, phat=1, **kw) if emb else ButcherTableau(**kw)
        except (ValueError, AssertionError):
            mon.count("refused")
            mon.count("checks")
            mon.distinct("refuse", what, s, emb)
            return
    raise Violation("accepted", f"malformed tableau ({what}, shapes {A.shape}, {b.shape}, {np.shape(c)}, {bh.shape}) was accepted as {t.stages} stages")


def warn(mon, rng):
    s = int(rng.integers(1, 6))
    A = np.tril(rng.normal(size=(s, s)))
    b = np.full(s, 1.0 / s)
    c = A.sum(1)
    what = str(rng.choice(["none", "one-row", "cancelling", "weights", "negative"]))
    eps = float(10 ** rng.uniform(-4.5, 0))
    if what == "one-row":
        c[int(rng.integers(s))] += eps * rng.choice([-1, 1])
    elif what == "cancelling":
        if s == 1:
            c[0] += eps
        else:
            i, j = rng.permutation(s)[:2]
            c[i] += eps
            c[j] -= eps
    elif what == "weights":
        b[int(rng.integers(s))] += eps
    elif what == "negative":
        c = c - eps
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if rng.random() < 0.5:
            ButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=1)
        else:
            EmbeddedButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=1, butcher_adaptive_weights=np.full(s, 1.0 / s), phat=1)
    if what == "none":
        mon.require(not rec, "spurious-warning", f"consistent tableau warned about: {[str(r.message) for r in rec]}")
        mon.count("silent")
    else:
        mon.require(len(rec) >= 1, "missing-warning", f"inconsistent tableau ({what}, deviation {eps:.2e}, {s} stages) accepted without warning")
        mon.count("warned")
    mon.distinct("warn", what, s)


def run(kind, idx, rng, mon, tier):
    if kind == "shipped":
        return shipped(mon, NAMES[idx])
    if kind == "converge":
        return converge(mon, rng, NAMES[idx % len(NAMES)])
    if kind == "user":
        return user(mon, rng)
    if kind == "refuse":
        return refuse(mon, rng)
    return warn(mon, rng)
