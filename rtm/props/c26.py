"""C26: equivalent formulations of a problem have equal results and derivatives."""

import copy

import numpy as np

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer

from rtm import model as M
from rtm.adapt import GAVE_UP, pick_controllers
from rtm.core import Skip
from rtm.rig import AllCheckpointer, Rig, checkpoint_choice, random_state

KINDS = {"units": (70, 700), "units_adaptive": (70, 700), "partition": (60, 600), "stack": (40, 400), "parameter": (50, 500), "clock": (50, 500),
         "shift": (50, 500), "far": (60, 600), "basis": (40, 400), "tableau": (70, 700), "superpose": (40, 400), "adaptive": (60, 600)}
MIN_EVENTS = {"pairs": 350, "fwd_products": 350, "rev_products": 350, "attempts": 400, "step_pairs": 1000, "pairs_until_time": 50}
RULE = ("pairs of real integrations of mathematically equivalent problems (other units of time, states and parameters; other partition, order, shape and names of quantities; an independent system integrated "
        "alongside; parameters as constant states; time as a state; clocks shifted by up to 2^30; other basis of the state space; composed, padded, split tableaux; superposition for affine ODEs), each with other "
        "stage-problem layouts and checkpointing: results, every step, attempts of adaptive runs, forward and reverse products agree; distinct = (kind, variant, tableau, checkpointing)")
ASSUMPTIONS = ["controllers decide discontinuously: adaptive pairs with an error within 1e-6 of the tolerance or at rounding level are skipped",
               "the code's absolute slack of 1e-10 at the lower step size bound limits how small units of time may be"]


def two(rng, a, b):
    return float(2.0 ** int(rng.integers(a, b + 1)))


class Covered(M.Spec):
    """A spec whose stage equations are solved in the original variables, so that the harness' Newton stopping rule does not depend on units."""

    def solve_stage(self, t, base, p, ha, guess=None):
        b = self.of
        k = b.solve_stage(t / self.tau, base / self.sig, p / self.pi, ha / self.tau)
        return k * self.sig / self.tau


def rescale(sp, tau, sig, pi):
    r = Covered(sp.quants, sp.indeps, uses_time=sp.uses_time)
    r.of, r.tau, r.sig, r.pi = sp, tau, sig, pi
    r.A = sp.A * sig[:, None] / sig[None, :] / tau
    r.N = sp.N * sig[:, None] / tau
    r.C, r.D = sp.C / sig[None, :], sp.D / pi[None, :]
    r.w, r.c0 = sp.w / tau, sp.c0
    r.E = sp.E * sig[:, None] / tau / pi[None, :]
    r.G, r.om_, r.ph = sp.G * sig / tau, sp.om_ / tau, sp.ph
    return r


def spec_of(quants, indeps, uses_time, **mats):
    r = M.Spec(quants, indeps, uses_time=uses_time)
    for k, v in mats.items():
        setattr(r, k, np.array(v, dtype=float))
    return r


def fields(sp):
    return dict(A=sp.A, N=sp.N, C=sp.C, D=sp.D, w=sp.w, c0=sp.c0, E=sp.E, G=sp.G, om_=sp.om_, ph=sp.ph)


class Pair:
    """zA = Lout zB + cout for uB = Lin uA + cin, with u = (t, y, p) and z = (t, y)."""

    def __init__(self, A, B, Lin, Lout, cin=None, cout=None):
        self.A, self.B, self.Lin, self.Lout = A, B, Lin, Lout
        self.cin = np.zeros(Lin.shape[0]) if cin is None else cin
        self.cout = np.zeros(Lout.shape[0]) if cout is None else cout


def split(sp, u):
    return float(u[0]), u[1:1 + sp.n].copy(), u[1 + sp.n:].copy()


def ident(sp):
    return np.eye(1 + sp.n + sp.m), np.eye(1 + sp.n)


def steps(rig):
    """(t, y) in the order of the spec after each step of the run."""
    fi = rig.flat_index()
    return [np.concatenate([[e["t1"]], e["y1"][fi]]) for e in rig.log if e["list"] == "compute" and e["when"] == "after"]


def compare(mon, rng, pr, ra, rb, rtol, what, every=1, rev=True, t0=None):
    """Runs both rigs and compares everything."""
    A, B = pr.A, pr.B
    t, y, p = random_state(rng, A)
    t = t if t0 is None else t0
    u = np.concatenate([[t], y, p])
    za = ra.run(t, y, p)
    zb = rb.run(*split(B, pr.Lin @ u + pr.cin))
    za, zb = np.concatenate([[za[0]], za[1]]), np.concatenate([[zb[0]], zb[1]])
    if not (np.all(np.isfinite(za)) and np.max(np.abs(za)) < 1e6):
        raise Skip("the solution leaves the well-conditioned range")
    cond = float(np.max(np.abs(pr.Lout) @ np.abs(zb) + np.abs(pr.cout), initial=1.0))
    sc = max(1.0, float(np.max(np.abs(za))), cond)
    sa, sb = steps(ra), steps(rb)
    if every:
        mon.require(len(sa) == every * len(sb), "same-steps", f"{what}: {len(sa)} steps instead of {every * len(sb)}")
        for k, (x, z) in enumerate(zip(sa[every - 1::every], sb)):
            mon.close(pr.Lout @ z + pr.cout, x, "same-step", f"{what}: state after step {k + 1}", rtol=rtol, atol=0, scale=sc)
            mon.count("step_pairs")
    mon.close(pr.Lout @ zb + pr.cout, za, "same-result", f"{what}: result", rtol=rtol, atol=0, scale=sc)
    v = rng.normal(size=1 + A.n + A.m)
    w = rng.normal(size=1 + A.n)
    fa, fb = ra.fwd(v), pr.Lout @ rb.fwd(pr.Lin @ v)
    js = float(max(1.0, np.max(np.abs(fa)), np.max(np.abs(v)) ** 2 * sc))
    mon.close(fb, fa, "same-forward", f"{what}: forward product", rtol=10 * rtol, atol=0, scale=js)
    mon.count("fwd_products")
    if rev:
        ga, gb = ra.rev(w), pr.Lin.T @ rb.rev(pr.Lout.T @ w)
        js = float(max(1.0, np.max(np.abs(ga)), sc * np.max(np.abs(w)) ** 2))
        mon.close(gb, ga, "same-reverse", f"{what}: reverse product", rtol=10 * rtol, atol=0, scale=js)
        mon.count("rev_products")
    mon.count("pairs")
    return za, zb


# -- the formulations --------------------------------------------------------
def units(rng, sp, uniform, lo=-10, hi=20):
    tau = two(rng, lo, hi)
    if uniform:
        sig = np.full(sp.n, two(rng, -30, 30))
    else:
        sig = np.concatenate([np.full(q.size, two(rng, -12, 12)) for q in sp.quants])
    pi = np.concatenate([np.full(q.size, two(rng, -12, 12)) for q in sp.indeps] + [np.zeros(0)])
    B = rescale(sp, tau, sig, pi)
    return Pair(sp, B, np.diag(np.concatenate([[tau], sig, pi])), np.diag(1 / np.concatenate([[tau], sig]))), tau, float(sig[0])


def cut(rng, n, prefix):
    """A random partition of n entries into named quantities of random shapes."""
    out, left = [], n
    while left:
        k = int(rng.integers(1, left + 1))
        shp = (k,)
        if k % 2 == 0 and rng.random() < 0.4:
            shp = (2, k // 2) if rng.random() < 0.5 else (k // 2, 1, 2)
        out.append(M.Quant(f"{prefix}{len(out)}", shp))
        left -= k
    names = [q.name for q in out]
    if rng.random() < 0.4:
        names = [f"{'xyz'[int(rng.integers(3))]}{int(i)}" for i in rng.permutation(20)[:len(out)]]
    for q, nm in zip(out, names):
        q.name = prefix + nm
    return out


def partition(rng, sp):
    n, m = sp.n, sp.m
    py, pp = rng.permutation(n), rng.permutation(m)
    B = spec_of(cut(rng, n, "s_"), cut(rng, m, "i_"), sp.uses_time, A=sp.A[py][:, py], N=sp.N[py][:, py], C=sp.C[py][:, py], D=sp.D[py][:, pp], w=sp.w[py], c0=sp.c0[py],
                E=sp.E[py][:, pp], G=sp.G[py], om_=sp.om_[py], ph=sp.ph[py])
    Py, Pp = np.eye(n)[py], np.eye(m)[pp].reshape(m, m)
    return Pair(sp, B, block(np.eye(1), Py, Pp), block(np.eye(1), Py).T)


def block(*ms):
    r, c = sum(x.shape[0] for x in ms), sum(x.shape[1] for x in ms)
    out = np.zeros((r, c))
    i = j = 0
    for x in ms:
        out[i:i + x.shape[0], j:j + x.shape[1]] = x
        i, j = i + x.shape[0], j + x.shape[1]
    return out


def renamed(qs, prefix):
    return [M.Quant(prefix + q.name, q.shape, q.has_input) for q in qs]


def stack(rng, sp):
    ot = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=3)
    first = bool(rng.random() < 0.5)
    a, b = (sp, ot) if first else (ot, sp)
    f, g = fields(a), fields(b)
    B = spec_of(renamed(a.quants, "a_") + renamed(b.quants, "b_"), renamed(a.indeps, "a_") + renamed(b.indeps, "b_"), a.uses_time or b.uses_time,
                **{k: block(f[k], g[k]) if f[k].ndim == 2 else np.concatenate([f[k], g[k]]) for k in f})
    n, m, k, l = sp.n, sp.m, ot.n, ot.m
    yo, po = rng.normal(size=k), rng.normal(size=l)
    Iy, Ip = (np.vstack([np.eye(n), np.zeros((k, n))]), np.vstack([np.eye(m), np.zeros((l, m))])) if first else (np.vstack([np.zeros((k, n)), np.eye(n)]), np.vstack([np.zeros((l, m)), np.eye(m)]))
    cy, cp = (np.concatenate([np.zeros(n), yo]), np.concatenate([np.zeros(m), po])) if first else (np.concatenate([yo, np.zeros(n)]), np.concatenate([po, np.zeros(m)]))
    return Pair(sp, B, block(np.eye(1), Iy, Ip), block(np.eye(1), Iy).T, cin=np.concatenate([[0.0], cy, cp]))


def parameter(rng, sp):
    """Some parameters become constant states."""
    moved = [i for i in range(len(sp.indeps)) if rng.random() < 0.6] or [int(rng.integers(len(sp.indeps)))]
    sl = sp.slices("indeps")
    mv = np.concatenate([np.arange(sl[sp.indeps[i].name].start, sl[sp.indeps[i].name].stop) for i in moved])
    st = np.array([i for i in range(sp.m) if i not in set(mv.tolist())], dtype=int)
    n, k = sp.n, mv.size
    z = np.zeros
    B = spec_of(list(sp.quants) + [M.Quant("c_" + sp.indeps[i].name, sp.indeps[i].shape) for i in moved], [q for i, q in enumerate(sp.indeps) if i not in moved], sp.uses_time,
                A=np.block([[sp.A, sp.E[:, mv]], [z((k, n + k))]]), N=block(sp.N, z((k, k))), C=np.block([[sp.C, sp.D[:, mv]], [z((k, n + k))]]), D=np.vstack([sp.D[:, st], z((k, st.size))]),
                w=np.r_[sp.w, z(k)], c0=np.r_[sp.c0, z(k)], E=np.vstack([sp.E[:, st], z((k, st.size))]), G=np.r_[sp.G, z(k)], om_=np.r_[sp.om_, z(k)], ph=np.r_[sp.ph, z(k)])
    Lin = z((1 + n + k + st.size, 1 + n + sp.m))
    Lin[:1 + n, :1 + n] = np.eye(1 + n)
    for a, j in enumerate(mv):
        Lin[1 + n + a, 1 + n + j] = 1.0
    for a, j in enumerate(st):
        Lin[1 + n + k + a, 1 + n + j] = 1.0
    Lout = np.hstack([np.eye(1 + n), z((1 + n, k))])
    return Pair(sp, B, Lin, Lout)


def clock(rng, sp):
    """Time becomes a state."""
    n = sp.n
    z = np.zeros
    B = spec_of(list(sp.quants) + [M.Quant("clock", (1,))], sp.indeps, False, A=block(sp.A, z((1, 1))), N=block(sp.N, z((1, 1))), C=np.block([[sp.C, sp.w[:, None]], [z((1, n + 1))]]),
                D=np.vstack([sp.D, z((1, sp.m))]), w=z(n + 1), c0=np.r_[sp.c0, 0.0], E=np.vstack([sp.E, z((1, sp.m))]), G=np.r_[z(n), 1.0], om_=z(n + 1), ph=np.full(n + 1, np.pi / 2))
    Lin = z((1 + n + 1 + sp.m, 1 + n + sp.m))
    Lin[:1 + n, :1 + n] = np.eye(1 + n)
    Lin[1 + n, 0] = 1.0
    Lin[2 + n:, 1 + n:] = np.eye(sp.m)
    # the final time may be read off the clock as well
    Lout = np.hstack([np.eye(1 + n), z((1 + n, 1))])
    if rng.random() < 0.5:
        Lout[0, 0], Lout[0, 1 + n] = 0.0, 1.0
    return Pair(sp, B, Lin, Lout)


def shift(rng, sp):
    d = float(rng.choice([-1, 1]) * rng.choice([1.0, 8.0, 64.0, rng.uniform(0.1, 100)]))
    f = fields(sp)
    f.update(c0=sp.c0 - sp.w * d, ph=sp.ph - sp.om_ * d)
    B = spec_of(sp.quants, sp.indeps, sp.uses_time, **f)
    Lin, Lout = ident(sp)
    ci, co = np.zeros(Lin.shape[0]), np.zeros(Lout.shape[0])
    ci[0], co[0] = d, -d
    return Pair(sp, B, Lin, Lout, ci, co)


def basis(rng, sp, orthogonal):
    n = sp.n
    T = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if not orthogonal:
        T = T * 2.0 ** rng.uniform(-1.5, 1.5, size=n) @ np.linalg.qr(rng.normal(size=(n, n)))[0]
    Ti = np.linalg.inv(T)
    B = spec_of(sp.quants, sp.indeps, sp.uses_time, A=T @ sp.A @ Ti, N=T @ sp.N, C=sp.C @ Ti, D=sp.D, w=sp.w, c0=sp.c0, E=T @ sp.E, G=sp.G, om_=sp.om_, ph=sp.ph)
    return Pair(sp, B, block(np.eye(1), T, np.eye(sp.m)), block(np.eye(1), Ti))


def retab(rng, tab):
    """(variant, equivalent tableau, steps of the original per step of the new one)"""
    A, b, c, bh = M.tab_arrays(tab)
    s = b.size
    kw = dict(p=tab.p, name="variant")
    pick = str(rng.choice(["compose", "pad", "split", "main", "embed"]))
    if pick == "compose":
        k = int(rng.integers(2, 4)) if s < 5 else 2
        AA, bb, cc = np.zeros((k * s, k * s)), np.tile(b, k) / k, np.concatenate([(i + c) / k for i in range(k)])
        for i in range(k):
            AA[i * s:(i + 1) * s, i * s:(i + 1) * s] = A / k
            for j in range(i):
                AA[i * s:(i + 1) * s, j * s:(j + 1) * s] = b[None, :] / k
        return pick, ButcherTableau(butcher_matrix=AA, butcher_weight_vector=bb, butcher_time_stages=cc, **kw), k
    if pick == "pad":  # a stage that nothing uses
        i = int(rng.integers(0, s + 1))
        row = np.zeros(s + 1)
        if i:
            row[:i] = rng.normal(size=i) * 0.3
        row[i] = float(rng.choice([0.0, 0.3]))
        AA = np.insert(np.insert(A, i, 0.0, axis=0), i, 0.0, axis=1)
        AA[i] = row
        return pick, ButcherTableau(butcher_matrix=AA, butcher_weight_vector=np.insert(b, i, 0.0), butcher_time_stages=np.insert(c, i, row.sum()), **kw), 1
    if pick == "split":  # a stage computed twice, with its weights shared out
        i = int(rng.integers(s))
        x = float(rng.uniform(-0.5, 1.5))
        idx = list(range(i + 1)) + [i] + list(range(i + 1, s))
        AA = np.insert(A, i + 1, 0.0, axis=1)[idx]
        AA[i + 1, i + 1], AA[i + 1, i] = A[i, i], 0.0
        for r in range(i + 2, s + 1):
            a = AA[r, i]
            AA[r, i], AA[r, i + 1] = x * a, (1 - x) * a
        bb = b[idx].copy()
        bb[i], bb[i + 1] = x * b[i], (1 - x) * b[i]
        return pick, ButcherTableau(butcher_matrix=AA, butcher_weight_vector=bb, butcher_time_stages=c[idx], **kw), 1
    if pick == "main" and bh is not None:
        return pick, tab.main_method, 1
    return "embed", EmbeddedButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, butcher_adaptive_weights=rng.dirichlet(np.ones(s)), phat=1, **kw), 1


# -- adaptive pairs -----------------------------------------------------------
def attempts(rig):
    return [e for e in rig.actl if e["kind"] == "ctrl"]


def delicate(rig, tol):
    """Does a decision hang on rounding?"""
    for e in rig.actl:
        if e["kind"] == "meas" and not np.linalg.norm(e["est"]) > 1e-9 * np.linalg.norm(e["y"]):
            return True
        if e["kind"] == "ctrl" and abs(e["err"] / tol - 1) < 1e-6:
            return True
    # retries whose step sizes converge to a limit end when rounding decides
    at = attempts(rig)
    for e, nxt in zip(at, at[1:]):
        if not e["acc"] and abs(nxt["dt"] / e["dt"] - 1) < 1e-6:
            return True
    return False


def adaptive(rng, mon, pr, what, tab, label, tau, sig, cname, ctrls, rtol, final):
    A = pr.A
    tol = float(10 ** rng.uniform(-6 if tab.min_p_order() > 2 else -4.5, -2))
    lb, ub, sf = float(rng.choice([0.0, 1e-3, 1e-2])), float(rng.choice([np.inf, 0.5, 0.2])), float(rng.choice([0.95, 0.8]))
    mi, h = int(rng.integers(0, 5)), float(10 ** rng.uniform(-2.5, 0))
    improved = bool(sig is not None and rng.random() < 0.4)
    eta, eps = float(10 ** rng.uniform(-4, 0)), float(10 ** rng.uniform(-4, 0))
    n = None if final else int(rng.integers(1, 8))
    st = rng.bit_generator.state
    t = random_state(rng, A)[0]
    rng.bit_generator.state = st
    T = t + float(rng.uniform(0.05, 0.8)) if final else None
    if final:
        lb = max(lb, 0.004)
    rigs = []
    for sp, s_t, s_y in ((pr.A, 1.0, 1.0), (pr.B, tau, sig or 1.0)):
        # the simple measure has the units of the state, the improved one has none
        cfg = ErrorControllerConfig(tol=tol * (1.0 if improved else s_y), lower_bound=lb * s_t, upper_bound=ub * s_t, safety_factor=sf, max_iter=mi)
        meas = ImprovedErrorMeasurer(eta=eta * s_y, eps=eps) if improved else SimpleErrorMeasurer()
        kw = dict(T=T * s_t) if final else dict(n=n)
        rigs.append((Rig(sp, tab, h=h * s_t, arch=str(rng.choice(["explicit", "ivc"])), adaptive=True, controllers=ctrls, ctrl_cfg=cfg, measurer=meas, rng=rng, **kw), cfg))
    (ra, ca), (rb, cb) = rigs
    rng.bit_generator.state = st
    mon.note(variant=what, tableau=label, controllers=cname, tol=tol, lb=lb, ub=str(ub), h=h, n=n, tau=tau, sigma=sig)
    gave = []
    t, y, p = random_state(rng, A)
    for r, u in ((ra, (t, y, p)), (rb, split(pr.B, pr.Lin @ np.concatenate([[t], y, p]) + pr.cin))):
        try:
            r.run(*u)
            gave.append(False)
        except GAVE_UP:
            gave.append(True)
    if delicate(ra, ca.tol) or delicate(rb, cb.tol):
        raise Skip("a decision of the controller hangs on rounding")
    aa, ab = attempts(ra), attempts(rb)
    for cfg, at in ((ca, aa), (cb, ab)):
        if any(0 < e["dt"] - cfg.lower_bound < 1e-9 for e in at):
            raise Skip("a step size within the code's slack above the lower bound")
    mon.require(gave[0] == gave[1] and len(aa) == len(ab), "same-attempts", f"{what}: {len(aa)} attempts (gave up: {gave[0]}) instead of {len(ab)} ({gave[1]})")
    for k, (x, z) in enumerate(zip(aa, ab)):
        mon.require(x["acc"] == z["acc"], "same-decision", f"{what}: attempt {k + 1} accepted {x['acc']} and {z['acc']}")
        mon.close(z["dt"], x["dt"] * tau, "same-step-size", f"{what}: step size of attempt {k + 1}", rtol=rtol, atol=0)
        mon.close(z["err"] / cb.tol, x["err"] / ca.tol, "same-error", f"{what}: error of attempt {k + 1} relative to the tolerance", rtol=1e3 * rtol, atol=0)
        mon.count("attempts")
    mon.distinct("adaptive", what, label, cname, improved, final)
    if gave[0]:
        mon.count("pairs_giving_up")
        return
    for r in (ra, rb):
        r.log.clear(), r.actl.clear()
    rng.bit_generator.state = st
    compare(mon, rng, pr, ra, rb, max(rtol, 1e-8), what)


# -- cases --------------------------------------------------------------------
def fixed(rng, mon, kind, pr, what, tab, label, tau=1.0, tabB=None, per=1, rtol=1e-9, until=None):
    nB = int(rng.integers(1, 6)) if rng.random() < 0.8 else int(rng.integers(6, 20))
    h = float(10 ** rng.uniform(-2.5, -1))
    ck = [checkpoint_choice(rng, nB * per), checkpoint_choice(rng, nB)]
    arch = [str(rng.choice(["explicit", "ivc", "implicit"])) for _ in range(2)]
    if tau != 1.0:
        arch = ["explicit" if a == "implicit" else a for a in arch]
    if until:
        ck = [("all", AllCheckpointer, {})] * 2
    ends, t0 = [dict(n=nB * per), dict(n=nB)], None
    if until == "units":
        # units are powers of two: both sides round in the same way
        t0 = float(rng.normal())
        T = t0 + h * (nB if rng.random() < 0.5 else nB - float(rng.uniform(0.0, 1.0)))
        ends = [dict(T=T), dict(T=T * tau)]
    elif until == "shift":
        # clocks without any rounding
        h = 2.0 ** -int(rng.integers(4, 10))
        t0 = float(rng.integers(-8, 9)) * h
        T = t0 + nB * h - (0.0 if rng.random() < 0.6 else 0.5 * h)
        ends = [dict(T=T), dict(T=T + pr.cin[0])]
    mon.note(variant=what, tableau=label, n=nB * per, h=h, ckpt=[c[0] for c in ck], arch=arch, tau=tau, until=until)
    ra = Rig(pr.A, tab, h=h, arch=arch[0], ckpt=ck[0][1:], rng=rng, **ends[0])
    rb = Rig(pr.B, tabB or tab, h=h * per * tau, arch=arch[1], ckpt=ck[1][1:], rng=rng, **ends[1])
    compare(mon, rng, pr, ra, rb, rtol, what, every=per, t0=t0)
    if until:
        mon.count("pairs_until_time")
    mon.distinct(kind, what, label, ck[0][0], ck[1][0])
    return ra, rb


def run(kind, idx, rng, mon, tier):
    tab, label = M.pick_tableau(rng)
    if kind in ("clock",):  # needs stage times that are the row sums
        tab, label = M.pick_tableau(rng, p_random=0.0)
    if kind == "units":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 4)))
        pr, tau, _ = units(rng, sp, False)
        fixed(rng, mon, kind, pr, "units", tab, label, tau=tau, rtol=1e-11, until="units" if rng.random() < 0.35 else None)
    elif kind == "units_adaptive":
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        sp = M.random_spec(rng, nq=int(rng.integers(1, 4)))
        pr, tau, sig = units(rng, sp, True, lo=-8, hi=20)
        cname, ctrls = pick_controllers(rng)
        tame = set(cname.split("+")) <= {"integral", "h0_110"}
        adaptive(rng, mon, pr, "units", tab, label, tau, sig, cname, ctrls, 1e-9, bool(tame and rng.random() < 0.5))
    elif kind == "partition":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), noinput=False)
        fixed(rng, mon, kind, partition(rng, sp), "partition", tab, label)
    elif kind == "stack":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)))
        fixed(rng, mon, kind, stack(rng, sp), "stack", tab, label)
    elif kind == "parameter":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), indep=int(rng.integers(1, 4)))
        fixed(rng, mon, kind, parameter(rng, sp), "parameter", tab, label)
    elif kind == "clock":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), time=True)
        sp.G = 0.0 * sp.G
        fixed(rng, mon, kind, clock(rng, sp), "clock", tab, label)
    elif kind == "shift":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)))
        fixed(rng, mon, kind, shift(rng, sp), "shift", tab, label)
    elif kind == "far":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), time=False)
        Lin, Lout = ident(sp)
        ci, co = np.zeros(Lin.shape[0]), np.zeros(Lout.shape[0])
        ci[0] = float(rng.choice([-1, 1])) * 2.0 ** int(rng.integers(3, 31))
        co[0] = -ci[0]
        fixed(rng, mon, kind, Pair(sp, sp, Lin, Lout, ci, co), "far", tab, label, until="shift" if rng.random() < 0.8 else None)
    elif kind == "basis":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), noinput=False)
        sp.G = 0.0 * sp.G
        fixed(rng, mon, kind, basis(rng, sp, False), "basis", tab, label)
    elif kind == "tableau":
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)))
        what, tb, per = retab(rng, tab)
        fixed(rng, mon, kind, Pair(sp, sp, *ident(sp)), what, tab, label, tabB=tb, per=per)
    elif kind == "superpose":
        superpose(rng, mon, tab, label)
    else:
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        what = ["partition", "parameter", "clock", "shift", "basis"][idx % 5]
        sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), indep=int(rng.integers(1, 3)), time=True if what == "clock" else None, noinput=False)
        if what in ("clock", "basis"):
            sp.G = 0.0 * sp.G
        pr = {"partition": partition, "parameter": parameter, "clock": clock, "shift": shift, "basis": lambda r, s: basis(r, s, True)}[what](rng, sp)
        cname, ctrls = pick_controllers(rng, False)
        adaptive(rng, mon, pr, what, tab, label, 1.0, None, cname, ctrls, 1e-7, False)


def superpose(rng, mon, tab, label):
    """For ODEs affine in state and parameters results are affine in them too, and derivatives the same everywhere."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), indep=int(rng.integers(0, 3)))
    sp.N = 0.0 * sp.N
    n = int(rng.integers(1, 8))
    h = float(10 ** rng.uniform(-2.5, -0.7))
    ck = checkpoint_choice(rng, n)
    rig = Rig(sp, tab, n=n, h=h, arch=str(rng.choice(["explicit", "implicit", "coupled", "nested", "ivc"])), ckpt=ck[1:], rng=rng)
    mon.note(tableau=label, n=n, h=h, ckpt=ck[0])
    t, a, p = random_state(rng, sp)
    b, q = rng.normal(size=sp.n), rng.normal(size=sp.m)
    x = float(rng.uniform(-2, 3))
    za, v = rig.run(t, a, p)[1], np.concatenate([[0.0], b - a, q - p])
    w = np.concatenate([[0.0], rng.normal(size=sp.n)])
    d0, g0 = rig.fwd(v)[1:], rig.rev(w)
    rig.run(t, a, p)
    zb = rig.run(t, b, q)[1]
    d1 = rig.fwd(v)[1:]
    zx = rig.run(t, (1 - x) * a + x * b, (1 - x) * p + x * q)[1]
    g1 = rig.rev(w)
    sc = float(max(1.0, np.max(np.abs(za)), np.max(np.abs(zb)), np.max(np.abs(zx))))
    if not sc < 1e6:
        raise Skip("the solution leaves the well-conditioned range")
    mon.close(zx, (1 - x) * za + x * zb, "superposition", "result of a combination of inputs", rtol=1e-9, atol=0, scale=5 * sc)
    mon.close(d0, zb - za, "superposition-forward", "forward product = difference of results", rtol=1e-9, atol=0, scale=5 * sc)
    mon.close(d1, d0, "superposition-forward", "forward products at different states", rtol=1e-9, atol=0, scale=5 * sc)
    mon.close(g1[1:], g0[1:], "superposition-reverse", "reverse products at different states", rtol=1e-9, atol=0, scale=5 * max(1.0, float(np.max(np.abs(g0)))))
    mon.close(float(g0 @ v), float(w[1:] @ (zb - za)), "superposition-reverse", "reverse product and difference of results", rtol=1e-9, atol=0, scale=50 * sc * max(1.0, float(np.max(np.abs(g0)))))
    mon.count("pairs"), mon.count("fwd_products", 2), mon.count("rev_products", 2)
    mon.distinct("superpose", label, ck[0])
