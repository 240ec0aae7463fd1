"""C19: shipped ODE models and helper components are mathematically right."""

import dataclasses
import os
import pathlib
import shutil

import h5py
import numpy as np
import openmdao.api as om

from rkopenmdao import butcher_tableaux as BT
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState, DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_measurer import SimpleErrorMeasurer
from rkopenmdao.file_writer import read_hdf5_file, read_last_local_error
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps
from rkopenmdao.utils.problems import ProblemConfig, kaps_problem, prothero_robinson_problem
from rkopenmdao.utils.utility_components import StageUpdateComponent, StageValueComponent

from rtm.core import Skip

KINDS = {"component": (1200, 4000), "group": (1000, 3000), "solution": (800, 3000), "integrate": (300, 800), "problem": (32, 80)}
MIN_EVENTS = {"points": 80, "linear_solves": 80, "totals": 80, "solutions": 80, "integrations": 20, "problem_runs": 4}
RULE = ("every shipped component at random points, step sizes and stage factors (zero included): outputs against the closed form of the stage equation, residual zero at the solution, linearised operator "
        "against central differences of the residual (exact for these quadratic residuals), forward/transposed solves against that operator, totals in both modes; groups through OpenMDAOODE (seeds scaled 1e-7..1e5 in sequence); analytic "
        "solutions against the ODE (high-order differences) and start values; integrations converge to them; shipped problem runner files against the solution; distinct = (component, factor class, mode)")


class F:
    """Right-hand sides as documented."""

    @staticmethod
    def kaps(eps):
        def f(t, y):
            return np.array([-(1 / eps + 2) * y[0] + y[1] ** 2 / eps, y[0] - y[1] - y[1] ** 2])

        def j(t, y):
            return np.array([[-(1 / eps + 2), 2 * y[1] / eps], [1.0, -1 - 2 * y[1]]]), np.zeros(2)
        return f, j

    @staticmethod
    def pr(lam):
        def f(t, y):
            return lam * (y - np.sin(np.pi / 4 + t)) + np.cos(np.pi / 4 + t)

        def j(t, y):
            return np.array([[lam]]), np.array([-lam * np.cos(np.pi / 4 + t) - np.sin(np.pi / 4 + t)])
        return f, j

    @staticmethod
    def linear():
        return (lambda t, y: -y), (lambda t, y: (np.array([[-1.0]]), np.zeros(1)))


def step_and_factor(rng, allow_zero=True):
    h = float(10 ** rng.uniform(-3, 0))
    r = rng.random()
    a = 0.0 if r < 0.25 and allow_zero else float(rng.uniform(0.05, 1.0))
    return h, a


def solo(comp, h, a):
    prob = om.Problem()
    c = prob.model.add_subsystem("c", comp)
    prob.setup(force_alloc_complex=False)
    prob.final_setup()
    c.om_data_exchange.step_size = h
    c.om_data_exchange.stage_factor = a
    return prob, c


def component(rng, mon):
    which = str(rng.choice(["kaps1", "kaps2", "pr", "linear", "value", "update"]))
    h, a = step_and_factor(rng, which != "update")
    if which in ("value", "update") and rng.random() < 0.35:
        h = -h  # integration backwards in time
        mon.count("backwards")
    mon.note(component=which, step_size=h, stage_factor=a)
    old, acc, other, t = rng.normal(), rng.normal(), rng.normal(), rng.normal()
    base = old + h * acc
    if which in ("kaps1", "kaps2"):
        return kaps_component(rng, mon, which, h, a, old, acc, other)
    if which in ("pr", "linear"):
        lam = -float(10 ** rng.uniform(-1, 4)) if which == "pr" else -1.0
        comp = ProtheroRobinson(lambda_=lam) if which == "pr" else SimpleLinearODE()
        names = ["time", "x", "acc_stages"] if which == "pr" else [None, "y_old", "y_accumulated_stages"]
        out = "x_stage" if which == "pr" else "y_stage"
        prob, c = solo(comp, h, a)
        f, j = F.pr(lam) if which == "pr" else F.linear()
        if names[0]:
            prob.set_val("c.time", t)
        prob.set_val("c." + names[1], old)
        prob.set_val("c." + names[2], acc)
        prob.run_model()
        # k = f(t, base + h a k), f affine in y
        jy, jt = j(t, np.array([0.0]))
        k = float(f(t, np.array([base]))[0] / (1 - h * a * jy[0, 0]))
        mon.close(prob.get_val("c." + out)[0], k, "stage", f"{which}: stage slope", rtol=1e-11, atol=1e-13)
        y = base + h * a * k
        mon.close(k, f(t, np.array([y]))[0], "stage-ode", f"{which}: slope fulfils the ODE", rtol=1e-9, atol=1e-11, scale=abs(lam) * (1 + abs(y)) + 1)
        g = 1 / (1 - h * a * jy[0, 0])
        want = {"c." + names[1]: g * jy[0, 0], "c." + names[2]: g * h * jy[0, 0]}
        if names[0]:
            want["c.time"] = g * jt[0]
        totals(rng, mon, prob, {"c." + out: want}, which)
    elif which == "value":
        shape = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 3))))
        prob = om.Problem()
        src = prob.model.add_subsystem("src", om.IndepVarComp())
        src.add_output("s", shape=shape)
        c = prob.model.add_subsystem("c", StageValueComponent(tag=None if rng.random() < 0.5 else "q"))
        prob.model.connect("src.s", "c.stage_slope")
        prob.setup()
        prob.final_setup()
        c.om_data_exchange.step_size, c.om_data_exchange.stage_factor = h, a
        o, s, k = (rng.normal(size=shape) for _ in range(3))
        prob.set_val("c.old_value", o)
        prob.set_val("c.acc_stages", s)
        prob.set_val("src.s", k)
        prob.run_model()
        mon.close(prob.get_val("c.stage_value"), o + h * (s + a * k), "stage-value", "stage value", rtol=1e-12, atol=1e-13)
        n = int(np.prod(shape))
        eye = np.eye(n)
        totals(rng, mon, prob, {"c.stage_value": {"c.old_value": eye, "c.acc_stages": h * eye, "src.s": h * a * eye}}, which)
    else:
        names = [f"v{i}" for i in range(int(rng.integers(1, 3)))]
        shapes = {n: (int(rng.integers(1, 4)),) for n in names}
        prob = om.Problem()
        src = prob.model.add_subsystem("src", om.IndepVarComp())
        for n in names:
            for suffix in ("", "_old", "_acc_stages"):
                src.add_output(n + suffix, shape=shapes[n], distributed=True)
        c = prob.model.add_subsystem("c", StageUpdateComponent(quantity_list=list(names)))
        for n in names:
            for suffix in ("", "_old", "_acc_stages"):
                prob.model.connect("src." + n + suffix, "c." + n + suffix)
        prob.setup()
        prob.final_setup()
        c.om_data_exchange.step_size, c.om_data_exchange.stage_factor = h, a
        want = {}
        vals = {}
        for n in names:
            y, o, s = (rng.normal(size=shapes[n]) for _ in range(3))
            vals[n] = (y - o - h * s) / (h * a)
            prob.set_val("src." + n, y)
            prob.set_val(f"src.{n}_old", o)
            prob.set_val(f"src.{n}_acc_stages", s)
            e = np.eye(shapes[n][0])
            want[f"c.{n}_update"] = {"src." + n: e / (h * a), f"src.{n}_old": -e / (h * a), f"src.{n}_acc_stages": -e / a}
        prob.run_model()
        for n in names:
            mon.close(prob.get_val(f"c.{n}_update"), vals[n], "stage-update", "stage update", rtol=1e-11, atol=1e-12)
        for n in names:
            for m in names:
                if m != n:
                    for k in (f"src.{m}", f"src.{m}_old", f"src.{m}_acc_stages"):
                        want[f"c.{n}_update"][k] = np.zeros((shapes[n][0], shapes[m][0]))
        totals(rng, mon, prob, want, which)
    mon.count("points")
    mon.distinct(which, a == 0.0, h > 0.05)


def totals(rng, mon, prob, want, what):
    """Derivatives in both modes; wants {of: {wrt: matrix}}."""
    of = list(want)
    wrt = sorted({w for d in want.values() for w in d})
    for mode in ("fwd", "rev"):
        _totals(mon, prob, want, what, of, wrt, mode)
        # only some of the variables: OpenMDAO hands the component only what matters for them
        for _ in range(2):
            keep = [w for w in wrt if rng.random() < 0.4] or [wrt[int(rng.integers(len(wrt)))]]
            outs = [o for o in of if rng.random() < 0.6] or of[-1:]
            if len(keep) < len(wrt) or len(outs) < len(of):
                _totals(mon, prob, want, what + " (some variables)", outs, keep, mode)
                mon.count("partial_totals")


def _totals(mon, prob, want, what, of, wrt, mode):
    n_in = {w: np.size(prob.get_val(w)) for w in wrt}
    n_out = {o: np.size(prob.get_val(o)) for o in of}
    got = {(o, w): np.zeros((n_out[o], n_in[w])) for o in of for w in wrt}
    names, sizes = (wrt, n_in) if mode == "fwd" else (of, n_out)
    for nm in names:
        for i in range(sizes[nm]):
            seed = {k: np.zeros(np.shape(prob.get_val(k))) for k in names}
            seed[nm].ravel()[i] = 1.0
            r = prob.compute_jacvec_product(of, wrt, mode, seed)
            for other in (of if mode == "fwd" else wrt):
                if mode == "fwd":
                    got[other, nm][:, i] = np.ravel(r[other])
                else:
                    got[nm, other][i, :] = np.ravel(r[other])
    for o in of:
        for w, m in want[o].items():
            if w in wrt:
                mon.close(got[o, w], np.reshape(m, got[o, w].shape), "derivative-" + mode, f"{what}: derivative of {o} with respect to {w} ({mode})", rtol=1e-9, atol=1e-11)
    mon.count("totals")


def kaps_component(rng, mon, which, h, a, old, acc, other):
    eps = float(10 ** rng.uniform(-4, 0.5))
    if which == "kaps1":
        comp, ins, outs = KapsComponent1(epsilon=eps), ["y_1_old", "y_1_accumulated_stages", "y_2"], ["y_1", "y_1_stage"]
    else:
        comp, ins, outs = KapsComponent2(), ["y_2_old", "y_2_accumulated_stages", "y_1"], ["y_2", "y_2_stage"]
        # the stage equation has a real root in the range the component is made for
        old, acc, other = abs(old), 0.3 * acc, abs(other)
        if old + h * acc < -0.2:
            acc = -acc
    prob, c = solo(comp, h, a)
    for nm, v in zip(ins, (old, acc, other)):
        prob.set_val("c." + nm, v)
    prob.run_model()
    y, k = float(prob.get_val("c." + outs[0])[0]), float(prob.get_val("c." + outs[1])[0])
    base = old + h * acc
    if which == "kaps1":
        kk = (-(1 / eps + 2) * base + other ** 2 / eps) / (1 + h * a * (1 / eps + 2))
        tol = 1e-10
    else:
        # q = a h: q y^2 + (1+q) y - (base + q other) = 0, root continuous in q -> 0
        q = a * h
        if q == 0:
            yy = base
        else:
            disc = (1 + q) ** 2 + 4 * q * (base + q * other)
            if disc <= 0.05:
                raise Skip("no real stage")
            yy = 2 * (base + q * other) / ((1 + q) + np.sqrt(disc))
        kk = other - yy - yy ** 2
        tol = 1e-9 + (1e-14 / q ** 2 if q else 0.0)  # the closed form divides by q^2
    mon.close(k, kk, "kaps-stage", f"{which}: stage slope", rtol=tol, atol=tol)
    mon.close(y, base + h * a * k, "kaps-value", f"{which}: stage value", rtol=1e-11, atol=1e-12)
    # residual at the solution
    c.run_apply_nonlinear()
    r = {o: float(prob.model.c._residuals[o][0]) for o in outs}
    mon.close([r[o] for o in outs], [0.0, 0.0], "kaps-residual", f"{which}: residual at the own solution", rtol=0, atol=20 * tol * (1 + abs(kk) + abs(y)) * max(1.0, eps))
    # linearise at an arbitrary point: residuals are quadratic, central differences are exact up to rounding
    x0 = rng.normal(size=5)
    names = ins + outs

    def put(x):
        for nm, v in zip(names, x):
            (c._inputs if nm in ins else c._outputs)[nm] = v

    def resid(x):
        put(x)
        c.run_apply_nonlinear()
        return np.array([float(c._residuals[o][0]) for o in outs])
    J = np.zeros((2, 5))
    for i in range(5):
        e = np.zeros(5)
        e[i] = 0.5
        J[:, i] = resid(x0 + e) - resid(x0 - e)
    put(x0)
    c.run_linearize()
    di, do, dr = c.get_linear_vectors()
    for _ in range(2):
        v = rng.normal(size=5)
        for vec in (di, do, dr):
            vec.set_val(0.0)
        for nm, x in zip(names, v):
            (di if nm in ins else do)[nm] = x
        c.run_apply_linear("fwd")
        got = np.array([float(dr[o][0]) for o in outs])
        mon.close(got, J @ v, "kaps-fwd", f"{which}: forward linearised residual", rtol=1e-9, atol=1e-10)
        w = rng.normal(size=2)
        for vec in (di, do, dr):
            vec.set_val(0.0)
        for o, x in zip(outs, w):
            dr[o] = x
        c.run_apply_linear("rev")
        got = np.array([float((di if nm in ins else do)[nm][0]) for nm in names])
        mon.close(got, J.T @ w, "kaps-rev", f"{which}: transposed linearised residual", rtol=1e-9, atol=1e-10)
        A = J[:, 3:]
        if abs(np.linalg.det(A)) < 1e-3 * np.linalg.norm(A) ** 2:
            continue
        for vec in (di, do, dr):
            vec.set_val(0.0)
        for o, x in zip(outs, w):
            dr[o] = x
        c.run_solve_linear("fwd")
        got = np.array([float(do[o][0]) for o in outs])
        mon.close(A @ got, w, "kaps-solve-fwd", f"{which}: forward linear solve", rtol=1e-8, atol=1e-8)
        for vec in (di, do, dr):
            vec.set_val(0.0)
        for o, x in zip(outs, w):
            do[o] = x
        c.run_solve_linear("rev")
        got = np.array([float(dr[o][0]) for o in outs])
        mon.close(A.T @ got, w, "kaps-solve-rev", f"{which}: transposed linear solve", rtol=1e-8, atol=1e-8)
        mon.count("linear_solves")
    mon.count("points")
    mon.distinct(which, a == 0.0, eps < 0.01)


def wrap(rng, which, par):
    prob = om.Problem()
    comp = {"kaps": lambda: KapsGroup(epsilon=par), "pr": lambda: ProtheroRobinson(lambda_=par), "linear": SimpleLinearODE}[which]()
    promotes = ["*"] if rng.random() < 0.5 else []
    parent = prob.model
    if rng.random() < 0.5:
        # a surrounding group with a linear solver of its own
        parent = prob.model.add_subsystem("g", om.Group(), promotes=promotes)
        # (repeated block Gauss-Seidel around a preconditioned Krylov solver, as KapsGroup has it, fails in OpenMDAO itself)
        s = str(rng.choice(["once", "direct", "krylov"] + (["lbgs"] if which != "kaps" else [])))
        if s == "direct":
            parent.linear_solver = om.DirectSolver(assemble_jac=False)
        elif s == "krylov":
            parent.linear_solver = om.ScipyKrylov(maxiter=50, atol=1e-14, rtol=1e-14, iprint=-1)
        elif s == "lbgs":
            parent.linear_solver = om.LinearBlockGS(maxiter=3, atol=1e-14, rtol=1e-14, iprint=-1)
    parent.add_subsystem("m", comp, promotes=promotes)
    prob.setup()
    prob.final_setup()
    quants = {"kaps": ["y_1", "y_2"], "pr": ["x"], "linear": ["y"]}[which]
    return OpenMDAOODE(prob, quants), quants


def pick_model(rng):
    which = str(rng.choice(["kaps", "kaps", "pr", "linear"]))
    par = {"kaps": float(10 ** rng.uniform(-3, 0.3)), "pr": -float(10 ** rng.uniform(-1, 3)), "linear": 0.0}[which]
    f, j = {"kaps": lambda: F.kaps(par), "pr": lambda: F.pr(par), "linear": F.linear}[which]()
    return which, par, f, j


def group(rng, mon):
    """Stage evaluation and its derivatives of the complete models through OpenMDAOODE."""
    which, par, f, j = pick_model(rng)
    ode, quants = wrap(rng, which, par)
    n = len(quants)
    h, a = float(10 ** rng.uniform(-2.5, -0.7)), 0.0 if rng.random() < 0.3 else float(rng.uniform(0.2, 1.0))
    order = [q.name for q in ode.time_integration_metadata.time_integration_quantity_list]
    perm = np.array([order.index(q) for q in quants])
    t = float(rng.normal())
    y = rng.normal(size=n) if which != "kaps" else np.array([rng.uniform(0.2, 1.2), rng.uniform(0.4, 1.2)])
    if which == "kaps" and a == 0.0:
        pass
    acc = 0.2 * rng.normal(size=n)

    def flat(x):
        z = np.zeros(n)
        z[perm] = x
        return z
    try:
        r = ode.compute_update(DiscretizedODEInputState(flat(y), flat(acc), np.zeros(0), t), h, a)
    except om.AnalysisError:
        raise Skip("the stage solver of the shipped model did not converge") from None
    k = r.stage_update[perm]
    base = y + h * acc
    # reference by Newton
    kk = f(t, base)
    for _ in range(80):
        jy, _ = j(t, base + h * a * kk)
        d = np.linalg.solve(np.eye(n) - h * a * jy, f(t, base + h * a * kk) - kk)
        kk = kk + d
        if np.max(np.abs(d)) < 1e-13 * (1 + np.max(np.abs(kk))):
            break
    else:
        raise Skip("reference Newton")
    eps = par if which == "kaps" else 1.0
    tol = (2e-6 / min(1.0, eps) + 1e-13 / max(h * a, 1e-3) ** 2) if which == "kaps" else 1e-10   # KapsGroup's own solver tolerance is 1e-7 on residuals scaled by epsilon
    mon.close(k, kk, "group-stage", f"{which}({par:.3g}): stage slope through OpenMDAOODE", rtol=tol, atol=tol)
    lin = r.linearization_point
    Y = base + h * a * k
    jy, jt = j(t, Y)
    S = np.linalg.inv(np.eye(n) - h * a * jy)
    dt, dy, dacc = rng.normal(), rng.normal(size=n), rng.normal(size=n)
    want = S @ (jt * dt + jy @ (dy + h * dacc))
    got = ode.compute_update_derivative(DiscretizedODEInputState(flat(dy), flat(dacc), np.zeros(0), dt, lin), h, a).stage_update[perm]
    dtol = 1e-5 / min(1.0, eps) if which == "kaps" else 1e-9
    mon.close(got, want, "group-fwd", f"{which}({par:.3g}): forward derivative of the stage", rtol=dtol, atol=dtol)
    w = rng.normal(size=n)
    g = ode.compute_update_adjoint_derivative(DiscretizedODEResultState(flat(w), np.zeros(n), np.zeros(0), lin), h, a)
    v = S.T @ w
    mon.close(g.step_input[perm], jy.T @ v, "group-rev", f"{which}({par:.3g}): reverse derivative (step input)", rtol=dtol, atol=dtol)
    mon.close(g.stage_input[perm], h * (jy.T @ v), "group-rev", f"{which}({par:.3g}): reverse derivative (stage input)", rtol=dtol, atol=dtol)
    mon.close(g.time, float(jt @ v), "group-rev-time", f"{which}({par:.3g}): reverse derivative (time)", rtol=dtol, atol=dtol)
    # duality is independent of the solver tolerance of the stage
    lhs = float(w @ got)
    rhs = float(g.step_input[perm] @ dy + g.stage_input[perm] @ dacc + g.time * dt)
    mon.close(lhs, rhs, "group-dual", f"{which}({par:.3g}): <w, J v> and <J^T w, v>", rtol=1e-7, atol=1e-7, scale=float(np.linalg.norm(w) * np.linalg.norm(want)) + 1)
    # products are linear: seeds of any magnitude are treated alike
    z = float(10 ** rng.uniform(-7, 5))
    small = ode.compute_update_derivative(DiscretizedODEInputState(flat(z * dy), flat(z * dacc), np.zeros(0), z * dt, lin), h, a).stage_update[perm]
    mon.close(small / z, got, "group-scale", f"{which}({par:.3g}): forward derivative for a seed scaled by {z:.1e}", rtol=1e-6, atol=1e-7)
    g2 = ode.compute_update_adjoint_derivative(DiscretizedODEResultState(flat(z * w), np.zeros(n), np.zeros(0), lin), h, a)
    for x, y_ in ((g2.step_input, g.step_input), (g2.stage_input, g.stage_input), (np.array([g2.time]), np.array([g.time]))):
        mon.close(x / z, y_, "group-scale", f"{which}({par:.3g}): reverse derivative for a seed scaled by {z:.1e}", rtol=1e-6, atol=1e-7)
    mon.count("scaled_seeds")
    mon.count("points")
    mon.count("totals")
    mon.note(model=which, par=par, h=h, a=a)
    mon.distinct("group", which, a == 0.0)


def solution(rng, mon):
    which, par, f, _ = pick_model(rng)
    t0, T = float(rng.normal()), None
    T = t0 + float(rng.uniform(0.0, 2.0))
    if which == "kaps":
        y2 = float(rng.uniform(-1.5, 1.5))
        y0 = np.array([y2 ** 2, y2])

        def sol(t):
            return np.asarray(KapsGroup.kaps_solution(t, y0, t0), dtype=float)
    elif which == "pr":
        par = -float(10 ** rng.uniform(-1, 1.5))
        f, _ = F.pr(par)
        y0 = rng.normal(size=1)
        T = t0 + min(T - t0, 30 / abs(par))

        def sol(t):
            return np.asarray(ProtheroRobinson.solution(t, y0, t0, par), dtype=float)
    else:
        y0 = rng.normal(size=1)

        def sol(t):
            return np.asarray(SimpleLinearODE.simple_linear_solution(t, y0, t0), dtype=float)
    keep = y0.copy()
    mon.close(sol(t0), y0, "solution-start", f"{which}: analytic solution at its start", rtol=1e-12, atol=1e-13)
    d = 1e-2 / max(1.0, abs(par) if which == "pr" else 1.0)
    s = {i: sol(T + i * d) for i in (-3, -2, -1, 1, 2, 3)}
    der = (45 * (s[1] - s[-1]) - 9 * (s[2] - s[-2]) + (s[3] - s[-3])) / (60 * d)
    mon.close(der, f(T, sol(T)), "solution-ode", f"{which}({par:.3g}): analytic solution fulfils the ODE", rtol=1e-7, atol=1e-8 * max(1.0, abs(par) if which == "pr" else 1 / par if par else 1.0),)
    mon.require(np.array_equal(keep, y0), "solution-readonly", "start values modified")
    # defaults are the documented starts
    if which == "kaps":
        mon.close(KapsGroup.kaps_solution(T - t0), [np.exp(-2 * (T - t0)), np.exp(-(T - t0))], "solution-default", "Kaps: default solution", rtol=1e-12)
        mon.close(KapsGroup.get_initial_values(), [1, 1], "solution-default", "Kaps: initial values")
    elif which == "pr":
        tt = T - t0
        mon.close(ProtheroRobinson.solution(tt), [(np.cos(tt) + np.sin(tt)) / np.sqrt(2)], "solution-default", "Prothero-Robinson: default solution", rtol=1e-11)
        mon.close(ProtheroRobinson.get_initial_values(), [np.sin(np.pi / 4)], "solution-default", "Prothero-Robinson: initial values")
    else:
        mon.close(SimpleLinearODE.simple_linear_solution(T - t0), np.exp(-(T - t0)), "solution-default", "linear: default solution", rtol=1e-12)
    mon.count("solutions")
    mon.note(model=which, par=par, t0=t0, T=T)
    mon.distinct("solution", which)


def integrate(rng, mon):
    """The integrator reproduces the analytic solutions with the accuracy of its scheme; derivatives follow."""
    which = str(rng.choice(["kaps", "pr", "linear"]))
    par = {"kaps": float(rng.uniform(0.3, 2.0)), "pr": -float(rng.uniform(0.5, 8)), "linear": 0.0}[which]
    comp = {"kaps": lambda: KapsGroup(epsilon=par), "pr": lambda: ProtheroRobinson(lambda_=par), "linear": SimpleLinearODE}[which]()
    quants = {"kaps": ["y_1", "y_2"], "pr": ["x"], "linear": ["y"]}[which]
    inner = om.Problem()
    inner.model.add_subsystem("m", comp)
    tab = [BT.runge_kutta_four, BT.embedded_fourth_order_five_stage_sdirk, BT.embedded_runge_kutta_fehlberg, BT.fifth_order_five_stage_sdirk][int(rng.integers(4))]
    n, h = int(rng.integers(2, 12)), 0.02
    rk = om.Problem()
    rk.model.add_subsystem("rk", RungeKuttaIntegrator(time_stage_problem=inner, butcher_tableau=tab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(n), h),
                                                      time_integration_quantities=quants, compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[]), promotes=["*"])
    rk.setup()
    t0 = float(rng.normal())
    if which == "kaps":
        y2 = float(rng.uniform(0.4, 1.2))
        y0 = np.array([y2 ** 2, y2])
    else:
        y0 = rng.normal(size=1)
    rk.set_val("time_initial", t0)
    for q, v in zip(quants, y0):
        rk.set_val(q + "_initial", v)
    try:
        rk.run_model()
    except om.AnalysisError:
        raise Skip("the stage solver of the shipped model did not converge") from None
    T = t0 + n * h
    got = np.array([rk.get_val(q + "_final")[0] for q in quants])
    want = {"kaps": lambda: KapsGroup.kaps_solution(T, y0, t0), "pr": lambda: ProtheroRobinson.solution(T, y0, t0, par), "linear": lambda: SimpleLinearODE.simple_linear_solution(T, y0, t0)}[which]()
    mon.close(got, np.ravel(want), "integration", f"{which}({par:.3g}): {n} steps of {tab.name}", rtol=3e-5, atol=3e-6)
    mon.close(rk.get_val("time_final")[0], T, "integration-time", "final time", rtol=1e-12)
    mon.count("integrations")
    mon.note(model=which, par=par, tableau=tab.name, n=n)
    mon.distinct("integrate", which, tab.name)


def problem(rng, mon):
    """The shipped problem runner writes what it promises where it promises."""
    base = pathlib.Path(os.path.abspath("probs"))
    shutil.rmtree(base, ignore_errors=True)
    root = base / str(rng.choice(["", "v1.2", "some data", "old.h5/new", "a/b.c/d"]))
    here = os.getcwd()
    try:
        kaps = bool(rng.random() < 0.5)
        pb = kaps_problem() if kaps else prothero_robinson_problem(-float(rng.uniform(1, 20)))
        names = {pb.get_file_path("RK X, 4", s)[1].name for s in pb.step_sizes}
        mon.require(len(names) == len(pb.step_sizes), "file-names", "files of different step sizes coincide")
        pb = dataclasses.replace(pb, folder_path=root)
        tab = [BT.embedded_runge_kutta_fehlberg, BT.embedded_fourth_order_five_stage_sdirk][int(rng.integers(2))]
        mon.require(pb.compute_tolerance(tab.name) == 1e-6 and not pb.file_exists(tab.name, "adaptive"), "no-data", "tolerance without data")
        many = bool(rng.random() < 0.4)     # step numbers of several digits
        hs = [0.005, 0.01] if many else [0.02, 0.04]
        pb = dataclasses.replace(pb, step_sizes=np.array(hs))
        errs = []
        rel = bool(rng.random() < 0.5)
        for s in pb.step_sizes:
            _, path = pb.get_file_path(tab.name, s)
            n = int(rng.integers(10, 14)) if many else int(rng.integers(1, 5))
            target = path
            if rel:
                os.makedirs(path.parent, exist_ok=True)
                os.chdir(path.parent)
                target = pathlib.Path(path.name)
            pb.execute(tab, ProblemConfig(IntegrationConfig(False, PredefinedNumberOfSteps(n), float(s)), [integral], SimpleErrorMeasurer(), target))
            os.chdir(here)
            mon.require(pb.file_exists(tab.name, s), "written", f"no file at {path}")
            with h5py.File(path, "r") as f:
                mon.require(sorted(map(int, f)) == list(range(n + 1)), "steps", f"file has steps {sorted(f)}")
                for k in range(n + 1):
                    want = np.ravel(pb.solution(k * s))
                    got = np.array([f[str(k)][q][0] for q in pb.quantities])
                    mon.close(got, want, "problem-solution", f"step {k} of the shipped problem", rtol=1e-4, atol=1e-5)
                errs.append(float(f[str(n)]["error_measure"][0]))
            t, e, r = read_hdf5_file(str(path), pb.quantities, pb.solution)
            mon.require(max(float(np.max(v)) for d in e.values() for v in d.values()) < 1e-4, "reader-error", "errors reported by the reader")
            mon.count("problem_runs")
        mon.close(pb.compute_tolerance(tab.name), np.mean(errs), "tolerance", "tolerance computed from the homogeneous runs", rtol=1e-12)
        _, path = pb.get_file_path(tab.name, "adaptive")
        pb.execute(tab, ProblemConfig(IntegrationConfig(True, PredefinedFinalTime(0.2), 0.02), [integral], SimpleErrorMeasurer(), path, {"config": ErrorControllerConfig(tol=1e-5, lower_bound=1e-4)}))
        mon.require(pb.file_exists(tab.name, "adaptive"), "written", f"no file at {path}")
        with h5py.File(path, "r") as f:
            last = str(max(map(int, f)))
            mon.close(f[last]["time"][0], 0.2, "adaptive-end", "end time of the adaptive run", rtol=1e-12)
            mon.require(read_last_local_error(str(path)) == f[last]["error_measure"][0], "last-error", "last local error")
        mon.note(problem="kaps" if kaps else "pr", tableau=tab.name)
        mon.distinct("problem", kaps, tab.name, rel, root.name)
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


def run(kind, idx, rng, mon, tier):
    {"component": component, "group": group, "solution": solution, "integrate": integrate, "problem": problem}[kind](rng, mon)
