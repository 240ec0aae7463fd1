"""C06: results depend on the current inputs only, never on the history of calls or failures."""

import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h0_211, integral, pid, ppid

from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.errors import InnerErrorControllerError, OuterErrorControllerError

from rtm import model as M
from rtm.core import Budget, HarnessError, Planned, Skip, Violation
from rtm.rig import AllCheckpointer, NoCheckpointer, PyrevolveCheckpointer, Rig, checkpoint_choice, random_state

KINDS = {"fixed": (160, 2000), "adaptive": (80, 1000), "coupled": (96, 800), "near": (60, 700), "repeat": (60, 600)}
MIN_EVENTS = {"ops": 1200, "ops_after_failure": 150, "injected": 120, "rev_with_foreign_checkpoints": 40, "changed_time_only": 6, "hardly_changed": 100, "outputs_overwritten": 40, "setups": 60, "unrun_after_setup": 15, "same_seed_again": 80, "scaled_seeds": 150, "same_inputs_again": 80, "repeated_ops": 300, "values_kept": 400}
RULE = ("random histories of 6-16 operations (run, residual evaluation, forward product, reverse product, input change without a run, setup anew, partly with another step size) over a pool of "
        "input points that differ in all inputs, only in the initial time, only in parameters or only in one initial value; in about a third of the operations "
        "a fault is injected in the user's stage model (exception in the k-th evaluation or linearization, NaN in one evaluation) or in a user "
        "callback; in some runs the integrator's outputs are overwritten by the user beforehand; seeds of very different magnitude (1e-9..1e6), coupled stage problems with Krylov solvers that start from what the linear vectors contain; kind near: runs followed by derivatives at inputs that differ by 1e-7..3e-5 in a "
        "single entry; every operation without fault is compared with a freshly built integrator that performs just this operation, "
        "and derivatives leave the values of the model as they are; distinct = (previous op, fault, op, checkpointing, relation of inputs)")
CPU_LIMIT = 200
ASSUMPTIONS = ["a reverse product directly after a silently NaN-poisoned run is not judged (its linearization point is the poisoned run)"]


def points(rng, sp):
    a = random_state(rng, sp)
    pts = [("base", a), ("other", random_state(rng, sp)), ("time", (a[0] + float(rng.uniform(0.3, 1.5)), a[1], a[2]))]
    y = a[1].copy()
    y[int(rng.integers(sp.n))] += 0.7
    pts.append(("state", (a[0], y, a[2])))
    if sp.m:
        p = a[2].copy()
        p[int(rng.integers(sp.m))] -= 0.6
        pts.append(("param", (a[0], a[1], p)))
    # hardly different from the base point, but different
    e = float(10 ** rng.uniform(-7, -4))
    which = int(rng.integers(3 if sp.m else 2))
    near = [a[0], a[1].copy(), a[2].copy()]
    if which == 0:
        near[0] += e
    else:
        near[which][int(rng.integers(near[which].size))] += e
    pts.append(("near", tuple(near)))
    return pts


def near_case(rng, mon):
    """Derivatives at inputs that hardly differ from those of the last run belong to the new inputs."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2, time=True)
    n, h = int(rng.integers(2, 7)), float(rng.uniform(0.1, 0.3))
    tab, label = M.pick_tableau(rng)
    ck = checkpoint_choice(rng, n)
    mk = lambda: Rig(sp, tab, n=n, h=h, arch="implicit", ckpt=ck[1:])
    a = random_state(rng, sp)
    rig = mk()
    mon.note(kind="near", tableau=label, ckpt=ck[0], steps=n)
    for _ in range(3):
        rig.run(*a)
        which = int(rng.integers(3 if sp.m else 2))
        e = float(10 ** rng.uniform(-7, -4.5)) * float(rng.choice([-1, 1]))
        near = [a[0], a[1].copy(), a[2].copy()]
        if which == 0:
            near[0] += e
        else:
            near[which][int(rng.integers(near[which].size))] += e
        rig.set_inputs(*near)
        rig.prob.model._transfer("nonlinear", "fwd")
        mode = "rev" if rng.random() < 0.8 else "fwd"
        vec = rng.normal(size=1 + sp.n + (sp.m if mode == "fwd" else 0))
        got = getattr(rig, mode)(vec)
        other = mk()
        other.run(*near)
        want = getattr(other, mode)(vec)
        mon.close(got, want, mode + "-near", f"{mode} product at inputs that differ from the last run's by {e:.1e} in "
                  f"{['the initial time', 'an initial value', 'a parameter'][which]} ({ck[0]})", rtol=1e-11, atol=1e-13,
                  scale=max(1.0, float(np.max(np.abs(want)))))
        mon.count("hardly_changed")
        mon.distinct("near", mode, which, ck[0].split(":")[0])
        a = tuple(near) if rng.random() < 0.5 else a


def repeat_case(rng, mon):
    """The same operations again and again at unchanged inputs."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2)
    n, h = int(rng.integers(1, 7)), float(rng.uniform(0.05, 0.3))
    adaptive = bool(rng.random() < 0.4)
    tab, label = M.pick_tableau(rng, embedded=True if adaptive else None, p_random=0.0 if adaptive else 0.5)
    ck = checkpoint_choice(rng, n)
    kw = dict(n=n, h=h, arch=str(rng.choice(["explicit", "implicit"])), ckpt=ck[1:])
    if adaptive:
        kw.update(adaptive=True, controllers=[integral], ctrl_cfg=ErrorControllerConfig(tol=float(10 ** rng.uniform(-5, -2)), lower_bound=1e-3))
    pts = [random_state(rng, sp)]
    second = [pts[0][0], pts[0][1], pts[0][2]]
    for i in rng.permutation(3)[:1 if rng.random() < 0.7 else 3]:
        second[i] = second[i] + 0.1 * (rng.normal() if i == 0 else rng.normal(size=second[i].size))
    pts.append(tuple(second))
    rig, other = Rig(sp, tab, **kw), None
    v, w = rng.normal(size=1 + sp.n + sp.m), rng.normal(size=1 + sp.n)
    mon.note(kind="repeat", tableau=label, ckpt=ck[0], steps=n, adaptive=adaptive)
    want = []
    for a in pts:
        r = {}
        for op in ("fwd", "rev"):
            other = Rig(sp, tab, **kw)
            r["run"] = np.concatenate([np.ravel(x) for x in other.run(*a)])
            r[op] = other.fwd(v) if op == "fwd" else other.rev(w)
        want.append(r)
    k, hist = 0, []
    for step in range(int(rng.integers(6, 12))):
        op = "run" if not step else str(rng.choice(["run", "run", "fwd", "rev", "rev"]))
        if op == "run" and rng.random() < 0.35:
            k = 1 - k
        hist.append(op + str(k))
        mon.note(history=hist)
        if op == "run":
            got = np.concatenate([np.ravel(x) for x in rig.run(*pts[k])])
        else:
            got = rig.fwd(v) if op == "fwd" else rig.rev(w)
        mon.close(got, want[k][op], op + "-repeat", f"{op} after {hist} ({ck[0]})", rtol=1e-10, atol=1e-12, scale=max(1.0, float(np.max(np.abs(want[k][op])))))
        mon.count("repeated_ops")
        mon.distinct("repeat", tuple(hist[-3:]), ck[0].split(":")[0], adaptive)


def run(kind, idx, rng, mon, tier):
    if kind == "near":
        return near_case(rng, mon)
    if kind == "repeat":
        return repeat_case(rng, mon)
    sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), max_size=2, time=True if rng.random() < 0.8 else None)
    arch = str(rng.choice(["explicit", "implicit"])) if kind != "coupled" else str(rng.choice(["coupled", "coupled", "nested"]))
    n, h = int(rng.integers(1, 7)), float(10 ** rng.uniform(-2, -0.8))
    pts = points(rng, sp)
    kw = dict(h=h, arch=arch)
    if arch == "coupled":
        # iterative linear solvers start from what the linear vectors contain
        kw["probe_kw"] = {"linear": ("scipy", "petsc", "petsc-gs", "petsc-gs")[int(rng.integers(4))]}
    if kind == "adaptive":
        tab, label = M.pick_tableau(rng, embedded=True, p_random=0.0)
        tol = float(10 ** rng.uniform(-7 if tab.min_p_order() > 2 else -4.5, -3))
        ctrls = [[integral], [pid], [ppid], [h0_211], [integral, pid], [ppid, integral]][int(rng.integers(6))]
        kw.update(adaptive=True, controllers=ctrls, ctrl_cfg=ErrorControllerConfig(tol=tol, lower_bound=2e-3, upper_bound=0.6, max_iter=int(rng.integers(1, 4))))
        if rng.random() < 0.5:
            kw["T"] = max(q[1][0] for q in pts) + float(rng.uniform(0.2, 0.6))
            ck = ("all", AllCheckpointer, {})
        else:
            kw["n"] = n
            ck = checkpoint_choice(rng, n)
    else:
        tab, label = M.pick_tableau(rng)
        kw["n"] = n
        ck = checkpoint_choice(rng, n)
    with_rev = True
    if rng.random() < 0.1:
        ck, with_rev = ("none", NoCheckpointer, {}), False
    sizes = [h, h * float(rng.uniform(0.5, 0.9))]    # a setup may come with another step size
    var = 0

    def mk():
        return Rig(sp, tab, ckpt=ck[1:], **dict(kw, h=sizes[var]))
    rig = mk()
    tol = dict(rtol=1e-10, atol=1e-12) if arch in ("explicit", "implicit") else dict(rtol=1e-7, atol=1e-9)
    mon.note(kind=kind, tableau=label, arch=arch, ckpt=ck[0], steps=n, points=[q[0] for q in pts])
    # reference results of single operations of fresh integrators, on demand
    cache = {}

    def fresh_run(k):
        if ("run", k, var) not in cache:
            cache["run", k, var] = mk().run(*pts[k][1])
        return cache["run", k, var]

    def fresh_prod(k, mode, vec):
        r = mk()
        r.run(*pts[k][1])
        return r.fwd(vec) if mode == "fwd" else r.rev(vec)

    good = []
    for q in pts:
        try:
            r = mk()
            r.run(*q[1])
            if len(r.log) > 500:
                mon.count("too_long")       # histories of short runs are as good
                continue
            good.append(q)
        except (OuterErrorControllerError, InnerErrorControllerError):
            mon.count("controller_gave_up")     # a loud, documented outcome of a controller chain for these inputs
    pts = good
    if len(pts) < 2:
        raise Skip("the controller gives up or takes hundreds of steps for most inputs")
    cur = None            # index of the point whose values are in the integrator's inputs
    linpt = None          # point of the last completed run (what checkpoints may belong to)
    tainted = False
    prev = ("start", None)
    failed_before = False
    since_setup = False
    vecs = {}
    ops = []

    def draw(mode, size):
        """A seed, often the one used before."""
        if mode in vecs and rng.random() < 0.4:
            mon.count("same_seed_again")
        else:
            vecs[mode] = rng.normal(size=size)
            if rng.random() < (0.35 if arch != "coupled" else 0.8):
                # products are linear: much smaller or larger seeds than before are as good
                vecs[mode] *= 10.0 ** rng.uniform(-9, 6)
                mon.count("scaled_seeds")
        return vecs[mode].copy()
    for step in range(int(rng.integers(6, 17))):
        choices = ["run", "run", "fwd", "rev", "rev", "rev", "change", "change", "apply", "setup"] if cur is not None else ["run"]
        op = str(rng.choice(choices))
        if op == "rev" and not with_rev:
            op = "fwd"
        fault = None
        if rng.random() < 0.35:
            fault = str(rng.choice(["eval", "eval", "nan", "callback"] if op != "rev" else ["lin", "lin", "eval", "callback"]))
        if fault == "lin" and arch != "explicit":
            fault = "callback"
        if fault == "nan" and arch != "explicit":
            fault = "eval"
        if op in ("change", "setup"):
            fault = None
        pr = rig.probe
        stages = rig.arr[1].size
        lim = max(1, n * stages)
        pr.fail_at = pr.fail_rev_at = pr.nan_at = None
        if fault == "eval":
            pr.fail_at = pr.evals + int(rng.integers(1, lim + 1))
        elif fault == "nan":
            pr.nan_at = pr.evals + int(rng.integers(1, lim + 1))
        elif fault == "lin":
            pr.fail_rev_at = pr.rev_calls + int(rng.integers(1, lim + 1))
        elif fault == "callback":
            target = {"count": int(rng.integers(1, 2 * n + 1))}

            def hook(ev, st, target=target):
                target["count"] -= 1
                if target["count"] == 0:
                    raise Planned("injected callback failure")
            for c in rig.cbs:
                c.hook = hook
        if op in ("run", "change", "apply"):
            k = int(rng.integers(len(pts)))
            if rng.random() < 0.4 and cur is not None and pts[0][0] == "base":
                k = 0 if cur else min(len(pts) - 1, int(rng.integers(1, 4)))
            if rng.random() < 0.25 and cur is not None and pts[0][0] == "base" and pts[-1][0] == "near":
                k = 0 if cur == len(pts) - 1 else len(pts) - 1
            if op == "change" and linpt is not None and rng.random() < 0.3:
                twin = {"base": "time", "time": "base"}.get(pts[linpt][0])
                k = next((i for i, q in enumerate(pts) if q[0] == twin), k)
            if cur is not None and op != "change" and rng.random() < 0.35:
                k = cur
                mon.count("same_inputs_again")
        elif op == "setup":
            k = cur if rng.random() < 0.6 else int(rng.integers(len(pts)))
        else:
            k = cur
        for lg in (rig.log, rig.actl, rig.trace):
            lg.clear()      # the caps of the logs are meant for single operations
        ops.append((op, fault, pts[k][0]))
        mon.note(history=ops)
        rel = None if linpt is None else ("same" if linpt == k else f"{pts[linpt][0]}->{pts[k][0]}")
        ok, fired = False, False
        vec = None
        values = rig.prob.model._outputs.asarray(copy=True)
        try:
            if op == "run":
                if rng.random() < 0.2:
                    # what the user writes into the outputs is just a value to be overwritten
                    for name in ["time_final"] + [q.name + "_final" for q in sp.quants]:
                        rig.prob.set_val(rig.pre + name, float(rng.normal()))
                    mon.count("outputs_overwritten")
                got = rig.run(*pts[k][1])
                cur = k
            elif op == "apply":
                rig.set_inputs(*pts[k][1])
                cur = k
                rig.prob.model.run_apply_nonlinear()
                got = None
            elif op == "setup":
                if kind != "adaptive" and rng.random() < 0.4:
                    var = 1 - var
                    rig.config = IntegrationConfig(use_adaptive_time_stepping=False, termination_criterion=rig.term, initial_step_size=sizes[var])
                    rig.integrator.options["integration_config"] = rig.config
                rig.prob.setup(mode=str(rng.choice(["auto", "rev"])))
                rig.prob.final_setup()
                rig.set_inputs(*pts[k][1])
                rig.prob.model._transfer("nonlinear", "fwd")
                cur, linpt, tainted, since_setup = k, None, False, True
                mon.count("setups")
            elif op == "change":
                rig.set_inputs(*pts[k][1])
                rig.prob.model._transfer("nonlinear", "fwd")
                cur = k
            elif op == "fwd":
                vec = draw("fwd", 1 + sp.n + sp.m)
                got = rig.fwd(vec)
            else:
                vec = draw("rev", 1 + sp.n)
                got = rig.rev(vec)
            ok = True
        except (Violation, HarnessError, Budget):
            raise
        except Exception as e:  # pylint: disable=broad-except
            if fault is None:
                raise
            fired = True
            mon.count("injected")
            if op in ("run", "apply"):
                cur = k
        finally:
            fired = fired or (fault == "nan" and pr.evals >= (pr.nan_at or 10 ** 9))
            pr.fail_at = pr.fail_rev_at = pr.nan_at = None
            for c in rig.cbs:
                c.hook = None
        if op in ("run", "apply"):
            since_setup = False
            tainted = fired
            linpt = k if ok else None
        if op == "rev" and linpt is not None and linpt != k:
            mon.count("rev_with_foreign_checkpoints")
            if "near" in (pts[k][0], pts[linpt][0]) and "base" in (pts[k][0], pts[linpt][0]):
                mon.count("hardly_changed")
            if pts[k][0] == "time" and pts[linpt][0] == "base" or pts[k][0] == "base" and pts[linpt][0] == "time":
                mon.count("changed_time_only")
        mon.count("ops")
        if op in ("fwd", "rev"):
            mon.require(np.array_equal(values, rig.prob.model._outputs.asarray(), equal_nan=True), "outputs-kept",
                        f"derivatives ({op} at '{pts[k][0]}' after {prev}) altered the values of the model", got=rig.prob.model._outputs.asarray(), want=values)
            mon.count("values_kept")
        if ok and not fired and not (op == "rev" and tainted) and op not in ("change", "apply", "setup"):
            if failed_before:
                mon.count("ops_after_failure")
            where = f"{op} at '{pts[k][0]}' after {prev} ({ck[0]}, {kind})"
            if op == "run":
                want = fresh_run(k)
                mon.close(got[0], want[0], "run-history", f"time of {where}", **tol)
                mon.close(got[1], want[1], "run-history", f"values of {where}", **tol, scale=max(1.0, float(np.max(np.abs(want[1])))))
            else:
                if since_setup:
                    mon.count("unrun_after_setup")
                unit = float(np.max(np.abs(vec)))       # products in units of the seed
                want = fresh_prod(k, op, vec) / unit
                mon.close(got / unit, want, op + "-history", where, **tol, scale=max(1.0, float(np.max(np.abs(want)))))
            mon.distinct(prev, op, fault, ck[0].split(":")[0], rel)
        if op == "rev":
            linpt = linpt if not ok else (k if linpt is None or linpt != k else linpt)
            if ok:
                linpt, tainted = k, tainted and linpt == k
        failed_before = failed_before or fired
        prev = (op, fault if fired else None)
