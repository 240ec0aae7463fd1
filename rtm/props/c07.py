"""C07: a step is accepted only if it meets the tolerance; rejected attempts leave no trace."""

import numpy as np

from rkopenmdao import error_controllers as EC
from rkopenmdao.error_controller import ErrorControllerConfig

from rtm import model as M
from rtm.adapt import GAVE_UP, PLAIN, Setup, pick_controllers, split_steps

KINDS = {"run": (1000, 5000), "direct": (400, 2000)}
MIN_EVENTS = {"attempts": 1500, "rejected": 150, "accepted_at_lower_bound": 20, "direct_calls": 2000, "fwd_attempts": 300}
RULE = ("adaptive integrations of hostile random ODEs x shipped embedded tableaux x all shipped controllers and chains x tolerances 1e-7..1e-2, bounds, initial step "
        "sizes, final time or step count; each attempt recorded by delegating controller and measurer is matched with the reference step from the last accepted "
        "state; plus controllers driven directly at the boundary (error one ulp around the tolerance, step sizes around the bound); distinct = "
        "(controllers, tableau, outcome pattern of a step)")
ASSUMPTIONS = ["the code's absolute slack of 1e-10 on the lower step size bound is taken as part of 'at the bound'"]
SLACK = 2e-10


def check_rule(mon, tol, lb, err, dt, acc, where):
    if err <= tol:
        mon.require(acc, "accept-within-tolerance", f"{where}: error {err!r} <= tol {tol!r} but the step is repeated")
    elif dt > lb + SLACK:
        mon.require(not acc, "reject-above-tolerance", f"{where}: error {err!r} > tol {tol!r} accepted with step {dt!r}, lower bound {lb!r}")


def check_list(mon, s, which, out):
    rig, sp = s.rig, s.sp
    fi = rig.flat_index()
    steps = split_steps(rig.trace, which)
    y, t, hist, errs, sugg = s.y0, s.t0, None, None, None
    for k, (bef, evs, aft) in enumerate(steps):
        meas, ctrl, lastm = [], [], None
        for e in evs:
            if e["kind"] == "meas":
                lastm = e
            else:
                ctrl.append(e)
                meas.append(lastm)
        where = f"{which} step {k + 1}"
        mon.require(len(ctrl) >= 1 and all(m is not None for m in meas), "measured", f"{where}: every attempt is measured and judged")
        # only the attempt judged last is in the trajectory
        for j, c in enumerate(ctrl):
            mon.count("attempts")
            if which == "fwd":
                mon.count("fwd_attempts")
            check_rule(mon, s.tol, s.cfg.lower_bound, c["err"], c["dt"], c["acc"], f"{where} attempt {j + 1}")
            last = j == len(ctrl) - 1
            if not last:
                mon.require(not c["acc"], "accepted-then-repeated", f"{where}: accepted attempt {j + 1} of {len(ctrl)} was repeated")
                mon.count("rejected")
                mon.close(ctrl[j + 1]["dt"], c["sugg"], "retry-size", f"{where}: retry uses the suggested step size", rtol=1e-13, atol=0)
            elif aft is not None:
                mon.require(c["acc"], "rejected-in-trajectory", f"{where}: a rejected attempt became part of the trajectory")
                if c["err"] > s.tol:
                    mon.count("accepted_at_lower_bound")
            ref = M.ref_step(sp, rig.arr, t, y, s.p, c["dt"])
            sc = float(max(np.max(np.abs(ref.ks)), np.max(np.abs(ref.y1)), 1.0))
            m = meas[j]
            mon.close(m["y"][fi], ref.y1, "attempt-state", f"{where} attempt {j + 1} starts from the last accepted state", rtol=1e-8, atol=1e-10, scale=sc)
            mon.close(m["est"][fi], ref.y1 - ref.emb, "attempt-estimate", f"{where} attempt {j + 1}: error estimate of this very attempt",
                      rtol=1e-8, atol=1e-12 * sc, scale=c["dt"] * sc)
            mon.close(c["err"], s.measure(m["est"], m["y"]), "attempt-measure", f"{where}: the controller judges the measured error", rtol=1e-12, atol=1e-300)
            if hist is not None:
                mon.require(np.array_equal(c["sh"], hist) and np.array_equal(c["eh"], errs), "history-during-attempts",
                            f"{where} attempt {j + 1}: histories unchanged by rejected attempts", got=[c["sh"], c["eh"]], want=[hist, errs])
        if sugg is not None:
            mon.close(ctrl[0]["dt"], sugg, "next-size", f"{where} starts with the size suggested by the previous accepted step", rtol=1e-13, atol=0)
        if aft is None:
            return  # the controller gave up loudly inside this step
        c, m = ctrl[-1], meas[len(ctrl) - 1]
        mon.close(aft["y1"], m["y"], "accepted-state", f"{where}: trajectory continues with the accepted attempt", rtol=0, atol=0)
        mon.close(aft["y0"][fi], y, "start-state", f"{where}: start state", rtol=1e-12, atol=1e-13)
        mon.close(aft["t1"] - aft["t0"], c["dt"], "accepted-size", f"{where}: time advances by the accepted size", rtol=1e-9, atol=1e-13)
        mon.close(aft["t0"], t, "start-time", f"{where}: starts at the previous time", rtol=1e-13, atol=1e-14)
        mon.close(aft["hist"][0], c["dt"], "history-step", f"{where}: newest history entry", rtol=1e-14, atol=0)
        mon.close(aft["err"][0], c["err"], "history-error", f"{where}: newest error entry", rtol=1e-14, atol=0)
        if hist is not None:
            mon.require(np.array_equal(aft["hist"][1:], hist[:-1]) and np.array_equal(aft["err"][1:], errs[:-1]), "history-shift",
                        f"{where}: older entries are those of the accepted steps before", got=[aft["hist"], aft["err"]], want=[hist, errs])
        y, t, hist, errs, sugg = aft["y1"][fi], aft["t1"], aft["hist"], aft["err"], c["sugg"]
        mon.distinct(s.cname, s.label, which, "".join("A" if e["acc"] else "R" for e in ctrl))
    if out is not None:
        mon.require(out[0] == t and np.array_equal(out[1], y), "result", "the result is the last accepted state")


def run(kind, idx, rng, mon, tier):
    if kind == "direct":
        return direct(idx, rng, mon)
    s = Setup(rng, arch="explicit" if idx % 4 else "implicit")
    s.note(mon)
    out = None
    try:
        out = s.rig.run(s.t0, s.y0, s.p)
    except GAVE_UP:
        mon.count("controller_gave_up")
    check_list(mon, s, "compute", out)
    if out is not None:
        s.rig.trace.clear()
        s.rig.log.clear()
        s.rig.actl.clear()
        s.rig.fwd(rng.normal(size=1 + s.sp.n + s.sp.m))
        check_list(mon, s, "fwd", None)
        mon.require(len([e for e in s.rig.log if e["when"] == "after"]) > 0, "fwd-steps", "forward mode repeats the integration")


def direct(idx, rng, mon):
    cname, facs = pick_controllers(rng, chain=None if idx % 3 else False)
    for _ in range(60):
        tol = float(10 ** rng.uniform(*((-9, 1) if rng.random() < 0.6 else (-15, 4))))
        lb = float(rng.choice([0.0, 1e-8, 1e-3, 0.1, 2.0, 10 ** rng.uniform(-7, 3)]))
        cfg = ErrorControllerConfig(tol=tol, lower_bound=lb, upper_bound=float(lb + 10 ** rng.uniform(-2, 2)),
                                    safety_factor=float(rng.uniform(0.6, 1.0)), max_iter=int(rng.integers(0, 4)))
        c = None
        p = int(rng.integers(1, 6))
        for f in facs:
            c = f(p, config=cfg, base=c)
        for _ in range(3):
            r = rng.random()
            err = (tol if r < 0.2 else float(np.nextafter(tol, np.inf)) if r < 0.4 else float(np.nextafter(tol, 0)) if r < 0.5
                   else tol * float(10 ** rng.uniform(-4, 4)) if r < 0.95 else 0.0)
            r = rng.random()
            dt = (lb if r < 0.15 else lb * 1.0001 + 1e-8 if r < 0.3 else lb * 0.5 if r < 0.4 and lb else lb + float(10 ** rng.uniform(-6, 1)))
            if dt == 0.0:
                dt = 1e-4
            try:
                st = c(error_measure=err, delta_t=dt, remaining_time=float(10 ** rng.uniform(-3, 2)) if rng.random() < 0.8 else np.inf,
                       error_history=tol * 10 ** rng.uniform(-2, 1, size=2), step_size_history=dt * 10 ** rng.uniform(-1, 1, size=2))
            except GAVE_UP:
                mon.require(err > tol and dt > lb, "gave-up", f"{cname} gave up although error {err} vs tol {tol}, step {dt} vs bound {lb}")
                mon.count("controller_gave_up")
                break
            check_rule(mon, tol, lb, err, dt, bool(st.acceptance), cname)
            mon.count("direct_calls")
            mon.distinct("direct", cname, bool(st.acceptance), err <= tol, dt <= lb)
    mon.note(controllers=cname)
