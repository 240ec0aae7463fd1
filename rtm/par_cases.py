"""Parallel cases: what each rank executes, and the judgement over all ranks."""

from __future__ import annotations

import os

import h5py
import numpy as np
import openmdao.api as om

from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.file_writer import OpenMDAOHDF5Callback

from rtm import model as M
from rtm import par
from rtm.adapt import GAVE_UP, pick_controllers
from rtm.core import Skip
from rtm.rig import AllCheckpointer, PredefinedFinalTime, Rig, checkpoint_choice, random_state, RecordingCallback


class Case:
    """Everything drawn from the random stream; identical on every rank and for the judge."""

    def __init__(self, kind, rng, size):
        self.kind, self.size = kind, size
        self.par = kind.startswith("par")
        if self.par:
            nb = int(rng.integers(2, 5))
            self.sp = par.block_spec(rng, nb, max_size=3, indep=int(rng.integers(0, 3)))
            self.param_of = {q.name: int(rng.integers(0, nb)) for q in self.sp.indeps}
        else:
            self.sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), max_size=6, indep=int(rng.integers(0, 3)))
            self.lay = par.Layout(self.sp, size)
            quants = list(self.sp.quants) + list(self.sp.indeps)
            for q in quants:
                if rng.random() < 0.65 and size > 1:
                    self.lay.split[q.name] = par.random_split(rng, q.shape[0], size)
        self.adaptive = kind.endswith("adaptive")
        self.tab, self.label = M.pick_tableau(rng, embedded=True if self.adaptive else None, p_random=0.0 if self.adaptive else 0.35)
        self.n = int(rng.integers(1, 6))
        self.h = float(rng.uniform(0.02, 0.2))
        self.jit = float(rng.choice([0.0, 0.002, 0.004]))
        self.ck = checkpoint_choice(rng, self.n)
        if self.adaptive:
            self.names, self.ctrls = pick_controllers(rng)
            self.T = None
            if rng.random() < 0.6:
                self.T = float(rng.uniform(0.05, 0.5))
                self.ck = ("all", AllCheckpointer, {})
            self.cfg = ErrorControllerConfig(tol=float(10 ** rng.uniform(-4, -1)), lower_bound=0.008, upper_bound=0.5)
        self.write = bool(rng.random() < 0.5)
        self.period = int(rng.integers(1, 4))
        self.points = [random_state(rng, self.sp) for _ in range(2)]
        self.points[1] = (self.points[0][0],) + self.points[1][1:]
        self.ops = [str(rng.choice(["run", "fwd", "rev", "rev"])) for _ in range(int(rng.integers(2, 5)))]
        self.vs = rng.normal(size=(len(self.ops), 1 + self.sp.n + self.sp.m))
        self.ws = rng.normal(size=(len(self.ops), 1 + self.sp.n))
        for x in (*self.vs, *self.ws):
            # seeds as OpenMDAO produces them: single entries, so that some ranks have nothing but zeros
            r = rng.random()
            keep = np.zeros(x.size, bool)
            keep[int(rng.integers(x.size))] = True
            x *= keep if r < 0.4 else (rng.random(x.size) < 0.3) if r < 0.55 else 1.0
        self.order = float(rng.choice([2.0, 1.0, np.inf, 0.0, 3.0, -np.inf]))
        self.norm_state = rng.normal(size=self.sp.n) * (rng.random(self.sp.n) < 0.8)
        self.excl = [q.name for q in self.sp.quants if rng.random() < 0.25]


def offsets(sp):
    return {q.name: (1 + sp.slices()[q.name].start, 1 + sp.slices()[q.name].stop) for q in sp.quants}


class Outer:
    """Outer problem of one case on one rank."""

    def __init__(self, c, comm, seed):
        self.c, self.r = c, comm.rank
        sp = c.sp
        self.jit = par.Jitter(comm.rank, seed, c.jit)
        stage = par.build_parallel_stage(sp, self.jit, c.param_of) if c.par else par.build_dist_stage(c.lay, self.jit)
        writers = [OpenMDAOHDF5Callback("out.h5", c.period)] if c.write else []
        self.log = []
        rec = RecordingCallback(self.log, "compute", hook=lambda *_: self.jit())
        extra = {"compute_callbacks": [rec] + writers}
        kw = dict(adaptive=True, controllers=c.ctrls, ctrl_cfg=c.cfg) if c.adaptive else {}
        if c.adaptive and c.T is not None:
            kw["termination"] = PredefinedFinalTime(c.points[0][0] + c.T)
        self.rig = Rig(sp, c.tab, n=c.n, h=c.h, stage=(stage, None), ckpt=c.ck[1:], setup=False, extra=extra, **kw)
        self.prob = self.rig.prob
        if c.par:
            # quantities of the parallel blocks appear as distributed variables with parts on their owners:
            # found out at setup, so the sources are created from a dry setup of the same stage problem
            probe_stage = par.build_parallel_stage(_copy_spec(sp), par.Jitter(0, 0, 0), dict(c.param_of))
            probe_stage.setup()
            probe_stage.final_setup()
            ode = OpenMDAOODE(probe_stage, [q.name for q in sp.quants], [q.name for q in sp.indeps])
            md = ode.time_integration_metadata
            self.meta = {q.name: q.array_metadata for q in md.time_integration_quantity_list + md.time_independent_input_quantity_list}
            own = probe_stage.model.get_io_metadata(iotypes=("input", "output"), metadata_keys=["tags"], get_remote=False)
            mine = set()
            for d in own.values():
                mine |= set(d["tags"])
            self.owned = {q.name: q.name in mine for q in sp.quants + sp.indeps}
        ivc = om.IndepVarComp()
        ivc.add_output("time_initial", val=0.0)
        for q in sp.quants:
            shp, d = self.local(q)
            ivc.add_output(q.name + "_initial", shape=shp, distributed=d)
        for q in sp.indeps:
            shp, d = self.local(q)
            ivc.add_output(q.name, shape=shp, distributed=d)
        self.prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        self.prob.model.set_order(["ivc", "rk"])
        self.prob.setup()
        self.prob.final_setup()

    def local(self, q):
        c = self.c
        if c.par:
            lead = q.name == c.sp.quants[0].name or c.param_of.get(q.name) == 0
            if lead:
                return tuple(q.shape), False
            every = self.owned_everywhere(q.name)
            return (tuple(q.shape) if self.owned[q.name] else (0,)), not every
        return c.lay.local_shape(q, self.r), c.lay.dist(q)

    def owned_everywhere(self, name):
        from mpi4py import MPI
        return bool(MPI.COMM_WORLD.allreduce(int(self.owned[name]), MPI.MIN))

    def part(self, q, flat):
        if self.c.par:
            shp, _ = self.local(q)
            return np.asarray(flat).reshape(q.shape) if shp != (0,) else np.zeros(0)
        return self.c.lay.local(q, self.r, flat)

    def set(self, point):
        t, y, p = point
        sp = self.c.sp
        self.prob.set_val("time_initial", t)
        for q in sp.quants:
            self.prob.set_val(q.name + "_initial", self.part(q, y[sp.slices()[q.name]]))
        for q in sp.indeps:
            self.prob.set_val(q.name, self.part(q, p[sp.slices("indeps")[q.name]]))

    def outputs(self):
        return {"time": float(self.prob.get_val("time_final")[0]),
                **{q.name: np.array(self.prob.get_val(q.name + "_final")) for q in self.c.sp.quants}}

    def product(self, mode, seed):
        sp = self.c.sp
        of = ["time_final"] + [q.name + "_final" for q in sp.quants]
        wrt = ["time_initial"] + [q.name + "_initial" for q in sp.quants] + [q.name for q in sp.indeps]
        off = offsets(sp)
        if mode == "fwd":
            s = {"time_initial": seed[:1]}
            for q in sp.quants:
                s[q.name + "_initial"] = self.part(q, seed[slice(*off[q.name])])
            for q in sp.indeps:
                s[q.name] = self.part(q, seed[1 + sp.n:][sp.slices("indeps")[q.name]])
        else:
            s = {"time_final": seed[:1]}
            for q in sp.quants:
                s[q.name + "_final"] = self.part(q, seed[slice(*off[q.name])])
        r = self.prob.compute_jacvec_product(of, wrt, mode, s)
        return {k: np.array(v) for k, v in r.items()}


def _copy_spec(sp):
    import copy
    return copy.deepcopy(sp)


def execute(kind, rng, comm, seed):
    c = Case(kind, rng, comm.size)
    if kind.endswith("norm"):
        return execute_norm(c, comm, seed)
    if comm.rank == 0 and os.path.exists("out.h5"):
        os.remove("out.h5")
    comm.barrier()
    o = Outer(c, comm, seed)
    obs = {"rank": comm.rank, "events": [], "shapes": {q.name: o.local(q) for q in c.sp.quants + c.sp.indeps}}
    for i, op in enumerate(c.ops):
        pt = c.points[i % 2 if op == "run" else 0]
        if i == 0 or op == "run":
            o.set(pt)
            ev = {"op": "run", "point": i % 2 if op == "run" else 0}
            base, abase = len(o.log), len(o.rig.actl)
            try:
                o.prob.run_model()
                ev["out"] = o.outputs()
            except GAVE_UP as e:
                ev["gave_up"] = type(e).__name__
            ev["log"] = [(e["when"], e["it"], e["t0"], e["t1"], e["hist"], e["err"], e["sugg"]) for e in o.log[base:]]
            ev["ctrl"] = [(e["err"], e["dt"], e["rem"], e["sugg"], e["acc"]) for e in o.rig.actl[abase:] if e["kind"] == "ctrl"]
            obs["events"].append(ev)
            current = ev["point"]
            if "gave_up" in ev:
                break
            if c.write:
                comm.barrier()
                if comm.rank == 0:
                    with h5py.File("out.h5", "r") as f:
                        ev["file"] = {g: {k: np.array(f[g][k]) for k in f[g]} for g in f}
                comm.barrier()
        if op in ("fwd", "rev"):
            try:
                res = o.product(op, c.vs[i] if op == "fwd" else c.ws[i])
            except GAVE_UP as e:
                obs["events"].append({"op": op, "point": current, "gave_up": type(e).__name__})
                break
            obs["events"].append({"op": op, "i": i, "point": current, "res": res, "after": o.outputs()})
    obs["jitter"] = o.jit.calls
    return obs


def execute_norm(c, comm, seed):
    stage = par.build_parallel_stage(c.sp, par.Jitter(0, 0, 0), c.param_of) if c.par else par.build_dist_stage(c.lay, par.Jitter(0, 0, 0))
    stage.setup()
    stage.final_setup()
    out = {}
    for excl in ([], c.excl):
        ode = OpenMDAOODE(stage, [q.name for q in c.sp.quants], [q.name for q in c.sp.indeps], norm_exclusions=excl, norm_order=c.order)
        st = np.zeros(ode.get_state_size())
        md = ode.time_integration_metadata
        own = {}
        for q in md.time_integration_quantity_list:
            a = q.array_metadata
            full = c.norm_state[c.sp.slices()[q.name]]
            sq = [x for x in c.sp.quants if x.name == q.name][0]
            loc = full if c.par else c.lay.local(sq, comm.rank, full).ravel()
            n = a.end_index - a.start_index
            own[q.name] = n
            st[a.start_index:a.end_index] = loc[:n] if n == loc.size or n == 0 else np.nan
        with np.errstate(all="ignore"):
            out[",".join(excl)] = float(ode.compute_state_norm(DiscretizedODEResultState(np.zeros(0), st, np.zeros(0))))
    return {"norm": out, "own": own}


# --------------------------------------------------------------------------
def judge(kind, rng, size, obs, mon):
    c = Case(kind, rng, size)
    sp = c.sp
    arr = M.tab_arrays(c.tab)
    mon.note(kind=kind, ranks=size, tableau=c.label, n=c.n, quantities=[(q.name, list(q.shape)) for q in sp.quants],
             split=getattr(getattr(c, "lay", None), "split", None), jitter=c.jit, ckpt=c.ck[0])
    if kind.endswith("norm"):
        judge_norm(c, obs, mon)
        return
    if c.par:
        par.build_parallel_stage(sp, None, c.param_of)   # restricts the parameters in the spec
    nev = {len(o["events"]) for o in obs}
    mon.require(len(nev) == 1, "rank-divergence", f"ranks performed {nev} operations")
    for k in range(nev.pop()):
        evs = [o["events"][k] for o in obs]
        gu = [e.get("gave_up") for e in evs]
        mon.require(len(set(gu)) == 1, "rank-divergence", f"only some ranks gave up: {gu}")
        if evs[0]["op"] == "run":
            for r, e in enumerate(evs):
                mon.require(len(e["log"]) == len(evs[0]["log"]) and all(_same(a, b) for a, b in zip(e["log"], evs[0]["log"])),
                            "rank-divergence", f"rank {r} saw other steps than rank 0")
                mon.require(len(e["ctrl"]) == len(evs[0]["ctrl"]) and all(_same(a, b) for a, b in zip(e["ctrl"], evs[0]["ctrl"])),
                            "rank-divergence", f"rank {r} took other step size decisions than rank 0")
                mon.count("rank_logs")
        if gu[0]:
            mon.count("gave_up")
            return
        pt = c.points[evs[0]["point"]]
        if evs[0]["op"] == "run":
            hs = [e[3] - e[2] for e in evs[0]["log"] if e[0] == "after"]
            if c.adaptive:
                hs = [x[1] for x in evs[0]["ctrl"] if x[4]]
            if c.adaptive and c.T is not None:
                end = pt[0] + c.T
                mon.require(abs(evs[0]["out"]["time"] - end) <= 1e-12 * (1 + abs(end)), "end-time", f"run ends at {evs[0]['out']['time']} instead of {end}")
            else:
                mon.require(len(hs) == c.n, "step-count", f"{len(hs)} steps instead of {c.n}")
            steps, t, y = M.ref_run(sp, arr, *pt, hs)
            judge_values(c, mon, sp, [e["out"] for e in evs], t, y, "result")
            judge_errors(c, mon, sp, arr, pt, steps, evs[0])
            if c.write:
                judge_file(c, mon, sp, steps, t, evs[0])
        else:
            J = M.ref_jacobian(sp, arr, steps, pt[2])
            i = evs[0]["i"]
            sc = float(np.max(np.abs(J))) + 1
            for r, e in enumerate(evs):
                if evs[0]["op"] == "fwd":
                    want = J @ c.vs[i]
                    names = [("time_final", None)] + [(q.name + "_final", q) for q in sp.quants]
                    off = offsets(sp)
                    for nm, q in names:
                        w = want[:1] if q is None else local_part(c, obs[r], q, want[slice(*off[q.name])])
                        mon.close(e["res"][nm], w, "fwd", f"forward product {nm} on rank {r}", rtol=1e-8, atol=1e-9 * sc)
                else:
                    want = J.T @ c.ws[i]
                    off = offsets(sp)
                    mon.close(e["res"]["time_initial"], want[:1], "rev", f"reverse product time_initial on rank {r}", rtol=1e-8, atol=1e-8 * sc)
                    for q in sp.quants:
                        mon.close(e["res"][q.name + "_initial"], local_part(c, obs[r], q, want[slice(*off[q.name])]), "rev",
                                  f"reverse product {q.name}_initial on rank {r}", rtol=1e-8, atol=1e-8 * sc)
                    for q in sp.indeps:
                        mon.close(e["res"][q.name], local_part(c, obs[r], q, want[1 + sp.n:][sp.slices("indeps")[q.name]]), "rev",
                                  f"reverse product {q.name} on rank {r}", rtol=1e-8, atol=1e-8 * sc)
                mon.count("products")
            judge_values(c, mon, sp, [e["after"] for e in evs], t, y, "result after a product")
    mon.count("jitter_points", sum(o["jitter"] for o in obs))
    mon.distinct(kind, size, c.label, tuple(e["op"] for e in obs[0]["events"]),
                 tuple(sorted((k, tuple(v)) for k, v in getattr(getattr(c, "lay", None), "split", {}).items())))


def local_part(c, ob, q, flat):
    """The rank's part of a flat quantity, in the shape the rank declared."""
    if c.par:
        return np.zeros(0) if ob["shapes"][q.name][0] == (0,) else np.asarray(flat).reshape(q.shape)
    return c.lay.local(q, ob["rank"], flat) if "rank" in ob else None


def _same(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y)) if not isinstance(x, str) else x == y for x, y in zip(a, b))


def judge_values(c, mon, sp, outs, t, y, what):
    for r, o in enumerate(outs):
        mon.require(o["time"] == outs[0]["time"], "rank-divergence", f"{what}: final time differs on rank {r}")
        mon.close(o["time"], t, "time", f"{what}: final time on rank {r}", rtol=1e-12, atol=1e-12)
    sc = max(1.0, float(np.max(np.abs(y), initial=0.0)))
    for q in sp.quants:
        full = y[sp.slices()[q.name]]
        if c.par:
            seen = 0
            for r, o in enumerate(outs):
                if o[q.name].size:
                    seen += 1
                    mon.close(o[q.name].ravel(), full, "value", f"{what}: {q.name} on rank {r}", rtol=1e-9, atol=1e-10 * sc)
            mon.require(seen >= 1, "lost", f"{what}: no rank holds {q.name}")
        else:
            for r, o in enumerate(outs):
                mon.require(o[q.name].shape == c.lay.local_shape(q, r), "shape", f"{what}: {q.name} on rank {r} has shape {o[q.name].shape}")
                mon.close(o[q.name], c.lay.local(q, r, full), "value", f"{what}: {q.name} on rank {r}", rtol=1e-9, atol=1e-10 * sc)
        mon.count("values")


def judge_errors(c, mon, sp, arr, pt, steps, ev):
    """Error measures are norms over all ranks' shares."""
    if not c.tab.is_embedded:
        return
    aft = [e for e in ev["log"] if e[0] == "after"]
    for k, (st, e) in enumerate(zip(steps, aft)):
        want = float(np.linalg.norm(st.y1 - st.emb))
        mon.close(e[5][0], want, "error-measure", f"error measure of step {k + 1}", rtol=1e-6, atol=1e-12 * max(1.0, float(np.max(np.abs(st.y1)))))
        mon.count("error_measures")


def judge_file(c, mon, sp, steps, t, ev):
    f = ev["file"]
    want = {"0": (steps[0].t, steps[0].y0)} if steps else {}
    for k, st in enumerate(steps, start=1):
        if k % c.period == 0:
            want[str(k)] = (st.t + st.h, st.y1)
    mon.require(set(f) == set(want), "file-steps", f"file has steps {sorted(f)}, expected {sorted(want)}")
    for g, (tt, y) in want.items():
        mon.close(f[g]["time"], [tt], "file-time", f"time of written step {g}", rtol=1e-12, atol=1e-12)
        for q in sp.quants:
            v = y[sp.slices()[q.name]]
            mon.close(f[g][q.name].ravel(), v, "file-value", f"written {q.name} of step {g}", rtol=1e-9, atol=1e-10 * max(1.0, float(np.max(np.abs(y)))))
            mon.require(f[g][q.name].shape == tuple(q.shape), "file-shape", f"written {q.name} has shape {f[g][q.name].shape}, expected {q.shape}")
        mon.count("written_steps")


def judge_norm(c, obs, mon):
    for excl in ([], c.excl):
        keep = np.concatenate([c.norm_state[c.sp.slices()[q.name]] for q in c.sp.quants if q.name not in excl] or [np.zeros(0)])
        if keep.size == 0:
            continue
        if c.order == -np.inf:
            want = float(np.min(np.abs(keep)))
        else:
            want = float(np.linalg.norm(keep, c.order))
        for r, o in enumerate(obs):
            v = o["norm"][",".join(excl)]
            mon.require(v == obs[0]["norm"][",".join(excl)], "rank-divergence", f"norm on rank {r} is {v}, on rank 0 {obs[0]['norm'][','.join(excl)]}")
            mon.close(v, want, "norm", f"norm of order {c.order} on rank {r} (owners {[o['own'] for o in obs]})", rtol=1e-11, atol=1e-13)
        mon.count("norms")
    mon.distinct(c.kind, len(obs), c.order, len(c.excl))
