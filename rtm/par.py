"""Distributed realisations of the reference ODE family, for runs under mpirun.

Every rank holds the whole Spec; the ODE's quantities and parameters are either
duplicated on every rank, split over the ranks (some parts may be empty), or live on the
ranks that own their component inside a ParallelGroup.
"""

from __future__ import annotations

import time

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent

from rtm import model as M


class Layout:
    """How one Spec is spread over ``size`` ranks."""

    def __init__(self, sp, size):
        self.sp, self.size = sp, size
        self.split = {}    # name -> list of leading-axis lengths per rank

    def rows(self, q, rank):
        return self.split[q.name][rank] if q.name in self.split else q.shape[0]

    def local_shape(self, q, rank):
        return (self.rows(q, rank),) + tuple(q.shape[1:]) if q.name in self.split else tuple(q.shape)

    def local_range(self, q, rank):
        """Flat range of the rank's part inside the quantity."""
        if q.name not in self.split:
            return 0, q.size
        rest = int(np.prod(q.shape[1:]))
        s = self.split[q.name]
        o = sum(s[:rank]) * rest
        return o, o + s[rank] * rest

    def dist(self, q):
        return q.name in self.split

    def local(self, q, rank, flat):
        a, b = self.local_range(q, rank)
        return np.asarray(flat)[a:b].reshape(self.local_shape(q, rank))


def random_split(rng, n, size):
    """n rows over the ranks: balanced, random, or everything on few ranks."""
    r = rng.random()
    if r < 0.3:
        s = [n // size + (1 if i < n % size else 0) for i in range(size)]
    elif r < 0.7:
        cuts = np.sort(rng.integers(0, n + 1, size=size - 1))
        s = np.diff(np.concatenate([[0], cuts, [n]])).tolist()
    else:
        s = [0] * size
        s[int(rng.integers(0, size))] = n
    return [int(x) for x in s]


class Jitter:
    """Rank dependent delays: perturbs the relative timing of the ranks."""

    def __init__(self, rank, seed, amount):
        self.rng = np.random.default_rng([seed, rank, 77])
        self.amount = amount
        self.calls = 0

    def __call__(self):
        self.calls += 1
        if self.amount and self.rng.random() < 0.15:
            time.sleep(self.amount * self.rng.random())


class DistMono(ExplicitUnsteadyComponent):
    """Whole stage in one component with distributed and duplicated variables."""

    def initialize(self):
        self.options.declare("layout")
        self.options.declare("jitter")

    def setup(self):
        lay = self.options["layout"]
        sp, r = lay.sp, self.comm.rank
        if sp.uses_time:
            self.add_input("time", val=0.0, tags=["time_variable"])
        for q in sp.quants:
            shp, d = lay.local_shape(q, r), lay.dist(q)
            if q.has_input:
                self.add_input(f"{q.name}_old", shape=shp, distributed=d, tags=[q.name, "step_input_var"])
                self.add_input(f"{q.name}_acc", shape=shp, distributed=d, tags=[q.name, "accumulated_stage_var"])
            self.add_output(f"{q.name}_k", shape=shp, distributed=d, tags=[q.name, "stage_output_var"])
        for q in sp.indeps:
            self.add_input(q.name, shape=lay.local_shape(q, r), distributed=lay.dist(q), tags=[q.name, "time_independent_input_var"])

    def _glob(self, q, loc):
        lay = self.options["layout"]
        if not lay.dist(q):
            return np.ravel(loc)
        return np.concatenate([np.ravel(x) for x in self.comm.allgather(np.array(loc))])

    def _gather(self, vec):
        sp = self.options["layout"].sp
        old, acc, p = np.zeros(sp.n), np.zeros(sp.n), np.zeros(sp.m)
        for q in sp.quants:
            if q.has_input:
                s = sp.slices()[q.name]
                old[s] = self._glob(q, vec[f"{q.name}_old"]) if f"{q.name}_old" in vec else 0.0
                acc[s] = self._glob(q, vec[f"{q.name}_acc"]) if f"{q.name}_acc" in vec else 0.0
        for q in sp.indeps:
            p[sp.slices("indeps")[q.name]] = self._glob(q, vec[q.name]) if q.name in vec else 0.0
        t = float(vec["time"][0]) if sp.uses_time and "time" in vec else 0.0
        return t, old, acc, p

    def _point(self, inputs):
        sp = self.options["layout"].sp
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, old, acc, p = self._gather(inputs)
        base = sp.mask() * (old + h * acc)
        k = sp.solve_stage(t, base, p, h * a)
        return h, a, t, p, k, base + h * a * k

    def compute(self, inputs, outputs):
        lay = self.options["layout"]
        self.options["jitter"]()
        *_, k, _ = self._point(inputs)
        self.options["jitter"]()
        for q in lay.sp.quants:
            outputs[f"{q.name}_k"] = lay.local(q, self.comm.rank, k[lay.sp.slices()[q.name]])

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        lay = self.options["layout"]
        sp, r = lay.sp, self.comm.rank
        self.options["jitter"]()
        h, a, t, p, k, y = self._point(inputs)
        jt, jy, jp = sp.jac(t, y, p)
        S = np.eye(sp.n) - h * a * jy
        if mode == "fwd":
            dt, dold, dacc, dp = self._gather(d_inputs)
            dk = np.linalg.solve(S, jt * dt + jy @ (sp.mask() * (dold + h * dacc)) + jp @ dp)
            for q in sp.quants:
                if f"{q.name}_k" in d_outputs:
                    d_outputs[f"{q.name}_k"] += lay.local(q, r, dk[sp.slices()[q.name]])
            return
        # Cotangents: parts of distributed outputs are gathered, duplicated outputs carry the
        # full cotangent on every rank (POEM 075).
        w = np.zeros(sp.n)
        for q in sp.quants:
            if f"{q.name}_k" in d_outputs:
                w[sp.slices()[q.name]] = self._glob(q, d_outputs[f"{q.name}_k"])
        v = np.linalg.solve(S.T, w)
        g = sp.mask() * (jy.T @ v)
        gp, gt = jp.T @ v, float(jt @ v)
        for q in sp.quants:
            s = sp.slices()[q.name]
            if f"{q.name}_old" in d_inputs:
                d_inputs[f"{q.name}_old"] += lay.local(q, r, g[s])
            if f"{q.name}_acc" in d_inputs:
                d_inputs[f"{q.name}_acc"] += lay.local(q, r, h * g[s])
        for q in sp.indeps:
            if q.name in d_inputs:
                d_inputs[q.name] += lay.local(q, r, gp[sp.slices("indeps")[q.name]])
        if "time" in d_inputs:
            d_inputs["time"] += gt


def build_dist_stage(lay, jitter):
    """Inner problem with a DistMono and independent sources for its distributed inputs."""
    import mpi4py.MPI as MPI
    r = MPI.COMM_WORLD.rank
    prob = om.Problem()
    ivc = om.IndepVarComp()
    ivc.add_output("unused", val=0.0)
    for q in lay.sp.quants:
        if lay.dist(q) and q.has_input:
            for suffix in ("_old", "_acc"):
                ivc.add_output(q.name + suffix, shape=lay.local_shape(q, r), distributed=True)
    for q in lay.sp.indeps:
        if lay.dist(q):
            ivc.add_output(q.name, shape=lay.local_shape(q, r), distributed=True)
    prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    prob.model.add_subsystem("mono", DistMono(layout=lay, jitter=jitter), promotes=["*"])
    return prob


class Block(ExplicitUnsteadyComponent):
    """One block of a block lower-triangular ODE: own quantities, time, parameters and the
    stage values of the leading block."""

    def initialize(self):
        self.options.declare("sp")          # full spec
        self.options.declare("own")         # names of own quantities
        self.options.declare("upstream")    # names of quantities whose stage values are inputs
        self.options.declare("publish")     # publish own stage values
        self.options.declare("params")      # parameters used here
        self.options.declare("time")        # receives the time
        self.options.declare("jitter")

    def setup(self):
        o = self.options
        sp = o["sp"]
        self.qs = [q for q in sp.quants if q.name in o["own"]]
        self.up = [q for q in sp.quants if q.name in o["upstream"]]
        self.ps = [q for q in sp.indeps if q.name in o["params"]]
        if o["time"]:
            self.add_input("time", val=0.0, tags=["time_variable"])
        else:
            self.add_input("clock", val=0.0)
        for q in self.qs:
            self.add_input(f"{q.name}_old", shape=q.shape, tags=[q.name, "step_input_var"])
            self.add_input(f"{q.name}_acc", shape=q.shape, tags=[q.name, "accumulated_stage_var"])
            self.add_output(f"{q.name}_k", shape=q.shape, tags=[q.name, "stage_output_var"])
            if o["publish"]:
                self.add_output(f"{q.name}_s", shape=q.shape)
        for q in self.up:
            self.add_input(f"{q.name}_s", shape=q.shape)
        for q in self.ps:
            self.add_input(q.name, shape=q.shape, tags=[q.name, "time_independent_input_var"])
        if o["publish"]:
            self.add_output("clock_out", val=0.0)
        sl = sp.slices()
        self.own = np.concatenate([np.arange(sl[q.name].start, sl[q.name].stop) for q in self.qs]).astype(int)

    def _vec(self, vec, names, n):
        out, o = np.zeros(n), 0
        return out, o

    def _read(self, vec):
        sp = self.options["sp"]
        sl, psl = sp.slices(), sp.slices("indeps")
        y, acc, p = np.zeros(sp.n), np.zeros(sp.n), np.zeros(sp.m)
        for q in self.qs:
            y[sl[q.name]] = vec[f"{q.name}_old"].ravel() if f"{q.name}_old" in vec else 0.0
            acc[sl[q.name]] = vec[f"{q.name}_acc"].ravel() if f"{q.name}_acc" in vec else 0.0
        for q in self.up:
            y[sl[q.name]] = vec[f"{q.name}_s"].ravel() if f"{q.name}_s" in vec else 0.0
        for q in self.ps:
            p[psl[q.name]] = vec[q.name].ravel() if q.name in vec else 0.0
        nm = "time" if self.options["time"] else "clock"
        t = float(vec[nm][0]) if nm in vec else 0.0
        return t, y, acc, p

    def _point(self, inputs):
        sp = self.options["sp"]
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, y, acc, p = self._read(inputs)
        own = self.own
        base = y[own] + h * acc[own]
        k = np.zeros(own.size)
        y = y.copy()
        for _ in range(80):
            y[own] = base + h * a * k
            r = k - sp.f(t, y, p)[own]
            d = np.linalg.solve(np.eye(own.size) - h * a * sp.jac(t, y, p)[1][np.ix_(own, own)], -r)
            k = k + d
            if np.max(np.abs(d)) <= 1e-15 * (1 + np.max(np.abs(k))):
                break
        y[own] = base + h * a * k
        return h, a, t, p, k, y

    def compute(self, inputs, outputs):
        self.options["jitter"]()
        h, a, t, p, k, y = self._point(inputs)
        sp, o = self.options["sp"], 0
        for q in self.qs:
            outputs[f"{q.name}_k"] = k[o:o + q.size].reshape(q.shape)
            if self.options["publish"]:
                outputs[f"{q.name}_s"] = y[sp.slices()[q.name]].reshape(q.shape)
            o += q.size
        if self.options["publish"]:
            outputs["clock_out"] = t

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        sp = self.options["sp"]
        h, a, t, p, k, y = self._point(inputs)
        own = self.own
        jt, jy, jp = sp.jac(t, y, p)
        S = np.eye(own.size) - h * a * jy[np.ix_(own, own)]
        up = np.concatenate([np.arange(sp.slices()[q.name].start, sp.slices()[q.name].stop) for q in self.up]).astype(int) if self.up else np.zeros(0, int)
        tn = "time" if self.options["time"] else "clock"
        if mode == "fwd":
            dt, dy, dacc, dp = self._read(d_inputs)
            db = dy[own] + h * dacc[own]
            dk = np.linalg.solve(S, jt[own] * dt + jy[np.ix_(own, own)] @ db + jy[np.ix_(own, up)] @ dy[up] + jp[own] @ dp)
            ds = db + h * a * dk
            o = 0
            for q in self.qs:
                for suffix, val in (("_k", dk), ("_s", ds)):
                    if q.name + suffix in d_outputs:
                        d_outputs[q.name + suffix] += val[o:o + q.size].reshape(q.shape)
                o += q.size
            if "clock_out" in d_outputs:
                d_outputs["clock_out"] += dt
            return
        wk, ws = np.zeros(own.size), np.zeros(own.size)
        o = 0
        for q in self.qs:
            for suffix, val in (("_k", wk), ("_s", ws)):
                if q.name + suffix in d_outputs:
                    val[o:o + q.size] = d_outputs[q.name + suffix].ravel()
            o += q.size
        v = np.linalg.solve(S.T, wk + h * a * ws)
        gb = jy[np.ix_(own, own)].T @ v + ws
        gu = jy[np.ix_(own, up)].T @ v
        gp, gt = jp[own].T @ v, float(jt[own] @ v)
        o = 0
        for q in self.qs:
            if f"{q.name}_old" in d_inputs:
                d_inputs[f"{q.name}_old"] += gb[o:o + q.size].reshape(q.shape)
            if f"{q.name}_acc" in d_inputs:
                d_inputs[f"{q.name}_acc"] += h * gb[o:o + q.size].reshape(q.shape)
            o += q.size
        o = 0
        for q in self.up:
            if f"{q.name}_s" in d_inputs:
                d_inputs[f"{q.name}_s"] += gu[o:o + q.size].reshape(q.shape)
            o += q.size
        for q in self.ps:
            if q.name in d_inputs:
                d_inputs[q.name] += gp[sp.slices("indeps")[q.name]].reshape(q.shape)
        if tn in d_inputs:
            d_inputs[tn] += gt + (float(d_outputs["clock_out"][0]) if "clock_out" in d_outputs else 0.0)


def block_spec(rng, nblocks, **kw):
    """Spec whose block 0 is autonomous and drives blocks 1..n (no coupling among those)."""
    sp = M.random_spec(rng, nq=nblocks, noinput=False, **kw)
    mask = np.zeros((sp.n, sp.n))
    sl = sp.slices()
    for i, q in enumerate(sp.quants):
        mask[sl[q.name], sl[q.name]] = 1.0
        mask[sl[q.name], sl[sp.quants[0].name]] = 1.0
    sp.A = sp.A * mask
    sp.C = sp.C * mask
    # the tanh terms only mix within a block
    within = np.zeros((sp.n, sp.n))
    for q in sp.quants:
        within[sl[q.name], sl[q.name]] = 1.0
    sp.N = sp.N * within
    return sp


def build_parallel_stage(sp, jitter, param_of):
    """Leading block on all ranks, the others inside a ParallelGroup.

    param_of: parameter name -> index of the block that uses it (every parameter is used by
    one block only)."""
    prob = om.Problem()
    names = [q.name for q in sp.quants]
    D, E = np.zeros_like(sp.D), np.zeros_like(sp.E)
    for q in sp.indeps:
        b = sp.quants[param_of[q.name]]
        rows, cols = sp.slices()[b.name], sp.slices("indeps")[q.name]
        D[rows, cols], E[rows, cols] = sp.D[rows, cols], sp.E[rows, cols]
    sp.D, sp.E = D, E

    def params(i):
        return [n for n, b in param_of.items() if b == i]
    prob.model.add_subsystem("lead", Block(sp=sp, own=[names[0]], upstream=[], publish=True, params=params(0), time=True, jitter=jitter))
    par = prob.model.add_subsystem("par", om.ParallelGroup())
    for i, nm in enumerate(names[1:], start=1):
        par.add_subsystem("b" + nm, Block(sp=sp, own=[nm], upstream=[names[0]], publish=False, params=params(i), time=False, jitter=jitter))
        prob.model.connect(f"lead.{names[0]}_s", f"par.b{nm}.{names[0]}_s")
        prob.model.connect("lead.clock_out", f"par.b{nm}.clock")
    return prob
