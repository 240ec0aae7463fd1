"""C22: integrators work as components of larger models."""

import numpy as np
import openmdao.api as om

from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

from rtm import model as M
from rtm.core import Skip
from rtm.rig import AllCheckpointer, NoCheckpointer, Rig, checkpoint_choice, random_state

KINDS = {"model": (150, 1500), "chain": (40, 400), "operator": (150, 1500)}
MIN_EVENTS = {"totals": 300, "models": 90, "cyclic_models": 30, "nested_models": 40, "operators": 300, "scoped_operators": 150, "chains": 25}
RULE = ("random OpenMDAO models of 1-3 integrators and 1-4 (non)linear components, connected in series, branches and cycles (also through times and parameters, by index), spread over nested groups, every linear solver "
        "(run once, block Gauss-Seidel, block Jacobi, Krylov, direct) on every level, both modes, random subsets of responses and design variables, repeated after changes of inputs; values and totals are compared with "
        "the composed reference functions and their chain rule; chain: integrations split into successive integrators equal the unsplit one; operator: jacobian-vector products of one integrator applied with random scopes "
        "to pre-filled vectors; distinct = (kind, #integrators, cyclic, groups, solver, mode)")
CASE_LIMIT = 400
CPU_LIMIT = 300
MAX_PRODUCTS = 100          # per integrator and set of inputs


class MapComp(om.ExplicitComponent):
    """out = W0 x + W2 tanh(W1 x + b), x = concatenated inputs."""

    def initialize(self):
        self.options.declare("node")

    def setup(self):
        nd = self.options["node"]
        for nm, n in nd.ins:
            self.add_input(nm, shape=n)
        self.add_output("o", shape=nd.m)
        if not nd.matfree:
            self.declare_partials("*", "*")

    def compute(self, inputs, outputs):
        outputs["o"] = self.options["node"].f(self._x(inputs))

    def _x(self, vec):
        return np.concatenate([vec[nm].ravel() for nm, _ in self.options["node"].ins])


class DenseComp(MapComp):
    """The same with a stored Jacobian."""

    def compute_partials(self, inputs, partials):
        J = self.options["node"].J(self._x(inputs))
        o = 0
        for nm, n in self.options["node"].ins:
            partials["o", nm] = J[:, o:o + n]
            o += n


class MatFreeComp(MapComp):
    """The same without a stored Jacobian."""

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        J = self.options["node"].J(self._x(inputs))
        o = 0
        for nm, n in self.options["node"].ins:
            if nm in d_inputs and "o" in d_outputs:
                if mode == "fwd":
                    d_outputs["o"] += J[:, o:o + n] @ d_inputs[nm]
                else:
                    d_inputs[nm] += J[:, o:o + n].T @ d_outputs["o"]
            o += n


class MapNode:
    kind = "map"

    def __init__(self, rng, name):
        self.name = name
        self.ins = [(f"x{i}", int(rng.integers(1, 4))) for i in range(int(rng.integers(1, 3)))]
        self.m = int(rng.integers(1, 4))
        n = sum(k for _, k in self.ins)
        self.matfree = bool(rng.random() < 0.5)
        self.W0, self.W1, self.W2 = 0.5 * rng.normal(size=(self.m, n)), 0.6 * rng.normal(size=(self.m, n)), 0.6 * rng.normal(size=(self.m, self.m))
        self.b = rng.normal(size=self.m)
        self.products = 0
        self.outs = [("o", self.m)]

    def damp(self, nm, fac):
        o = 0
        for k, n in self.ins:
            if k == nm:
                self.W0[:, o:o + n] *= fac
                self.W1[:, o:o + n] *= fac
            o += n

    def f(self, x):
        return self.W0 @ x + self.W2 @ np.tanh(self.W1 @ x + self.b)

    def J(self, x):
        return self.W0 + self.W2 @ ((1 - np.tanh(self.W1 @ x + self.b) ** 2)[:, None] * self.W1)

    def comp(self):
        return (MatFreeComp if self.matfree else DenseComp)(node=self)


class PlainComp(om.ExplicitComponent):
    """Function and Jacobian of an integrator without the integrator (control)."""

    def initialize(self):
        self.options.declare("node")

    def setup(self):
        nd = self.options["node"]
        for nm, _ in nd.ins:
            self.add_input(nm, shape=nd.shapes[nm])
        for nm, n in nd.outs:
            self.add_output(nm, shape=nd.shapes.get(nm, (n,)))

    def _x(self, vec):
        return np.concatenate([np.ravel(vec[nm]) for nm, _ in self.options["node"].ins])

    def compute(self, inputs, outputs):
        v, o = self.options["node"].f(self._x(inputs)), 0
        for nm, n in self.options["node"].outs:
            outputs[nm] = v[o:o + n].reshape(outputs[nm].shape)
            o += n

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        nd = self.options["node"]
        x = self._x(inputs)
        if getattr(self, "_at", None) is None or not np.array_equal(self._at, x):
            self._at, self._jac = x, nd.J(x)
        nd.products += 1
        if nd.products > MAX_PRODUCTS:
            raise Skip("the chosen solvers of the composed model need too many products (control)")
        r = 0
        for onm, on in nd.outs:
            c = 0
            for nm, n in nd.ins:
                if onm in d_outputs and nm in d_inputs:
                    blk = self._jac[r:r + on, c:c + n]
                    if mode == "fwd":
                        d_outputs[onm] += (blk @ np.ravel(d_inputs[nm])).reshape(d_outputs[onm].shape)
                    else:
                        d_inputs[nm] += (blk.T @ np.ravel(d_outputs[onm])).reshape(d_inputs[nm].shape)
                c += n
            r += on


class RKNode:
    kind = "rk"

    def __init__(self, rng, name, mode):
        self.name = name
        self.sp = M.random_spec(rng, nq=int(rng.integers(1, 3)), indep=int(rng.integers(0, 2)))
        self.tab, self.label = M.pick_tableau(rng)
        self.arr = M.tab_arrays(self.tab)
        self.n, self.h = int(rng.integers(1, 4)), float(rng.uniform(0.02, 0.15))
        self.ins = [("time_initial", 1)] + [(q.name + "_initial", q.size) for q in self.sp.quants] + [(q.name, q.size) for q in self.sp.indeps]
        self.outs = [("time_final", 1)] + [(q.name + "_final", q.size) for q in self.sp.quants]
        self.shapes = dict([("time_initial", (1,))] + [(q.name + "_initial", q.shape) for q in self.sp.quants] + [(q.name, q.shape) for q in self.sp.indeps] + [("time_final", (1,))] + [(q.name + "_final", q.shape) for q in self.sp.quants])
        self.products = 0
        self.arch = str(rng.choice(M.ARCHS))
        self.rng = rng
        _, self.ck, self.co = checkpoint_choice(rng, self.n)
        if mode == "fwd" and rng.random() < 0.3:
            self.ck, self.co = NoCheckpointer, {}

    def f(self, x):
        n = self.sp.n
        _, t, y = M.ref_run(self.sp, self.arr, x[0], x[1:1 + n], x[1 + n:], [self.h] * self.n)
        return np.concatenate([[t], y])

    def J(self, x):
        n = self.sp.n
        steps, _, _ = M.ref_run(self.sp, self.arr, x[0], x[1:1 + n], x[1 + n:], [self.h] * self.n)
        return M.ref_jacobian(self.sp, self.arr, steps, x[1 + n:])

    def comp(self):
        stage, _ = M.build_stage_problem(self.sp, self.arch, self.rng)
        qs, ps = [q.name for q in self.sp.quants], [q.name for q in self.sp.indeps]
        self.rng.shuffle(qs)
        return RungeKuttaIntegrator(time_stage_problem=stage, butcher_tableau=self.tab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(self.n), self.h),
                                    time_integration_quantities=qs, time_independent_input_quantities=ps, checkpointing_type=self.ck, checkpoint_options=self.co,
                                    compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[])


LINEAR = ("lbgs", "lbjac", "krylov", "direct")


def linear_solver(name):
    if name == "lbgs":
        return om.LinearBlockGS(maxiter=60, atol=1e-12, rtol=1e-12, iprint=-1)
    if name == "lbjac":
        return om.LinearBlockJac(maxiter=80, atol=1e-12, rtol=1e-12, iprint=-1)
    if name == "krylov":
        return om.ScipyKrylov(maxiter=100, atol=1e-12, rtol=1e-12, iprint=-1)
    if name == "direct":
        return om.DirectSolver(assemble_jac=False)
    return om.LinearRunOnce()


class Model:
    def __init__(self, rng, mode):
        self.rng = rng
        self.mode = mode
        nrk = int(rng.choice([1, 1, 2, 2, 3]))
        kinds = ["rk"] * nrk + ["map"] * int(rng.integers(1, 5))
        rng.shuffle(kinds)
        self.nodes = [RKNode(rng, f"n{i}", mode) if k == "rk" else MapNode(rng, f"n{i}") for i, k in enumerate(kinds)]
        self.nrk = nrk
        self.src = {}       # (node index, input) -> (node index, output, indices)
        for i, nd in enumerate(self.nodes):
            for nm, n in nd.ins:
                if i and rng.random() < 0.55:
                    j = int(rng.integers(i))
                    self._connect(i, nm, n, j)
        self.cyclic = False
        if rng.random() < 0.45:
            maps = [i for i, nd in enumerate(self.nodes) if nd.kind == "map" and i < len(self.nodes) - 1]
            if maps:
                i = maps[int(rng.integers(len(maps)))]
                later = [j for j in range(i + 1, len(self.nodes))]
                nd = self.nodes[i]
                nm, n = nd.ins[int(rng.integers(len(nd.ins)))]
                nd.damp(nm, 0.15)
                self._connect(i, nm, n, later[int(rng.integers(len(later)))])
                self.cyclic = True
        self.place = {}
        pool = [""] if rng.random() < 0.35 else ["", "G0", "G0.H", "G1"]
        for nd in self.nodes:
            self.place[nd.name] = str(rng.choice(pool))
        self.nested = len(set(self.place.values())) > 1
        # offsets
        self.oo, self.xo = {}, 0
        for i, nd in enumerate(self.nodes):
            for nm, n in nd.outs:
                self.oo[i, nm] = slice(self.xo, self.xo + n)
                self.xo += n
        self.uo, self.nu = {}, 0
        for i, nd in enumerate(self.nodes):
            for nm, n in nd.ins:
                if (i, nm) not in self.src:
                    self.uo[i, nm] = slice(self.nu, self.nu + n)
                    self.nu += n
        self.gsolver = {}
        self.prob = self._build(False)
        self._twin = None

    def twin(self):
        """The same model with plain components in place of the integrators."""
        if self._twin is None:
            self._twin = self._build(True)
        return self._twin

    def _connect(self, i, nm, n, j):
        out, m = self.nodes[j].outs[int(self.rng.integers(len(self.nodes[j].outs)))]
        self.src[i, nm] = (j, out, self.rng.integers(0, m, size=n))

    def path(self, i):
        p = self.place[self.nodes[i].name]
        return (p + "." if p else "") + self.nodes[i].name

    def _build(self, plain):
        rng = self.rng
        prob = om.Problem()
        groups = {"": prob.model}
        children = {"": []}
        for nd in self.nodes:
            p = self.place[nd.name]
            for depth in range(len(p.split(".")) if p else 0):
                parts = p.split(".")[:depth + 1]
                full, parent = ".".join(parts), ".".join(parts[:-1])
                if full not in groups:
                    groups[full] = groups[parent].add_subsystem(parts[-1], om.Group())
                    children[full] = []
                    children[parent].append(full)
            groups[p].add_subsystem(nd.name, PlainComp(node=nd) if plain and nd.kind == "rk" else nd.comp())
            children[p].append((p + "." if p else "") + nd.name)
        for (i, nm), (j, out, idx) in self.src.items():
            prob.model.connect(f"{self.path(j)}.{out}", f"{self.path(i)}.{nm}", src_indices=idx, flat_src_indices=True)
        for g, grp in groups.items():
            pos = {}
            for k, c in enumerate(children[g]):
                for i in range(len(self.nodes)):
                    if self.path(i) == c or self.path(i).startswith(c + "."):
                        pos[i] = k
            forward = all(pos[j] <= pos[i] for (i, _), (j, _, _) in self.src.items() if i in pos and j in pos)
            if g not in self.gsolver:
                self.gsolver[g] = "once" if forward and rng.random() < 0.4 else str(rng.choice(LINEAR))
            s = self.gsolver[g]
            if s == "once":
                continue
            if not forward:
                grp.nonlinear_solver = om.NonlinearBlockGS(maxiter=150, atol=1e-13, rtol=1e-13, iprint=-1)
            grp.linear_solver = linear_solver(s)
        self.solvers = list(self.gsolver.values())
        prob.setup(mode=self.mode)
        prob.final_setup()
        return prob

    # -- reference
    def x_of(self, i, X, U):
        parts = []
        for nm, n in self.nodes[i].ins:
            if (i, nm) in self.src:
                j, out, idx = self.src[i, nm]
                parts.append(X[self.oo[j, out]][idx])
            else:
                parts.append(U[self.uo[i, nm]])
        return np.concatenate(parts)

    def solve(self, U):
        X = np.zeros(self.xo)
        for it in range(400):
            old = X.copy()
            for i, nd in enumerate(self.nodes):
                v = nd.f(self.x_of(i, X, U))
                o = 0
                for nm, n in nd.outs:
                    X[self.oo[i, nm]] = v[o:o + n]
                    o += n
            if it and np.max(np.abs(X - old)) < 1e-15 * (1 + np.max(np.abs(X))):
                return X
            if not self.cyclic and it:
                return X
            if np.max(np.abs(X)) > 1e4:
                raise Skip("the composed model diverges")
            if it > 60:
                raise Skip("fixed point iteration of the composed model too slow")
        raise Skip("no fixed point")

    def jac(self, X, U):
        GX, GU = np.zeros((self.xo, self.xo)), np.zeros((self.xo, self.nu))
        for i, nd in enumerate(self.nodes):
            J = nd.J(self.x_of(i, X, U))
            r = 0
            for onm, on in nd.outs:
                rows = np.arange(self.oo[i, onm].start, self.oo[i, onm].stop)
                c = 0
                for nm, n in nd.ins:
                    blk = J[r:r + on, c:c + n]
                    if (i, nm) in self.src:
                        j, out, idx = self.src[i, nm]
                        for k in range(n):
                            GX[rows, self.oo[j, out].start + idx[k]] += blk[:, k]
                    else:
                        GU[rows[:, None], np.arange(self.uo[i, nm].start, self.uo[i, nm].stop)] += blk
                    c += n
                r += on
        # the iterative solvers of the model need a contraction
        if self.cyclic and np.max(np.abs(np.linalg.eigvals(GX))) > 0.8:
            raise Skip("feedback of the composed model too strong for the block solvers")
        A = np.eye(self.xo) - GX
        return np.linalg.solve(A, GU)

    def set(self, U, prob):
        for (i, nm), s in self.uo.items():
            nd = self.nodes[i]
            shape = nd.shapes[nm] if nd.kind == "rk" else (s.stop - s.start,)
            prob.set_val(f"{self.path(i)}.{nm}", U[s].reshape(shape))


def model(rng, mon):
    mode = str(rng.choice(["fwd", "rev"]))
    m = Model(rng, mode)
    if not m.uo:
        raise Skip("no free input")
    what = f"{m.nrk} integrators, {'cyclic' if m.cyclic else 'acyclic'}, groups {sorted(set(m.place.values()))}, solvers {m.gsolver}, {mode}"
    mon.note(model=what, connections=len(m.src))
    for rnd in range(int(rng.integers(1, 4))):
        U = rng.normal(size=m.nu)
        X = m.solve(U)
        D = m.jac(X, U)
        outs, ins = list(m.oo), list(m.uo)
        queries = []
        for _ in range(int(rng.integers(1, 4))):
            queries.append(([outs[k] for k in rng.permutation(len(outs))[:int(rng.integers(1, min(4, len(outs)) + 1))]],
                            [ins[k] for k in rng.permutation(len(ins))[:int(rng.integers(1, min(4, len(ins)) + 1))]]))

        def observe(prob):
            """Deviations (got, expected, what) of values and totals."""
            for nd in m.nodes:
                nd.products = 0
            m.set(U, prob)
            prob.run_model()
            val = [(np.ravel(prob.get_val(f"{m.path(i)}.{nm}")), X[s], f"{nm} of node {i}") for (i, nm), s in m.oo.items()]
            tot = []
            for of, wrt in queries:
                t = prob.compute_totals(of=[f"{m.path(i)}.{nm}" for i, nm in of], wrt=[f"{m.path(i)}.{nm}" for i, nm in wrt])
                for o in of:
                    for w in wrt:
                        tot.append((np.array(t[f"{m.path(o[0])}.{o[1]}", f"{m.path(w[0])}.{w[1]}"]), D[m.oo[o], m.uo[w]], f"d {o[1]} of node {o[0]} / d {w[1]} of node {w[0]}"))
            return val, tot
        xs, ds = 1 + float(np.max(np.abs(X))), 1 + float(np.max(np.abs(D)))

        def good(seq, tol, scale):
            return all(np.all(np.isfinite(g)) and np.max(np.abs(g - e)) <= tol * scale for g, e, _ in seq)
        # The solvers of the surrounding model have to solve this model at all:
        # shown by the same model without integrators.
        cval, ctot = observe(m.twin())
        if not good(cval, 1e-10, xs) or not good(ctot, 1e-9, ds):
            mon.count("control_failed")
            raise Skip("the chosen solvers do not solve the composed model (control)")
        val, tot = observe(m.prob)
        for g, e, w in val:
            mon.close(g, e, "value", f"{what}, round {rnd + 1}: {w}", rtol=1e-10, atol=1e-10, scale=xs)
        for g, e, w in tot:
            mon.close(g, e, "total", f"{what}, round {rnd + 1}: {w}", rtol=1e-9, atol=1e-9, scale=ds)
            mon.count("totals")
        mon.count("models")
        mon.count("cyclic_models", m.cyclic)
        mon.count("nested_models", m.nested)
    mon.distinct("model", m.nrk, m.cyclic, m.nested, tuple(sorted(set(m.solvers))), mode)


def chain(rng, mon):
    """An integration split over several integrators equals the whole one."""
    sp = M.random_spec(rng, indep=int(rng.integers(0, 2)), noinput=False)
    tab, label = M.pick_tableau(rng)
    arr = M.tab_arrays(tab)
    parts = [int(k) for k in rng.integers(1, 4, size=int(rng.integers(2, 4)))]
    h = float(rng.uniform(0.02, 0.12))
    mode = str(rng.choice(["fwd", "rev"]))
    prob = om.Problem()
    for i, n in enumerate(parts):
        stage, _ = M.build_stage_problem(sp, str(rng.choice(M.ARCHS)), rng)
        _, ck, co = checkpoint_choice(rng, n)
        prob.model.add_subsystem(f"p{i}", RungeKuttaIntegrator(time_stage_problem=stage, butcher_tableau=tab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(n), h),
                                                               time_integration_quantities=[q.name for q in sp.quants], time_independent_input_quantities=[q.name for q in sp.indeps],
                                                               checkpointing_type=ck, checkpoint_options=co, compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[]),
                                 promotes=[q.name for q in sp.indeps])
        if i:
            prob.model.connect(f"p{i-1}.time_final", f"p{i}.time_initial")
            for q in sp.quants:
                prob.model.connect(f"p{i-1}.{q.name}_final", f"p{i}.{q.name}_initial")
    prob.setup(mode=mode)
    prob.final_setup()
    last = f"p{len(parts)-1}"
    for _ in range(2):
        t0, y0, p = random_state(rng, sp)
        prob.set_val("p0.time_initial", t0)
        for q in sp.quants:
            prob.set_val(f"p0.{q.name}_initial", y0[sp.slices()[q.name]].reshape(q.shape))
        for q in sp.indeps:
            prob.set_val(q.name, p[sp.slices("indeps")[q.name]].reshape(q.shape))
        prob.run_model()
        steps, t, y = M.ref_run(sp, arr, t0, y0, p, [h] * sum(parts))
        got = np.concatenate([prob.get_val(f"{last}.{q.name}_final").ravel() for q in sp.quants])
        what = f"integration split into {parts} steps ({label}, {mode})"
        mon.close(got, y, "chain-value", what, rtol=1e-10, atol=1e-12)
        mon.close(prob.get_val(f"{last}.time_final")[0], t, "chain-time", what, rtol=1e-11)
        J = M.ref_jacobian(sp, arr, steps, p)
        of = [f"{last}.time_final"] + [f"{last}.{q.name}_final" for q in sp.quants]
        wrt = ["p0.time_initial"] + [f"p0.{q.name}_initial" for q in sp.quants] + [q.name for q in sp.indeps]
        tot = prob.compute_totals(of=of, wrt=wrt)
        got = np.vstack([np.hstack([tot[o, w] for w in wrt]) for o in of])
        mon.close(got, J, "chain-total", what, rtol=1e-9, atol=1e-11)
        mon.count("totals", got.size)
        mon.count("chains")
    mon.distinct("chain", len(parts), mode, label)


def operator(rng, mon):
    """Products of one integrator: additive, restricted to their scope."""
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), indep=int(rng.integers(0, 3)))
    tab, label = M.pick_tableau(rng)
    n, h = int(rng.integers(1, 4)), float(rng.uniform(0.02, 0.15))
    _, ck, co = checkpoint_choice(rng, n)
    rig = Rig(sp, tab, n=n, h=h, arch=str(rng.choice(M.ARCHS)), ckpt=(ck, co), rng=rng, callbacks=False, promotes=bool(rng.random() < 0.5))
    t0, y0, p = random_state(rng, sp)
    rig.run(t0, y0, p)
    steps, _, _ = rig.ref(t0, y0, p, [h] * n)
    J = rig.ref_jac(steps, p)
    c = rig.integrator
    di, do, dr = c.get_linear_vectors()
    ins = ["time_initial"] + [q.name + "_initial" for q in sp.quants] + [q.name for q in sp.indeps]
    outs = ["time_final"] + [q.name + "_final" for q in sp.quants]
    off, k = {}, 0
    for nm in ins:
        s = di[nm].size
        off[nm] = slice(k, k + s)
        k += s
    ooff, k = {}, 0
    for nm in outs:
        s = do[nm].size
        ooff[nm] = slice(k, k + s)
        k += s

    def get(vec, o):
        return np.concatenate([vec[nm].ravel() for nm in o])

    def put(vec, o, x):
        for nm, s in o.items():
            vec[nm] = x[s].reshape(vec[nm].shape)
    scale = 1 + 10 * float(np.linalg.norm(J))
    for _ in range(int(rng.integers(2, 6))):
        sin = [nm for nm in ins if rng.random() < 0.6]
        scoped = bool(rng.random() < 0.6)
        scope_in = frozenset(f"rk.{nm}" for nm in sin) if scoped else None
        scope_out = None if rng.random() < 0.5 else frozenset()
        if scope_in is None:
            scope_out = None
        mask = np.zeros(J.shape[1])
        for nm in ins:
            if not scoped or nm in sin:
                mask[off[nm]] = 1.0
        mode = str(rng.choice(["fwd", "rev"]))
        what = f"{mode} product with scope {sin if scoped else 'all'} ({label})"
        a, b, r = rng.normal(size=J.shape[1]), rng.normal(size=J.shape[0]), rng.normal(size=J.shape[0])
        put(di, off, a)
        put(do, ooff, b)
        put(dr, ooff, r)
        # public entry point used by all solvers; residual = output - function, so the operator is [I, -J] up to the sign convention of explicit components
        c.run_apply_linear(mode, scope_out, scope_in)
        if mode == "fwd":
            got = get(dr, ooff)
            lin = J @ (mask * a)
            out = b if scope_out is None else 0 * b
            mon.close(got, lin - out, "operator-fwd", what, rtol=1e-10, atol=1e-11, scale=scale)
            mon.close(get(di, off), a, "operator-input", what + ": argument changed", rtol=0, atol=0)
        else:
            gi = get(di, off)
            want = mask * (J.T @ r)
            # entries outside the scope must not receive anything
            mon.close(gi * mask, want, "operator-rev", what, rtol=1e-10, atol=1e-11, scale=scale)
            mon.close(gi * (1 - mask), 0 * gi, "operator-rev-scope", what + ": entries out of scope", rtol=0, atol=1e-14)
            mon.close(get(dr, ooff), r, "operator-input", what + ": argument changed", rtol=0, atol=0)
        mon.count("operators")
        mon.count("scoped_operators", scoped)
        # the user-level product adds to what is there
        if rng.random() < 0.5:
            base_i, base_o = rng.normal(size=J.shape[1]), rng.normal(size=J.shape[0])
            put(di, off, base_i)
            put(dr, ooff, base_o)
            inputs = c.get_nonlinear_vectors()[0]
            c.compute_jacvec_product(inputs, di, dr, mode)
            if mode == "fwd":
                mon.close(get(dr, ooff), base_o + J @ base_i, "additive-fwd", what + " added to a vector", rtol=1e-10, atol=1e-11, scale=scale)
            else:
                mon.close(get(di, off), base_i + J.T @ base_o, "additive-rev", what + " added to a vector", rtol=1e-10, atol=1e-11, scale=scale)
            mon.count("operators")
    mon.note(tableau=label, n=n, quants=[(q.name, q.shape) for q in sp.quants])
    mon.distinct("operator", label, ck.__name__, len(ins))


def run(kind, idx, rng, mon, tier):
    {"model": model, "chain": chain, "operator": operator}[kind](rng, mon)
