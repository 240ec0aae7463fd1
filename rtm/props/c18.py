"""C18: state copies and serialization are complete and independent."""

import copy
import pickle

import numpy as np

from rkopenmdao.checkpoint_interface.runge_kutta_integrator_pyrevolve_classes import RungeKuttaCheckpoint
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState, RungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState

from rtm import model as M
from rtm.rig import AllCheckpointer, Rig, random_state

KINDS = {"ops": (1500, 6000), "live": (240, 800)}
MIN_EVENTS = {"ops_set": 500, "ops_dict": 300, "ops_copy": 300, "ops_restore": 120, "fields": 50000, "live_states": 300}
RULE = ("random operation sequences (mutate fields, set, self set, deepcopy, pickle, dictionary round trip, save/restore through the checkpoint data locations, writes through exported dictionaries) on "
        "3-4 integration states (embedded or not, zero-size parts) mirrored by shadow copies; after every operation every array field of every state is compared bit for bit with its shadow and array "
        "identities of set targets are checked; states of real integrations are captured and round-tripped as well; distinct = operation pairs x state class x sizes")

DOC = {"start_state", "stage_states", "stage_updates", "final_state", "independent_inputs", "stage_independent_outputs", "final_independent_outputs",
       "start_time", "stage_times", "final_time", "step_size", "linearization_points"}
DOC_EMB = DOC | {"embedded_state", "error_estimate"}
DOC_TI = {"step_size_suggestion", "step_size_history", "error_history"}


def arrays(st):
    """All array fields by path, discovered generically."""
    out = {}
    for k, v in vars(st).items():
        if isinstance(v, np.ndarray):
            out[k] = v
        elif hasattr(v, "__dict__"):
            out.update({f"{k}.{kk}": vv for kk, vv in arrays(v).items()})
    return out


def snap(st):
    return {k: v.copy() for k, v in arrays(st).items()}


def check(mon, states, shadows, what):
    for i, (st, sh) in enumerate(zip(states, shadows)):
        a = arrays(st)
        mon.require(set(a) == set(sh), "fields", f"{what}: fields of state {i} changed: {set(a) ^ set(sh)}")
        for k, v in a.items():
            if not (v.shape == sh[k].shape and np.array_equal(v, sh[k], equal_nan=True)):
                mon.require(False, "value", f"{what}: field {k} of state {i} differs from its shadow", got=v, want=sh[k])
        mon.count("fields", len(a))
    mon.count("checks")


def fresh(rng, dims, emb):
    cls = EmbeddedRungeKuttaDiscretizationState if emb else RungeKuttaDiscretizationState
    d = cls(ode_state_size=dims[0], independent_input_size=dims[1], independent_output_size=dims[2], number_of_stages=dims[3], linearization_point_size=dims[4])
    return TimeIntegrationState(d, np.zeros(1), np.zeros(dims[5]), np.zeros(dims[5]))


def scramble(rng, st, sh, part=1.0):
    for k, v in arrays(st).items():
        if rng.random() <= part:
            x = rng.normal(size=v.shape)
            if rng.random() < 0.05:
                x = np.where(rng.random(v.shape) < 0.5, np.nan, np.inf)
            v[...] = x
            sh[k] = x.copy()


def ops(rng, mon):
    emb = bool(rng.random() < 0.6)
    dims = (int(rng.integers(0, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 3)), int(rng.integers(1, 5) if rng.random() < 0.85 else rng.integers(5, 15)), int(rng.integers(0, 6)), int(rng.integers(1, 4)))
    m = int(rng.integers(2, 5))
    states = [fresh(rng, dims, emb) for _ in range(m)]
    shadows = [snap(s) for s in states]
    names = set(arrays(states[0]))
    for f in (DOC_EMB if emb else DOC):
        mon.require(f"discretization_state.{f}" in names, "documented", f"documented field {f} is missing")
    for f in DOC_TI:
        mon.require(f in names, "documented", f"documented field {f} is missing")
    for s, sh in zip(states, shadows):
        scramble(rng, s, sh)
    check(mon, states, shadows, "after filling")
    ckpts, dicts = {}, {}
    prev = "start"
    for _ in range(int(rng.integers(8, 20))):
        op = str(rng.choice(["set", "dset", "selfset", "deepcopy", "pickle", "dict", "ddict", "mutate", "save", "save", "restore", "restore", "writedict"]))
        i, j = int(rng.integers(m)), int(rng.integers(m))
        s, o = states[i], states[j]
        if op == "set" or op == "selfset":
            if op == "selfset":
                j, o = i, s
            ident = {k: (id(v), v.__array_interface__["data"][0]) for k, v in arrays(s).items()}
            s.set(o)
            mon.require({k: (id(v), v.__array_interface__["data"][0]) for k, v in arrays(s).items()} == ident, "in-place", f"set replaced arrays of the target")
            shadows[i] = {k: v.copy() for k, v in shadows[j].items()}
            mon.count("ops_set")
        elif op == "dset":
            s.discretization_state.set(o.discretization_state)
            for k in shadows[i]:
                if k.startswith("discretization_state."):
                    shadows[i][k] = shadows[j][k].copy()
            mon.count("ops_set")
        elif op in ("deepcopy", "pickle"):
            states[i] = copy.deepcopy(o) if op == "deepcopy" else pickle.loads(pickle.dumps(o))
            shadows[i] = {k: v.copy() for k, v in shadows[j].items()}
            ckpts.pop(i, None), dicts.pop(i, None)
            mon.count("ops_copy")
        elif op == "dict":
            states[i] = TimeIntegrationState.from_dict(copy.deepcopy(o.to_dict()))
            mon.require(type(states[i].discretization_state) is type(o.discretization_state), "dict-class", "dictionary round trip changed the class of the state")
            shadows[i] = {k: v.copy() for k, v in shadows[j].items()}
            ckpts.pop(i, None), dicts.pop(i, None)
            mon.count("ops_dict")
        elif op == "ddict":
            states[i].discretization_state = type(o.discretization_state).from_dict(copy.deepcopy(o.discretization_state.to_dict()))
            for k in shadows[i]:
                if k.startswith("discretization_state."):
                    shadows[i][k] = shadows[j][k].copy()
            ckpts.pop(i, None), dicts.pop(i, None)
            mon.count("ops_dict")
        elif op == "mutate":
            scramble(rng, s, shadows[i], 0.5)
        elif op == "save":
            c = RungeKuttaCheckpoint(s)
            ckpts[i] = (c, c.get_data(0), {k: v.copy() for k, v in shadows[i].items()})
        elif op == "restore" and ckpts:
            i = int(rng.choice(list(ckpts)))
            c, data, sh = ckpts[i]
            loc = c.get_data_location(0)
            mon.require(len(loc) == len(data) and all(a.shape == b.shape for a, b in zip(loc, data)), "checkpoint-layout", "checkpoint data and locations do not match")
            mon.require(sum(a.size for a in loc) == c.size == sum(v.size for v in sh.values()), "checkpoint-size", f"checkpoint covers {sum(a.size for a in loc)} of {sum(v.size for v in sh.values())} numbers (size {c.size})")
            for a, b in zip(loc, data):
                a[...] = b
            shadows[i] = {k: v.copy() for k, v in sh.items()}
            mon.count("ops_restore")
        elif op == "writedict":
            # exported arrays give access to the state itself: this is what checkpoints are restored through
            d = s.to_dict()

            def fill(x):
                for v in x.values():
                    if isinstance(v, dict):
                        fill(v)
                    else:
                        v[...] = 0.125
            fill(d)
            shadows[i] = {k: np.full(v.shape, 0.125) for k, v in shadows[i].items()}
        check(mon, states, shadows, f"{op} {i}<-{j} after {prev}")
        mon.distinct(prev, op, emb)
        prev = op
    mon.note(embedded=emb, dims=dims, states=m)


def live(rng, mon):
    """States of real integrations survive copying while the integration goes on."""
    sp = M.random_spec(rng)
    tab, label = M.pick_tableau(rng)
    rig = Rig(sp, tab, n=int(rng.integers(2, 8)), h=0.05, arch=str(rng.choice(["explicit", "implicit", "coupled"])), ckpt=(AllCheckpointer, {}), rng=rng)
    kept = []

    def hook(ev, st):
        c = copy.deepcopy(st)
        d = TimeIntegrationState.from_dict(copy.deepcopy(st.to_dict()))
        e = copy.deepcopy(kept[0][1]) if kept else copy.deepcopy(st)
        e.set(st)
        kept.append((snap(st), c, d, e))
    for cb in rig.cbs:
        cb.hook = hook
    t0, y0, p = random_state(rng, sp)
    rig.run(t0, y0, p)
    rig.rev(rng.normal(size=1 + sp.n))
    rig.fwd(rng.normal(size=1 + sp.n + sp.m))
    for ref, *copies in kept:
        check(mon, copies, [ref] * len(copies), "captured state after the integration went on")
        mon.count("live_states")
    mon.distinct("live", label)
    mon.note(tableau=label)


def run(kind, idx, rng, mon, tier):
    (ops if kind == "ops" else live)(rng, mon)
