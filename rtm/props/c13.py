"""C13: written HDF5 results equal the integration and can be read back."""

import os

import h5py
import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback, read_hdf5_file, read_last_local_error

from rtm import model as M
from rtm.adapt import GAVE_UP
from rtm.core import Skip
from rtm.rig import NoCheckpointer, RecordingCallback, Rig, checkpoint_choice, random_state

KINDS = {"write": (270, 1500), "history": (90, 500), "reader": (130, 700), "adaptive": (90, 500)}
MIN_EVENTS = {"files": 150, "datasets": 2000, "groups": 700, "reads": 60, "after_rev": 20, "error_measures": 250}
RULE = ("random integrations with 1-3 file writers (periods 1..N+2, all quantity layouts/shapes, all checkpointing strategies, fixed/adaptive, repeated runs into the same files, "
        "files audited also after forward and reverse products); every group, dataset, shape and value is compared bit for bit with the event log of a recording callback and "
        "to 1e-8 with the reference trajectory; shipped readers are called with recording solution functions; distinct = (kind, period, #quantities, #steps, checkpointing)")


def audit(mon, path, period, sp, names, events, fi, embedded, ref, measure, what, exact=True):
    """File content against the events of the compute callback list and the reference trajectory."""
    n = len(ref) - 1
    aft = [e for e in events if e["when"] == "after"]
    want = ["0"] + [str(k) for k in range(1, n + 1) if k % period == 0]
    with h5py.File(path, "r") as f:
        got = sorted(f.keys(), key=int)
        mon.require(got == want, "groups", f"{what}: file has groups {got}, expected {want}")
        mon.count("groups", len(got))
        for g in got:
            k = int(g)
            t, y = (aft[0]["t0"], aft[0]["y0"][fi]) if k == 0 else (aft[k - 1]["t1"], aft[k - 1]["y1"][fi])
            keys = set(f[g].keys())
            exp = {"time"} | set(names) | ({"error_measure"} if embedded else set())
            mon.require(keys == exp, "datasets", f"{what}: group {g} has datasets {sorted(keys)}, expected {sorted(exp)}")
            mon.require(f[g]["time"].shape == (1,) and (f[g]["time"][0] == t if exact else abs(f[g]["time"][0] - t) < 1e-12), "time", f"{what}: time of step {g} is {f[g]['time'][...]}, integration had {t}")
            mon.close(f[g]["time"][0], ref[k][0], "time-ref", f"{what}: time of step {g}", rtol=1e-11, atol=1e-12)
            for q in sp.quants:
                d = f[g][q.name][...]
                v = y[sp.slices()[q.name]].reshape(q.shape)
                mon.require(d.shape == tuple(q.shape), "shape", f"{what}: {q.name} of step {g} has shape {d.shape}, expected {q.shape}")
                mon.require(d.dtype == np.float64 and (np.array_equal(d, v) if exact else np.allclose(d, v, rtol=1e-10, atol=1e-11)), "value", f"{what}: {q.name} of step {g} differs from the integration by {np.max(np.abs(d - v)):.2e}")
                r = ref[k][1][sp.slices()[q.name]].reshape(q.shape)
                mon.close(d, r, "value-ref", f"{what}: {q.name} of step {g} against the reference", rtol=1e-10, atol=1e-12,
                          scale=max(1.0, float(np.max(np.abs(ref[k][1])))))
                mon.count("datasets")
            if embedded:
                e = f[g]["error_measure"]
                mon.require(e.shape == (1,), "err-shape", f"{what}: error measure of step {g} has shape {e.shape}")
                m = 0.0 if k == 0 else measure(aft[k - 1]["est"], aft[k - 1]["y1"])
                mon.close(e[0], m, "error-measure", f"{what}: error measure of step {g}", rtol=1e-10, atol=1e-15 if exact else 1e-11)
                mon.count("error_measures")
    mon.count("files")


def check_reader(mon, rng, path, sp, ref, want_keys, embedded):
    names = [q.name for q in sp.quants]
    k = int(rng.integers(1, len(names) + 1))
    sel = [names[i] for i in rng.permutation(len(names))[:k]]
    calls = []
    drift = {nm: rng.normal() for nm in sel}

    def solution(t, init, t0):
        calls.append((t, init, t0))
        if len(sel) == 1:
            return np.asarray(init) + drift[sel[0]] * (t - t0)
        return [np.asarray(init[i]) + drift[sel[i]] * (t - t0) for i in range(len(sel))]

    time, err, res = read_hdf5_file(path, list(sel), solution)
    with h5py.File(path, "r") as f:
        raw = {int(g): {d: f[g][d][...] for d in f[g]} for g in f}
    mon.require(set(time) == set(raw) == set(want_keys), "reader-times", f"reader returns times of {sorted(time)}, file has {sorted(raw)}")
    mon.require(set(res) == set(sel) and set(err) == set(sel), "reader-quantities", f"reader returned {sorted(res)}/{sorted(err)} for {sel}")
    t0 = raw[0]["time"][0]
    for g in raw:
        mon.require(time[g] == raw[g]["time"][0], "reader-time", f"reader time of step {g}")
        for nm in sel:
            mon.require(np.array_equal(res[nm][g], raw[g][nm]) and res[nm][g].shape == raw[g][nm].shape, "reader-value", f"reader value of {nm} at step {g}")
            want = np.abs(raw[0][nm] + drift[nm] * (raw[g]["time"][0] - t0) - raw[g][nm])
            mon.close(err[nm][g], want, "reader-error", f"error of {nm} at step {g} with respect to the given solution (read {sel})", rtol=1e-12, atol=1e-14)
    for t, init, tt in calls:
        given = [init] if len(sel) == 1 else init
        mon.require(len(given) == len(sel) and all(np.shape(v) == raw[0][nm].shape and np.array_equal(v, raw[0][nm]) for v, nm in zip(given, sel)), "reader-initial",
                    f"solution was given other initial values than those of {sel} in the file")
        mon.require(tt == t0, "reader-t0", f"solution was asked with initial time {tt}, file has {t0}")
    mon.count("reads")
    if embedded:
        last = max(raw)
        mon.require(read_last_local_error(path) == raw[last]["error_measure"][0], "last-error", f"last local error is {read_last_local_error(path)}, file has {raw[last]['error_measure'][0]} at step {last}")
        mon.count("last_errors")


def run(kind, idx, rng, mon, tier):
    sp = M.random_spec(rng, nq=int(rng.integers(1, 4)), max_size=3)
    names = [q.name for q in sp.quants]
    t0, y0, p = random_state(rng, sp)
    n = int(rng.integers(1, 14))
    if rng.random() < 0.15:
        n = int(rng.integers(14, 30))
    h = float(10 ** rng.uniform(-2.3, -1.0))
    adaptive = kind == "adaptive"
    tab, label = M.pick_tableau(rng, embedded=True if adaptive else None, p_random=0.0 if adaptive else 0.3)
    ck = checkpoint_choice(rng, n)
    if kind == "write" and rng.random() < 0.3:
        ck = ("none", NoCheckpointer, {})
    periods = [int(rng.choice([1, 2, 3, 5, n, n + 1, int(rng.integers(1, n + 2))])) for _ in range(int(rng.integers(1, 3)))]
    files = [os.path.abspath(f"f{idx}_{i}.h5") for i in range(len(periods))]
    for f in files:
        if os.path.exists(f):
            os.remove(f)
        if rng.random() < 0.3:  # a stale file is replaced
            with h5py.File(f, "w") as s:
                s.create_group("99")
    log = []
    cbs = [OpenMDAOHDF5Callback(f) if w == 1 and rng.random() < 0.5 else OpenMDAOHDF5Callback(filename=f, write_out_period=w) for f, w in zip(files, periods)] + [RecordingCallback(log, "compute")]
    if rng.random() < 0.5:
        cbs.reverse()
    meas = SimpleErrorMeasurer() if rng.random() < 0.6 else ImprovedErrorMeasurer(eta=float(10 ** rng.uniform(-3, 0)), eps=float(10 ** rng.uniform(-3, 0)))

    def measure(est, y):
        e = float(np.linalg.norm(est))
        return e if isinstance(meas, SimpleErrorMeasurer) else e / (float(np.linalg.norm(y)) + meas.eta / meas.eps)

    extra = {"compute_callbacks": cbs}
    kw = {}
    if adaptive:
        kw = dict(adaptive=True, measurer=meas, ctrl_cfg=ErrorControllerConfig(tol=float(10 ** rng.uniform(-5, -2)), lower_bound=5e-3, upper_bound=0.5))
    else:
        extra["error_measurer"] = meas
    arch = str(rng.choice(["explicit", "nested", "coupled", "ivc"], p=[0.55, 0.15, 0.15, 0.15]))
    rig = Rig(sp, tab, n=n, h=h, arch=arch, ckpt=ck[1:], extra=extra, rng=rng, **kw)
    rig.cbs[0] = next(c for c in cbs if isinstance(c, RecordingCallback))
    mon.note(kind=kind, tableau=label, ckpt=ck[0], periods=periods, n=n, quantities={q.name: list(q.shape) for q in sp.quants}, arch=arch)
    runs = 1 if kind != "history" else int(rng.integers(2, 4))
    for r in range(runs):
        if r:
            t0, y0, p = random_state(rng, sp)
        log.clear()
        try:
            rig.run(t0, y0, p)
        except GAVE_UP:
            raise Skip("controller gave up") from None
        events = list(log)
        hs = [e["t1"] - e["t0"] for e in events if e["when"] == "after"]
        steps, _, _ = rig.ref(t0, y0, p, hs)
        ref = [(t0, y0)] + [(s.t + s.h, s.y1) for s in steps]
        fi = rig.flat_index()
        for f, w in zip(files, periods):
            audit(mon, f, w, sp, names, events, fi, tab.is_embedded, ref, measure, f"run {r} period {w} ({ck[0]})")
            mon.distinct(kind, w, len(names), n, ck[0])
        if kind in ("history", "adaptive") and ck[1] is not NoCheckpointer:
            op = str(rng.choice(["fwd", "rev", "rev"]))
            if op == "fwd":
                rig.fwd(rng.normal(size=1 + sp.n + sp.m))
            else:
                rig.rev(rng.normal(size=1 + sp.n))
                mon.count("after_rev")
            for f, w in zip(files, periods):
                audit(mon, f, w, sp, names, events, fi, tab.is_embedded, ref, measure, f"after {op} product, period {w} ({ck[0]})",
                      exact=False)  # iterative stage solvers may repeat a step with rounding differences
        if kind == "reader":
            for f, w in zip(files, periods):
                check_reader(mon, rng, f, sp, ref, [0] + [k for k in range(1, n + 1) if k % w == 0], tab.is_embedded)
    for f in files:
        os.remove(f)
