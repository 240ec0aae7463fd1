"""C16: parallel runs give the same results on every rank and as in serial.

This module starts mpirun; it must not import mpi4py itself.
"""

import json
import os
import shutil
import signal
import subprocess
import sys
import time

from rtm.core import HarnessError, Skip, Violation

BATCH = 12
KINDS = {"ranks1": (1, 6), "ranks2": (14, 200), "ranks3": (8, 120), "ranks4": (7, 80)}
MIN_EVENTS = {"rank_logs": 100, "products": 100, "values": 100, "error_measures": 40, "written_steps": 20, "norms": 20, "jitter_points": 500}
WORKERS = 3
CASE_LIMIT = 900
BUDGET = {"quick": 420, "thorough": 3000}
STALL = 60
RULE = ("mpirun executions with 1-4 ranks: random ODEs whose quantities/parameters are duplicated, split over the ranks (balanced, random, empty parts, all on one rank, multi-dimensional) or live in a ParallelGroup; "
        "random rank-dependent delays inside stages and callbacks; sequences of runs, forward and reverse products, all checkpointing strategies, adaptive and fixed steps, parallel HDF5 output; rank 0 compares the "
        "per-rank event logs bit for bit and all parts with the serial reference; a run that makes no progress for a minute, twice, counts as hang; distinct = (kind, ranks, tableau, operations, splits)")
ASSUMPTIONS = ["ranks of one machine only", "OpenMDAO's convention (POEM 075) for products mixing distributed and duplicated variables"]
MIX = ["dist", "dist", "dist", "dist-adaptive", "dist-adaptive", "dist-norm", "dist-norm", "par", "par", "par-adaptive", "par-norm", "dist"]


def launch(ranks, items, wd, stall):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    with open(os.path.join(wd, "plan.json"), "w") as f:
        json.dump({"items": items}, f)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PMIX_", "OMPI_COMM", "OMPI_UNIVERSE")) and k != "OMPI_MCA_ess_singleton_isolated"}
    # the session folder needs a short path of its own
    env["TMPDIR"] = wd if len(wd) < 60 else "/tmp"
    log = open(os.path.join(wd, "log"), "w")
    p = subprocess.Popen(["mpirun", "-n", str(ranks), "--oversubscribe", "--bind-to", "none", sys.executable, "-W", "ignore", "-m", "rtm.mpi_worker", wd],
                         stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    last, size = time.time(), -1
    res = os.path.join(wd, "results.jsonl")
    hang = False
    try:
        while p.poll() is None:
            time.sleep(0.1)
            s = os.path.getsize(res) if os.path.exists(res) else -1
            if s != size:
                size, last = s, time.time()
            elif time.time() - last > stall:
                hang = True
                break
    finally:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGTERM)
                p.wait(timeout=10)
            except (ProcessLookupError, subprocess.TimeoutExpired):
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    recs = [json.loads(x) for x in open(res)] if os.path.exists(res) else []
    fails = [json.load(open(os.path.join(wd, f))) for f in sorted(os.listdir(wd)) if f.startswith("fail.")]
    cur = json.load(open(os.path.join(wd, "current.json"))) if os.path.exists(os.path.join(wd, "current.json")) else None
    done = os.path.exists(os.path.join(wd, "done"))
    tail = open(os.path.join(wd, "log"), errors="replace").read()[-1500:]
    shutil.rmtree(wd, ignore_errors=True)
    return recs, fails, cur, done, hang, tail, p.returncode


HUNG = []


def run(kind, idx, rng, mon, tier):
    if HUNG:
        raise Skip("a hang was already confirmed by this worker; each further one costs minutes")
    ranks = int(kind[5:])
    seeds = rng.integers(0, 2 ** 31, size=BATCH)
    items = [{"kind": MIX[i % len(MIX)], "seed": [ranks, int(idx), int(s)], "pos": i} for i, s in enumerate(seeds)]
    wd = os.path.abspath("mpi")
    todo = items
    undecided = 0
    while todo:
        recs, fails, cur, done, hang, tail, rc = launch(ranks, todo, wd, STALL)
        for r in recs:
            for k, v in r["counters"].items():
                mon.count(k, v)
            mon.sigs.update(r["sigs"])
            for k, v in r["max_err"].items():
                mon.max_err[k] = max(mon.max_err.get(k, 0.0), v)
            mon.note(**r["info"])
            mon.count("parallel_cases")
            if r["verdict"] == "violated":
                raise Violation(r["key"], f"{ranks} ranks, {r['item']}: {r['message']}", **(r["data"] or {}))
            if r["verdict"] == "error":
                raise HarnessError(f"{r['item']}: {r['message']}")
            if r["verdict"] == "skipped":
                mon.count("skipped_cases")
        if done:
            return
        bad = next((f for f in fails if f["in_sut"]), None)
        if bad:
            raise Violation("unexpected-exception", f"{ranks} ranks, {bad['item']}: {bad['type']}: {bad['message']}", traceback=bad["traceback"])
        if fails:
            err = HarnessError(f"{fails[0]['item']}: {fails[0]['type']} {fails[0]['message']}\n{fails[0]['traceback'][-1200:]}")
            err.foreign = bool(fails[0].get("foreign"))
            raise err
        if cur is None:
            undecided += 1
            if undecided > 2:
                raise HarnessError(f"mpirun does not start (exit {rc}): {tail}")
            continue
        if hang or rc != 0:
            # once more, alone
            r2 = launch(ranks, [cur], wd, 2 * STALL)
            if r2[4]:
                HUNG.append(cur)
                raise Violation("hang", f"{ranks} ranks, {cur}: no progress for {2 * STALL} s (twice)", log=r2[5])
            if not r2[3] and not r2[1] and r2[6] not in (0,):
                raise Violation("process-crash", f"{ranks} ranks, {cur}: exit {r2[6]}", log=r2[5])
            undecided += 1
            if undecided > 3:
                raise HarnessError(f"unstable parallel execution at {cur}: {tail}")
        pos = cur["pos"] + 1
        todo = items[pos:]
