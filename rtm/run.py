"""Parent process of a check: shards cases over workers, merges, decides."""

from __future__ import annotations

import argparse
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from rtm.core import VERIF


def load_known(prop):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[len("known: "):].split(None, 2)
                if parts[0] == f"property={prop}" and len(parts) >= 2 and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--kind", help="only this case kind")
    a = ap.parse_args()
    prop = a.prop
    mod = importlib.import_module(f"rtm.props.{prop.lower()}")
    t0 = time.time()
    if a.replay:
        rec = json.load(open(a.replay))
        a.seed, a.tier = rec["seed"], rec["tier"]
        plan = [(rec["kind"], rec["idx"])]
    else:
        plan = []
        for kind, (nq, nt) in mod.KINDS.items():
            if a.kind and kind != a.kind:
                continue
            n = nq if a.tier == "quick" else nt
            n = max(1, int(round(n * a.scale)))
            plan += [(kind, i) for i in range(n)]
        # interleave so that a budget stop cuts all kinds proportionally
        sizes = {}
        for k, _ in plan:
            sizes[k] = sizes.get(k, 0) + 1
        plan.sort(key=lambda ki: (ki[1] / sizes[ki[0]], ki[0]))
    budget = getattr(mod, "BUDGET", {}).get(a.tier, 420 if a.tier == "quick" else 3000)
    nw = a.workers or min(getattr(mod, "WORKERS", 6), max(1, len(plan)), os.cpu_count() or 1)
    # A scratch folder per run; everything the workload writes stays inside.
    scratch = tempfile.mkdtemp(prefix=f"rtm-{prop}-")
    records, dead = [], []
    try:
        import signal
        procs = []

        def launch(w, shard):
            wd = os.path.join(scratch, f"w{w}")
            os.makedirs(wd)
            with open(os.path.join(wd, "plan.json"), "w") as f:
                json.dump({"prop": prop, "tier": a.tier, "seed": a.seed, "plan": shard,
                           "deadline": t0 + budget, "verbose": bool(a.replay)}, f)
            env = dict(os.environ)
            env["OMPI_MCA_ess_singleton_isolated"] = "1"
            env["TMPDIR"] = wd
            env["OPENMDAO_WORKDIR"] = wd
            log = open(os.path.join(wd, "log"), "w")
            p = subprocess.Popen([sys.executable, "-m", "rtm.worker", wd], cwd=wd, env=env,
                                 stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, wd, shard))

        for w in range(nw):
            launch(w, plan[w::nw])
        hard = t0 + budget + 300
        crashes = 0
        i = 0
        while i < len(procs):
            p, wd, shard = procs[i]
            i += 1
            why = None
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                why = "hard timeout"
            res = os.path.join(wd, "results.jsonl")
            done = []
            if os.path.exists(res):
                for line in open(res):
                    try:
                        done.append(json.loads(line))
                    except ValueError:
                        pass
            records += done
            if p.returncode != 0 and why is None:
                tail = open(os.path.join(wd, "log"), errors="replace").read()[-3000:]
                why = f"exit {p.returncode}: {tail}"
                cur = os.path.join(wd, "current.json")
                if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS) and os.path.exists(cur):
                    kind, idx = json.load(open(cur))
                    records.append({"kind": kind, "idx": idx, "verdict": "violated", "key": "process-crash",
                                    "message": f"[process-crash] the interpreter died with signal {-p.returncode}: {tail[-400:]}",
                                    "counters": {}, "sigs": [], "info": {}})
                    why = None
                    crashes += 1
                    seen = {(r["kind"], r["idx"]) for r in done} | {(kind, idx)}
                    rest = [ki for ki in shard if tuple(ki) not in seen]
                    if rest and crashes <= 12:
                        launch(len(procs), rest)
            if why:
                dead.append((wd, why))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(prop)
    counters, sigs, samples, max_err = {}, set(), [], {}
    by = {}
    for r in records:
        by.setdefault(r["verdict"], []).append(r)
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r["sigs"])
        for k, v in r.get("max_err", {}).items():
            max_err[k] = max(max_err.get(k, 0.0), v)
    per_kind = {}
    for r in records:
        d = per_kind.setdefault(r["kind"], {})
        d[r["verdict"]] = d.get(r["verdict"], 0) + 1
    for kind in mod.KINDS:
        ok = [r for r in records if r["kind"] == kind and r["verdict"] == "held" and r.get("info")]
        for r in ok[:2]:
            samples.append({"kind": kind, "idx": r["idx"], **r["info"]})
    foreign = [r for r in by.get("error", []) if r.get("foreign")]
    if len(foreign) > 0.01 * len(plan):
        # not an isolated mishap: legitimate use breaks down inside OpenMDAO & co.
        for r in foreign:
            r.update(verdict="violated", key="unusable", message="[unusable] " + r["message"].strip().splitlines()[-1], traceback=r["message"])
            by["error"].remove(r)
            by.setdefault("violated", []).append(r)
    viol, knownhits = [], {}
    for r in by.get("violated", []):
        if r["key"] in known:
            knownhits.setdefault(r["key"], r)
        else:
            viol.append(r)
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "exploration")
    evid = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": level,
        "coverage": {
            "evaluations": len([r for r in records if r["verdict"] in ("held", "violated")]),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:8],
            "planned_cases": len(plan),
            "verdicts_by_kind": per_kind,
            "monitor_events": {k: v for k, v in sorted(counters.items())},
            "worst_deviation_over_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(max_err.items())},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evid, f, indent=1)
    for key, r in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[key]}")
    print(f"{prop} tier={a.tier} seed={a.seed}: {len(records)}/{len(plan)} cases, "
          f"{ {k: len(v) for k, v in by.items()} }, checks={counters.get('checks', 0)}, "
          f"distinct={len(sigs)}, wall={wall:.1f}s")
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for r in viol:
            if r["key"] in seen and len(seen) >= 1:
                continue
            seen.add(r["key"])
            path = os.path.join(rd, f"{prop}-{r['kind']}-{r['idx']}-s{a.seed}.json")
            with open(path, "w") as f:
                json.dump({"prop": prop, "tier": a.tier, "seed": a.seed, "kind": r["kind"],
                           "idx": r["idx"], "key": r["key"], "message": r["message"],
                           "data": r.get("data"), "info": r.get("info"),
                           "traceback": r.get("traceback"),
                           "replay_cmd": f"bash check.sh {prop} --replay {path}"}, f, indent=1)
            print(f"  {r['kind']}#{r['idx']} {r['message']}"[:600])
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    bad = False
    for r in by.get("error", [])[:5] + by.get("timeout", [])[:5]:
        print(f"INCONCLUSIVE {r['kind']}#{r['idx']}: {r['message']}"[:1500])
    for wd, why in dead:
        print(f"INCONCLUSIVE worker {wd}: {why}")
        bad = True
    # isolated undecided cases are reported but do not void the run
    if len(by.get("error", [])) + len(by.get("timeout", [])) > 0.01 * len(plan):
        bad = True
    held = len(by.get("held", []))
    if a.replay:
        sys.exit(0 if held and not bad else 3)
    if not a.kind:
        need = {"checks": 1, **getattr(mod, "MIN_EVENTS", {})}
        for k, v in need.items():
            if counters.get(k, 0) < v:
                print(f"INCONCLUSIVE monitor event '{k}' seen {counters.get(k, 0)} < {v} times")
                bad = True
        if held < 0.25 * len(plan):
            print(f"INCONCLUSIVE only {held} of {len(plan)} cases decided")
            bad = True
    sys.exit(3 if bad else 0)


if __name__ == "__main__":
    main()
