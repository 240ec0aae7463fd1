"""Runs parallel cases under mpirun; rank 0 judges what all ranks observed."""

from __future__ import annotations

import json
import os
import sys
import traceback
import warnings


def main():
    wd = sys.argv[1]
    real_err = sys.stderr
    sys.stdout = open(os.devnull, "w")
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    repo = os.path.join(os.environ.get("RTM_REPO", "/repo"), "src")

    def note(name, text):
        with open(os.path.join(wd, name), "w") as f:
            f.write(text)

    cur = ["import"]
    try:
        import numpy as np
        from rtm.core import Mon, Violation, HarnessError, Skip, Budget, jsonable
        from rtm import par_cases
        warnings.simplefilter("ignore")
        plan = json.load(open(os.path.join(wd, "plan.json")))
        out = open(os.path.join(wd, "results.jsonl"), "a") if comm.rank == 0 else None
        cdir = os.path.join(wd, "case")
        if comm.rank == 0:
            os.makedirs(cdir, exist_ok=True)
        comm.barrier()
        os.chdir(cdir)
        for item in plan["items"]:
            cur[0] = item
            if comm.rank == 0:
                note("current.json", json.dumps(item))
            rng = np.random.default_rng(item["seed"])
            obs = None
            status = "ok"
            try:
                obs = par_cases.execute(item["kind"], rng, comm, item["seed"][-1])
            except Skip as e:
                status = "skip:" + str(e)
            comm.barrier()
            all_obs = comm.gather((status, obs), root=0)
            if comm.rank == 0:
                mon = Mon()
                rec = {"item": item}
                try:
                    st = {s for s, _ in all_obs}
                    if any(s.startswith("skip") for s in st):
                        raise Skip(sorted(st)[-1])
                    par_cases.judge(item["kind"], np.random.default_rng(item["seed"]), comm.size, [o for _, o in all_obs], mon)
                    rec["verdict"] = "held"
                except Violation as e:
                    rec.update(verdict="violated", key=e.key, message=e.msg, data=jsonable(e.data))
                except Skip as e:
                    rec.update(verdict="skipped", message=str(e))
                except HarnessError as e:
                    rec.update(verdict="error", message=str(e))
                except Exception:
                    rec.update(verdict="error", message="judging: " + traceback.format_exc()[-1500:])
                rec["counters"], rec["sigs"], rec["max_err"], rec["info"] = mon.counters, sorted(mon.sigs), mon.max_err, jsonable(mon.info)
                out.write(json.dumps(rec) + "\n")
                out.flush()
        comm.barrier()
        if comm.rank == 0:
            note("done", "ok")
    except BaseException as e:  # one rank must not leave the others waiting
        frames = traceback.extract_tb(e.__traceback__)
        in_sut = any(os.path.abspath(f.filename).startswith(repo) for f in frames)
        harness = type(e).__name__ in ("HarnessError", "MemoryError", "ImportError", "ModuleNotFoundError", "KeyboardInterrupt", "SystemExit")
        note(f"fail.{comm.rank}.json", json.dumps({"item": cur[0], "in_sut": in_sut and not harness, "foreign": not harness and bool(frames) and "/openmdao/" in frames[-1].filename, "type": type(e).__name__,
                                                   "message": str(e)[:500], "traceback": traceback.format_exc()[-3000:]}))
        real_err.flush()
        comm.Abort(17)


if __name__ == "__main__":
    main()
