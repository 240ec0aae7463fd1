"""Worker: runs its shard of cases, one JSON record per case."""

from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


def main():
    wd = sys.argv[1]
    cfg = json.load(open(os.path.join(wd, "plan.json")))
    out = open(os.path.join(wd, "results.jsonl"), "w")
    from rtm.core import (Mon, Violation, HarnessError, Skip, Budget, Planned, CaseTimeout,
                          case_rng, jsonable)
    from numpy.linalg import LinAlgError
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"rtm.props.{cfg['prop'].lower()}")
    devnull = open(os.devnull, "w")
    real_out = sys.stdout

    def on_alarm(*_):
        raise CaseTimeout("wall")

    def on_prof(*_):
        raise CaseTimeout("cpu")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_prof)
    repo = os.path.join(os.environ.get("RTM_REPO", "/repo"), "src")
    case_limit = getattr(mod, "CASE_LIMIT", 240)
    cpu_limit = getattr(mod, "CPU_LIMIT", 60)
    for kind, idx in cfg["plan"]:
        if time.time() > cfg["deadline"]:
            break
        mon = Mon()
        rec = {"kind": kind, "idx": idx}
        rng = case_rng(cfg["seed"], cfg["prop"], kind, idx)
        cdir = os.path.join(wd, "case")
        os.makedirs(cdir, exist_ok=True)
        os.chdir(cdir)
        sys.stdout = devnull
        tb = None
        with open(os.path.join(wd, "current.json"), "w") as f:
            json.dump([kind, idx], f)
        signal.alarm(case_limit)
        signal.setitimer(signal.ITIMER_PROF, cpu_limit)
        try:
            try:
                mod.run(kind, idx, rng, mon, cfg["tier"])
                rec["verdict"] = "held"
            finally:
                signal.alarm(0)
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Violation as e:
            rec.update(verdict="violated", key=e.key, message=str(e), data=jsonable(e.data))
            tb = traceback.format_exc()
        except Skip as e:
            rec.update(verdict="skipped", message=str(e))
        except CaseTimeout as e:
            tb = traceback.format_exc()
            in_sut = any(os.path.abspath(f.filename).startswith(repo)
                         for f in traceback.extract_tb(e.__traceback__))
            if e.args == ("cpu",) and in_sut:
                # ~1000 times the usual cost of a case, spent inside the library
                rec.update(verdict="violated", key="no-progress",
                           message=f"[no-progress] a call into the library used {cpu_limit} s of CPU without returning")
            else:
                rec.update(verdict="timeout", message=f"case watchdog ({e.args}) fired")
        except HarnessError as e:
            rec.update(verdict="error", message=f"harness: {e}\n{traceback.format_exc()[-1500:]}", foreign=e.foreign)
        except Budget as e:
            rec.update(verdict="violated", key="no-progress", message=f"[no-progress] {e}")
            tb = traceback.format_exc()
        except LinAlgError as e:
            # a random right-hand side happens to be singular at a stage
            rec.update(verdict="skipped", message=f"LinAlgError: {e}")
        except Exception as e:  # pylint: disable=broad-except
            frames = traceback.extract_tb(e.__traceback__)
            tb = traceback.format_exc()
            in_sut = any(os.path.abspath(f.filename).startswith(repo) for f in frames)
            if in_sut and not isinstance(e, (MemoryError, ImportError, Planned)):
                rec.update(verdict="violated", key="unexpected-exception",
                           message=f"[unexpected-exception] {type(e).__name__}: {str(e)[:300]}")
            else:
                rec.update(verdict="error", message=tb[-2500:])
                # refused by a third-party library while handling what the code under test built, or sizes, indices
                # and names handed out by it that do not fit together
                rec["foreign"] = isinstance(e, (IndexError, ValueError)) or bool(frames) and any(f"/{lib}/" in frames[-1].filename for lib in ("openmdao", "pyrevolve", "h5py")) and not isinstance(e, (MemoryError, ImportError, Planned))
        finally:
            sys.stdout = real_out
        if tb and rec["verdict"] == "violated":
            rec["traceback"] = tb[-4000:]
        rec["counters"] = mon.counters
        rec["sigs"] = sorted(mon.sigs)
        rec["info"] = jsonable(mon.info)
        rec["max_err"] = mon.max_err
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if cfg.get("verbose"):
            print(json.dumps(rec, indent=1))
        os.chdir(wd)


if __name__ == "__main__":
    main()
