"""python harness/run.py PROPERTY --tier T --seed S --budget SECONDS --out OUT.json [--asan] [--replay FILE]
Runs the run-time contracts of one property against the code built from /repo.
exit 0 held / 1 violated (details in OUT.json) / other: error."""
import argparse
import faulthandler
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import build as B  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--out", required=True)
    ap.add_argument("--cur", default=None)
    ap.add_argument("--asan", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--hints", default=None)
    a = ap.parse_args()
    B.activate(B.ASAN if a.asan else None)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import core
    mod = importlib.import_module("p_" + a.property.lower())
    import implicit
    assert implicit.__file__.startswith(B.REPO + "/"), implicit.__file__
    res = {"property": a.property, "evaluations": 0, "nontrivial": 0, "samples": [], "violations": [], "cases": {}}

    class Hang(Exception):
        pass

    def on_alarm(sig, frm):
        raise Hang("the call did not return within the time limit")
    signal.signal(signal.SIGALRM, on_alarm)
    if a.replay:
        rp = json.load(open(a.replay))
        todo = [(rp["case"], rp["params"])]
    else:
        hints = json.load(open(a.hints)) if a.hints and os.path.exists(a.hints) else []
        consts = set(core.source_constants())
        for v in re.findall(r"(?<![\w.-])\d+(?![\w.])", json.dumps(hints)):   # integers of the counter-models
            if 2 <= int(v) <= 2000 and len(consts) < 200:
                consts.add(int(v))
        ctx = core.Ctx(a.seed, a.tier, sorted(consts), hints)
        ctx.asan = a.asan
        todo = mod.cases(ctx)
    t0 = time.time()
    seen = set()
    for name, params in todo:
        if time.time() - t0 > a.budget and not a.replay:
            res["budget_reached"] = True
            break
        if a.cur:
            with open(a.cur, "w") as f:
                json.dump({"case": name, "params": params}, f)
        res["evaluations"] += 1
        k = json.dumps([name, params], sort_keys=True)
        if k not in seen:
            seen.add(k)
            res["nontrivial"] += 1
        res["cases"][name] = res["cases"].get(name, 0) + 1
        if len(res["samples"]) < 6 and res["cases"][name] == 1:
            res["samples"].append({"case": name, "params": params})
        signal.alarm(240)
        try:
            mod.run(name, params)
        except core.Broken as e:
            res["violations"].append({"case": name, "params": params, "what": str(e)[:2000]})
        except Hang as e:
            res["violations"].append({"case": name, "params": params, "what": str(e)})
        except MemoryError:
            raise
        except Exception as e:  # the code under test raised where the contract says it returns
            tb = traceback.format_exc()
            if "/repo/" in tb or "implicit" in tb or "p_c" in tb:
                res["violations"].append({"case": name, "params": params,
                                          "what": "unexpected %s: %s" % (type(e).__name__, str(e)[:500]),
                                          "traceback": tb[-3000:]})
            else:
                raise
        finally:
            signal.alarm(0)
        if len(res["violations"]) >= 3:
            break
    res["wall_s"] = time.time() - t0
    res["known"] = sorted(getattr(mod, "KNOWN", ()))
    if a.cur and os.path.exists(a.cur):
        os.unlink(a.cur)
    with open(a.out, "w") as f:
        json.dump(res, f, default=str)
    sys.exit(1 if res["violations"] else 0)


if __name__ == "__main__":
    faulthandler.enable()
    main()
