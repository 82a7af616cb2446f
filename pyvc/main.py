"""python3-vt pyvc/main.py PROPERTY --tier T --budget S --out FILE

Runs every contract registered for the property against the current source under $VERIF_REPO (default /repo) and
writes the status of every obligation.  Each contract runs in its own process."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "contracts")]
sys.setrecursionlimit(20000)
import contract as K  # noqa: E402
import coverage_table  # noqa: E402


def one(entry, seconds, q, idx):
    props, name, f, fns, tier = entry
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    out = {"name": name, "obligations": [], "incomplete": [], "trusted": [], "functions": [], "assumptions": []}
    c = None
    try:
        c = K.C(name)
        K.pv.DEADLINE[0] = t0 + seconds * 0.6
        f(c)
        out["exec_s"] = round(time.time() - t0, 2)
        out["obligations"] = K.discharge(c, t0 + seconds)
        if not out["obligations"]:
            out["incomplete"].append("%s: no obligation was generated" % name)
        # a contract whose inputs cannot exist would prove everything
        out["vacuity"] = c.vacuity()
        if not out["vacuity"]["preconditions_satisfiable"]:
            out["incomplete"].append("%s: the preconditions were not shown to be satisfiable" % name)
    except K.Unsupported as e:
        out["incomplete"].append("%s: outside the dialect: %s" % (name, str(e)[:300]))
    except K.tm.Budget as e:
        out["incomplete"].append("%s: term size or time limit" % name)
    except (MemoryError, RecursionError) as e:
        out["incomplete"].append("%s: %s" % (name, type(e).__name__))
    except Exception:
        out["incomplete"].append("%s: verifier error: %s" % (name, traceback.format_exc()[-600:]))
    if c is not None:
        out["trusted"] = sorted(c.w.trusted)
        out["functions"] = sorted(c.w.inlined)
        out["assumptions"] = list(c.assumptions)
    q.put((idx, out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only")
    a = ap.parse_args()
    end = time.time() + a.budget
    cd = os.path.join(os.path.dirname(HERE), "contracts")
    for m in sorted(os.listdir(cd)):
        if m.endswith(".py") and m not in ("specs.py", "coverage_table.py"):
            importlib.import_module(m[:-3])
    todo = [e for e in K.REGISTRY if a.prop in e[0] and (a.tier == "thorough" or e[4] == "quick") and (not a.only or a.only in e[1])]
    q = mp.Queue()
    workers = int(os.environ.get("VERIF_JOBS", "6"))
    running, results, nxt = {}, {}, 0
    while len(results) < len(todo):
        while nxt < len(todo) and len(running) < workers:
            left = end - time.time()
            p = mp.Process(target=one, args=(todo[nxt], max(left - 5, 1), q, nxt))
            p.start()
            running[nxt] = p
            nxt += 1
        try:
            i, r = q.get(timeout=1)
            results[i] = r
            running.pop(i).join()
        except Exception:
            pass
        for i, p in list(running.items()):
            if not p.is_alive() and q.empty():
                time.sleep(.2)
                if q.empty():
                    running.pop(i)
                    results[i] = {"name": todo[i][1], "obligations": [], "incomplete": ["%s: the verifier process ended (status %s)" % (todo[i][1], p.exitcode)],
                                  "trusted": [], "functions": [], "assumptions": []}
            elif time.time() > end + 20:
                p.kill()
                running.pop(i)
                results[i] = {"name": todo[i][1], "obligations": [], "incomplete": ["%s: time budget exhausted" % todo[i][1]],
                              "trusted": [], "functions": [], "assumptions": []}
    import z3
    out = {"obligations": [], "trusted": set(), "assumptions": [], "incomplete": [], "functions": set(), "vacuity": {}, "z3": z3.get_version_string()}
    for i in sorted(results):
        r = results[i]
        out["obligations"] += r["obligations"]
        out["trusted"] |= set(r["trusted"])
        out["functions"] |= set(r["functions"])
        out["incomplete"] += r["incomplete"]
        out["assumptions"] += [x for x in r["assumptions"] if x not in out["assumptions"]]
        if "vacuity" in r:
            out["vacuity"][r["name"]] = r["vacuity"]
    out["assumptions"] = coverage_table.GENERAL + out["assumptions"]
    out["incomplete"] += coverage_table.RESIDUE.get(a.prop, [])
    out["trusted"] = sorted(out["trusted"])
    out["functions"] = sorted(out["functions"])
    with open(a.out, "w") as f:
        json.dump(out, f, indent=1, default=str)


if __name__ == "__main__":
    main()
