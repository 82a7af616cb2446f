"""Cross-check of the prover: evaluates the hypotheses and both sides of every obligation it accepts on random inputs.
usage: python3-vt tools/selftest.py MODULE [NAMEPART]        prints disagreements"""
import importlib
import os
import random
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "pyvc"), os.path.join(V, "contracts")]
import contract as K
import prover as pv
importlib.import_module(sys.argv[1])
part = sys.argv[2] if len(sys.argv) > 2 else ""
for props, nm, f, fns, tier in K.REGISTRY:
    if f.__module__ != sys.argv[1] or part not in nm:
        continue
    c = K.C(nm)
    try:
        f(c)
    except K.Unsupported as e:
        print(nm, "unsupported", e)
        continue
    bad = set()
    tried = hit = 0
    names = set()
    for ob in c.ip.obl:
        if ob.kind == "race":
            continue
        tried += 1
        got = False
        t0 = time.time()
        for n in range(80):
            if time.time() - t0 > 3:
                break
            s = K.sample(c, ob, random.Random(repr(("self", n))), n)
            if s is None:
                continue
            try:
                ev = s[1]
                if ob.eq:
                    a, b = ev(ob.eq[0]), ev(ob.eq[1])
                    ok = (bool(a) == bool(b)) if isinstance(a, bool) or isinstance(b, bool) else abs(float(a) - float(b)) <= 1e-6 * max(1, abs(float(a)))
                else:
                    ok = bool(ev(ob.goal))
                got = True
                if not ok:
                    bad.add(ob.name)
            except (pv.Undef, ZeroDivisionError, OverflowError, TypeError, ValueError, RecursionError):
                pass
        hit += got
        if got:
            names.add(ob.name)
    print("%-60s %d obligations, %d evaluated%s" % (nm, tried, hit, "" if not bad else "  DISAGREE: %s" % sorted(bad)))
