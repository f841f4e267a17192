#!/usr/bin/env python3
"""Replays one reported counterexample against the compiled code: replay.py FILE."""
import sys, os, json, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check
v = json.load(open(sys.argv[1]))
s = tempfile.mkdtemp(prefix="vvr_")
try:
    env, renv = check.base_env(s)
    rep = check.substitute(v.get("subst") or [], s, "r")
    if rep is None:
        sys.exit("the constants this counterexample was found with are not there")
    b, err = check.build_native(v["group"], s, check.stand_env(renv, s, "r", v.get("stands")), rep, race=v["kind"] == "race")
    if not b:
        sys.exit(err)
    for k in range(60):
        rc, o, e, obs = check.run_native(b, v["entry"], v["inputs"], s, v["tier"], "r", seed=k, stress=k, race=v["kind"] == "race")
        kind, msg = check.classify(rc, o, e)
        if kind:
            print(o[-3000:], e[-6000:])
            print("reproduced:", kind, msg)
            sys.exit(1)
    print("not reproduced")
finally:
    shutil.rmtree(s, ignore_errors=True)
