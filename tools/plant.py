#!/usr/bin/env python3
"""Plants bugs: python3 tools/plant.py BUGS.py [id ...] [--notests] [--nocheck]

BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, what)]. For each one a scratch copy
of /repo gets the edits; the demo must pass on /repo and fail on the copy, the stable tests must pass on the copy;
seeded/<id>/ is then written, and the property's quick check is run against the copy.
"""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = open(os.path.join(VERIF, "tools", "demo_common.py")).read()
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0: the property held on this input
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
SRC = os.environ.get("FOXES_REPO", "/repo")


def sh(cmd, cwd, env=None, t=1500):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)[-2000:]


def one(b, tests, check):
    tmp = f"/tmp/w/plant/{b['id']}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs("/tmp/w/plant", exist_ok=True)
    subprocess.run(["cp", "-a", SRC, tmp], check=True)
    out = []
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"EDIT-FAILED {f}: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", tmp)
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(COMMON + "\n# ---- " + b["needs"].replace("\n", " ") + "\n" + b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0, o0 = sh(f"bash {d}/demo.sh", SRC, t=300)
        r1, o1 = sh(f"bash {d}/demo.sh", tmp, t=300)
        good = r0 == 0 and r1 not in (0, 124)
        out.append(f"demo {r0}/{r1}")
        if not good:
            return b["id"], f"DEMO-BAD unchanged={r0} patched={r1}\n{o0[-800:] if r0 else ''}\n{o1[-600:]}"
        if tests:
            env = dict(PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONPATH=tmp, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
            rc, o = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --ignore=tests/1_verification/flappy_0_6/abl_states "
                       "tests/0_consistency/iterative tests/0_consistency/partial_wakes tests/1_verification/flappy_0_6 tests/1_verification/flappy_0_6_2 tests/3_examples", tmp, env)
            out.append("tests " + o.strip().splitlines()[-1][:60])
            if rc:
                shutil.rmtree(d)
                return b["id"], "TESTS-FAIL " + o[-800:]
        if check:
            for p in [b["prop"]] + b.get("also", []):
                rc, o = sh(f"./check {p} --tier quick", VERIF, dict(FOXES_REPO=tmp))
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                k = [l.strip() for l in o.splitlines() if l.strip().startswith("key:")]
                out.append(f"{p}: " + ("CAUGHT " + k[0][:90] if rc == 1 and v else f"*** MISSED rc={rc} {o[-200:] if rc not in (0,1) else ''}"))
        return b["id"], "; ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for i, r in ex.map(lambda b: one(b, "--notests" not in sys.argv, "--nocheck" not in sys.argv), bugs):
            print(f"{i}: {r}", flush=True)
