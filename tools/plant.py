#!/usr/bin/env python3
"""plant.py SPEC.py... : turn a planted-bug specification into seeded/<id>/ and try it (development only).

A specification defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (C++), NP, SRCS, FLAGS, KIND."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import MACIS_INC, MACIS_DEFS, MACIS_LIBS

def sh(cmd, cwd, t=400):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def one(path):
    g = dict(NP=1, SRCS=[], FLAGS="", KIND="macis", ARGS="", PRE="", NEEDS="", BREAKS="")
    exec(open(path).read(), g)
    d = f"{VERIF}/seeded/{g['ID']}"
    wt = f"/tmp/plantwt.{os.getpid()}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        open(d + "/demo.cxx", "w").write(g["DEMO"].lstrip())
        c = open(f"{HERE}/demo/{'attic' if g['KIND'] == 'attic' else 'common'}.sh").read()
        c = c.replace("@INC@", " ".join(f'-I"$R/{x}"' for x in MACIS_INC)).replace("@DEFS@", " ".join("-D" + x for x in MACIS_DEFS)).replace("@LIBS@", " ".join(MACIS_LIBS))
        open(d + "/common.sh", "w").write(c)
        if g["KIND"] == "macis": shutil.copytree(f"{VERIF}/harness/shim", d + "/shim")
        open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exits 0 when the behaviour is right, non-zero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
FLAGS="{g['FLAGS']}"
{g["PRE"]}. "$D/common.sh"
build "$D/demo.cxx" {' '.join(g['SRCS'])}
run {g['NP']} {g['ARGS']}
""")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", wt)
        if a[0]: print(g["ID"], "DEMO FAILS ON CLEAN", a); return False
        for f, old, new in g["EDITS"]:
            s = open(f"{wt}/{f}").read()
            if s.count(old) != 1: print(g["ID"], "edit matches", s.count(old), "times:", old); return False
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        subprocess.check_call(f"git diff > {d}/patch.diff", shell=True, cwd=wt)
        b = sh(f"bash {d}/demo.sh", wt)
        if b[0] == 0 or b[0] == 3: print(g["ID"], "DEMO DOES NOT FAIL", b); return False
        env = f"PBT_REPO={wt} VERIF_SEED=1 "
        c = sh(f"{env} python3 {HERE}/check.py {g['PROP']} 2>&1 | tail -5", VERIF, 1000)
        caught = "VIOLATION" in c[1]
        print(g["ID"], "CAUGHT" if caught else "MISSED", "| demo:", b[1].strip().splitlines()[:1], "| check:", c[1].strip()[:600], flush=True)
        return caught
    finally:
        shutil.rmtree(wt, ignore_errors=True)

for p in sys.argv[1:]: one(p)
