#!/usr/bin/env python3
"""mutate.py PROP... [-n K] [-j J] [-s SEED]: small random changes to the code a property is anchored in (development only).

Every mutant is tried against the property's quick check; mutants that compile and are not reported are listed for inspection."""
import json, os, random, re, shutil, subprocess, sys, argparse, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ap = argparse.ArgumentParser()
ap.add_argument("props", nargs="+"); ap.add_argument("-n", type=int, default=12); ap.add_argument("-j", type=int, default=2); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default=""); ap.add_argument("-o", default="/tmp/mut.txt")
a = ap.parse_args()
ANCH = {}
for l in open(VERIF + "/properties.jsonl"):
    p = json.loads(l); ANCH[p["id"]] = p["anchors"]["files"]
OPS = [
    (r"(?<![\w+])\+(?![+=])", "-"), (r"(?<![-\w(,<= ])\s-\s(?![-=>])", " + "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="),
    (r"(?<=[\w) ])\*(?=[ \w(])", "+"), (r"\*=", "/="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r"==", "!="), (r"!=", "=="), (r"&&|\band\b", "||"), (r"\|\||\bor\b", "&&"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])0(?![\w.])", "1"),
    (r"\b1\.0?(?!\d)", "2."), (r"\b0\.5\b", "1."), (r"\b2\.0?(?!\d)", "1."), (r"\b4\.0?(?!\d)", "2."), (r"-1\.", "1."), (r"\bLower\b", "Upper"), (r"\bNoTrans\b", "Trans"), (r"\bTrans\b", "NoTrans"),
    (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bk\b", "l"), (r"\bl\b", "k"), (r"\bp\b", "q"), (r"\bq\b", "p"), (r"\ba\b", "b"), (r"\bb\b", "a"),
    (r"\balpha\b", "beta"), (r"alpha", "beta"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\babs\(", "("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bn\b", "m"), (r"\bm\b", "n"), (r"<<", ">>"), (r">>", "<<"), (r" \^ ", " | "), (r" & ", " | "), (r"\bnorb\b", "ninact"), (r"\bLDA\b", "LDB"), (r"~", ""), (r"\bnact\b", "ninact"), (r"\bnocc\b", "nvir"),
    (r"first", "second"), (r"second", "first"), (r"begin\(\)", "end()"), (r"\bsqrt\(", "("), (r"!(?=[\w(])", ""), (r"\bnot\b", ""),
]
def lines_of(s):
    out, blk, skip = [], False, 0
    for n, l in enumerate(s.split("\n")):
        t = l.strip()
        if blk:
            if "*/" in t: blk = False
            continue
        if t.startswith("/*"):
            blk = "*/" not in t
            continue
        if skip:
            if re.match(r"#\s*if", t): skip += 1
            if re.match(r"#\s*(endif|else)", t): skip -= 1
            continue
        if re.match(r"#\s*if 0", t): skip = 1; continue
        if t.startswith(("//", "#", "*", "template", "namespace", "using", "}", "logger", "size_t LD", "const size_t LD")) or len(t) < 6: continue
        if re.search(r"logger|throw|assert|cout|printf|_dur|_st =|_en =|include|static_assert|typename|fmt|clock", t): continue
        out.append(n)
    return out
def gen(rng, prop):
    files = [f for f in ANCH[prop] if (not a.f or a.f in f)]
    for _ in range(200):
        f = rng.choice(files)
        p = "/repo/" + f
        if not os.path.isfile(p): continue
        s = open(p).read(); L = s.split("\n")
        n = rng.choice(lines_of(s))
        l = L[n]
        code = l.split("//")[0]
        cand = []
        for pat, rep in OPS:
            for m in re.finditer(pat, code): cand.append((m.start(), m.end(), rep))
        st = code.strip()
        if st.endswith(";") and not re.match(r"(return|const|auto|size_t|int|double|unsigned|std::vector|break|using|typedef)", st) and rng.random() < .25:
            new = l[:len(l) - len(l.lstrip())] + ";"
        elif cand:
            x, y, rep = rng.choice(cand)
            new = l[:x] + rep + l[y:]
        else: continue
        if new == l: continue
        return f, n, l, new
seen = set()
def job(args):
    w, prop, f, n, old, new = args
    wt = f"/tmp/plantwt.m{os.getpid()}.{w}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    try:
        L = open(f"{wt}/{f}").read().split("\n"); L[n] = new; open(f"{wt}/{f}", "w").write("\n".join(L))
        try:
            r = subprocess.run(["python3", HERE + "/check.py", prop], env={**os.environ, "PBT_REPO": wt, "VERIF_SEED": "1"}, capture_output=True, text=True, timeout=1000)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: rc, out = 124, "timeout"
        if rc == 1 and "VIOLATION" in out: st = "caught"
        elif rc == 0: st = "SURVIVED"
        elif "error:" in out: st = "nocompile"
        else: st = "rc%d" % rc
        msg = f"{prop} {st:9} {f}:{n+1}: {old.strip()}  ==>  {new.strip()}"
        open(a.o, "a").write(msg + ("\n   " + out[-300:] if st.startswith("rc") else "") + "\n")
        return st
    finally: shutil.rmtree(wt, ignore_errors=True)
todo = []
for p in a.props:
    rng = random.Random(f"{p}{a.s}")
    c = 0
    while c < a.n:
        m = gen(rng, p)
        if not m: break
        if m in seen: continue
        seen.add(m); c += 1
        todo.append((len(todo), p) + m)
with cf.ThreadPoolExecutor(a.j) as ex: res = list(ex.map(job, todo))
print({s: res.count(s) for s in set(res)})
