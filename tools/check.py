#!/usr/bin/env python3
"""check.py <property> : build the property's harness against /repo and run it.

exit 0 held / 1 violated (VIOLATION line) / 2 could not decide (build failure, ...)."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, REPO, MACIS_INC, MACIS_DEFS, MACIS_LIBS

NCPU = os.cpu_count() or 4
MPI_ENV = dict(
    OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
    OMPI_MCA_pml="ob1", OMPI_MCA_rmaps_base_oversubscribe="1",
    OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false",
    OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
    OMPI_MCA_orte_base_help_aggregate="0",
    OPENBLAS_NUM_THREADS="1", OMPI_CXX="g++")
ASAN = ("detect_leaks=0:exitcode=98:abort_on_error=0:malloc_fill_byte=255:max_malloc_fill_size=4194304:"
        "max_free_fill_size=4194304:free_fill_byte=254:detect_odr_violation=0:alloc_dealloc_mismatch=0:"
        "allocator_may_return_null=1:handle_abort=1:symbolize=1:detect_stack_use_after_return=0")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def configure(src, dst, on):
    txt = open(src).read()
    def rep(m):
        return ("#define " + m.group(1)) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    txt = re.sub(r"#cmakedefine\s+(\w+)[^\n]*", rep, txt)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(txt)


def expand(pats):
    out = []
    for p in pats:
        if p.startswith("!"):
            bad = set(glob.glob(os.path.join(REPO, p[1:])))
            out = [o for o in out if o not in bad]
        else:
            out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def build(pid, cfg, bdir):
    gen = os.path.join(bdir, "gen")
    os.makedirs(gen)
    inc = ["-I" + gen, "-I" + os.path.join(VERIF, "harness")]
    flags = ["-std=" + cfg.get("std", "c++17"), cfg["opt"], "-g1", "-w", "-fopenmp", "-pthread"]
    if cfg["asan"]:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if cfg["np"]:
        flags += ["-DPBT_MPI"]
    flags += ["-D" + d for d in cfg.get("defs", [])]
    flags += os.environ.get("PBT_CXXFLAGS", "").split()  # development only
    if cfg["kind"] == "macis":
        configure(f"{REPO}/include/macis/macis_config.hpp.in", f"{gen}/macis/macis_config.hpp",
                  cfg.get("macis_on", ["MACIS_ENABLE_MPI"]))
        configure(f"{REPO}/src/sparsexx/include/sparsexx/sparsexx_config.hpp.in",
                  f"{gen}/sparsexx/sparsexx_config.hpp", cfg.get("sparsexx_on", ["SPARSEXX_ENABLE_MPI"]))
        inc += [f"-I{VERIF}/harness/shim", f"-I{VERIF}/harness/shim/mdspan"]
        inc += [f"-I{REPO}/{d}" for d in MACIS_INC] + ["-I/usr/include/eigen3"]
        flags += ["-D" + d for d in MACIS_DEFS]
        libs, cxx = MACIS_LIBS, cfg.get("cxx", "mpicxx.openmpi")
    else:  # attic exact-diagonalisation library, as its own build file sets it up
        src = f"{REPO}/attic/inc/cmz_ed/CMZedConfig.h.in"
        configure(src, f"{gen}/cmz_ed/CMZedConfig.h", [])
        txt = re.sub(r"@\w+@", "0", open(f"{gen}/cmz_ed/CMZedConfig.h").read())
        open(f"{gen}/cmz_ed/CMZedConfig.h", "w").write(txt)
        inc += [f"-I{gen}/cmz_ed", f"-I{REPO}/attic/inc", f"-I{REPO}/attic/external/lobpcgxx/include",
                f"-I{REPO}/attic/external/sparsexx/include", "-I/usr/include/eigen3"]
        flags += ["-include", "memory", "-include", "optional"]
        libs, cxx = ["-llapackpp", "-lblaspp", "-llapack", "-lblas", "-lmetis", "-latomic"], "g++"
        inc += ["-I/usr/lib/x86_64-linux-gnu/mpich/include"]  # its MPI wrapper needs MPICH's constants
        libs += ["-L/usr/lib/x86_64-linux-gnu/mpich/lib", "-lmpich"]
    units = [os.path.join(VERIF, "harness", s) for s in cfg["srcs"]]
    main = os.path.join(bdir, "main.cxx")
    open(main, "w").write("#define PBT_MAIN\n#include \"pbt.hpp\"\n")
    units.append(main)
    if cfg["asan"]:
        units.append(os.path.join(VERIF, "harness", "blasguard.cxx"))
    units += expand(cfg["repo_srcs"])
    env = dict(os.environ, OMPI_CXX="g++")
    procs = []
    def cc(u):
        o = os.path.join(bdir, re.sub(r"\W", "_", u) + ".o")
        r = subprocess.run([cxx] + flags + inc + ["-c", u, "-o", o], env=env, capture_output=True, text=True)
        return u, o, r.returncode, r.stderr
    def compile_all(units):
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(cc, units))
        for u, o, rc, err in res:
            if rc:
                k = err.find("error:")
                log(f"BUILD FAILED: {u}\n{err[max(0, k - 300):k + 2500]}")
                return None
        return [x[1] for x in res]
    objs = compile_all(units)
    if objs is None:
        return None
    exe = os.path.join(bdir, "t")
    def link(extra):
        return subprocess.run([cxx] + flags + objs + extra + cfg.get("link", []) + ["-o", exe] + libs, env=env,
                              capture_output=True, text=True)
    r = link([])
    if r.returncode and "undefined reference" in r.stderr:
        # a function may have moved to another file of the library: offer all of them
        rest = expand(["src/macis/*.cxx"] if cfg["kind"] == "macis" else [])
        more = compile_all([u for u in rest if u not in units])
        if more:
            lib = os.path.join(bdir, "rest.a")
            subprocess.run(["ar", "rcs", lib] + more, check=True)
            r = link([lib])
    if r.returncode:
        log("LINK FAILED\n" + r.stderr[-6000:])
        return None
    return exe


def run_cmd(cfg, exe, args, bdir, timeout, tag, retry=False, reuse=False):
    # reuse: freed memory is handed out again at once, so that state kept per address shows up
    env = dict(os.environ)
    env.update(MPI_ENV)
    env["OMP_NUM_THREADS"] = str(cfg["omp"])
    env["ASAN_OPTIONS"] = ASAN + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if reuse else "")
    env["MALLOC_PERTURB_"] = "" if cfg["asan"] else "127"
    if not env["MALLOC_PERTURB_"]:
        del env["MALLOC_PERTURB_"]
    cwd = os.path.join(bdir, "cwd." + tag)
    os.makedirs(cwd, exist_ok=True)
    env["TMPDIR"] = cwd
    cmd = [exe] + args
    if cfg["np"]:
        env["TMPDIR"] = cfg["_mpitmp"] + "/" + tag  # one each: session directories race
        os.makedirs(env["TMPDIR"], exist_ok=True)
        cmd = ["mpirun.openmpi", "-n", str(cfg["np"]), "--oversubscribe"] + cmd
    so, se = open(os.path.join(bdir, tag + ".stdout"), "wb"), open(os.path.join(bdir, tag + ".stderr"), "wb")
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=so, stderr=se, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    so.close(); se.close()
    shutil.rmtree(cwd, ignore_errors=True)
    if cfg["np"]:
        shutil.rmtree(env["TMPDIR"], ignore_errors=True)
        if rc not in (0, "timeout") and not retry and "orte_init" in tail(os.path.join(bdir, tag + ".stderr"), 20000):
            return run_cmd(cfg, exe, args, bdir, timeout, tag, True, reuse)  # the launcher failed, not the program
    return rc


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d[-n:].decode("utf8", "replace")
    except OSError:
        return ""


def read_log(path):
    try:
        d = open(path, "rb").read()
    except OSError:
        return None
    if d[:7] != b"PBTLOG1":
        return None
    test = d[8:128].split(b"\0")[0].decode()
    case, n, _, inc = struct.unpack("<4Q", d[128:160])
    n = min(n, 1 << 20)
    return dict(test=test, case=case, choices=list(struct.unpack("<%dQ" % n, d[160:160 + 8 * n])), in_case=inc)


def write_replay(path, test, seed, case, msg, choices):
    with open(path, "w") as f:
        f.write("pbt-replay 1\ntest %s\nseed %s\ncase %s\nmessage %s\ninput %s\nchoices %d\n" %
                (test, seed, case, msg.replace("\n", " ")[:1500], "", len(choices)))
        f.write(" ".join(map(str, choices)) + "\n")


class Replayer:
    def __init__(self, cfg, exe, bdir):
        self.cfg, self.exe, self.bdir, self.k = cfg, exe, bdir, 0
    def fails(self, path, timeout=120, hang=40, reuse=False):
        self.k += 1
        tag = "rep%d" % self.k
        rc = run_cmd(self.cfg, self.exe, ["--replay", path, "--hang", str(hang)], self.bdir, timeout, tag, reuse=reuse)
        out, err = tail(f"{self.bdir}/{tag}.stdout"), tail(f"{self.bdir}/{tag}.stderr", 20000)
        for s in ("stdout", "stderr"):
            try: os.remove(f"{self.bdir}/{tag}.{s}")
            except OSError: pass
        if rc == 0:
            return None
        if rc == 2 and "PBT-HANG" not in err:
            return None
        m = re.search(r"^message (.*)$", out, re.M)
        return m.group(1) if m else crash_msg(rc, err)


def crash_msg(rc, err):
    if "PBT-HANG" in err or rc == "timeout":
        return "no progress (hang or deadlock)"
    m = re.search(r"ERROR: AddressSanitizer:[^\n]*", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        fr = [x for x in fr if "/repo/" in x][:2] or fr[:2]
        return (m.group(0) + " " + " < ".join(fr))[:700]
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", err)
    if m:
        return "terminated: " + m.group(0).replace("\n", " ")
    return f"crash, exit status {rc}: {err[-300:]}"


def shrink_crash(rp, path, test, seed, case, choices, budget=60):
    t0 = time.time()
    best = choices
    tmp = path + ".cand"
    def ok(c):
        if time.time() - t0 > budget: return False
        write_replay(tmp, test, seed, case, "", c)
        return rp.fails(tmp, timeout=60, hang=20) is not None
    k = max(1, len(best) // 2)
    while k >= 1 and time.time() - t0 < budget:
        i = 0
        while i < len(best) and time.time() - t0 < budget:
            c = best[:i] + best[i + k:]
            if len(c) < len(best) and ok(c): best = c
            else: i += k
        k //= 2
    for i in range(len(best)):
        if time.time() - t0 > budget: break
        for v in (0, best[i] // 2, best[i] - 1):
            if 0 <= v < best[i]:
                c = list(best); c[i] = v
                if ok(c):
                    best = c
                    break
    try: os.remove(tmp)
    except OSError: pass
    return best


class History:
    """A failure that needs earlier cases in the same process (state kept between calls):
    the cases the worker ran, cut down to few that still fail together."""
    def __init__(self, rp, bdir, v, tier, seed, only):
        self.rp, self.v, self.seed = rp, v, seed
        self.path = f"{bdir}/history{v['worker']}.{rp.k}.replay"
        args = ["--plan", "--mult", str(rp.cfg["mult"].get(tier, 1))]
        if tier == "thorough": args.append("--thorough")
        if only: args += ["--test", only]
        run_cmd(rp.cfg, rp.exe, args, rp.bdir, 60, "plan")
        plan = re.findall(r"^PLAN (\S+) (\d+)$", open(f"{rp.bdir}/plan.stdout").read(), re.M)
        self.all = []
        for t, n in plan:
            last = t == v["test"]
            self.all += [(t, i) for i in range(v["worker"], v["case"] + 1 if last else int(n), v["nworkers"])]
            if last: break
    def write(self, cs, msg=""):
        runs = []
        for t, i in cs:
            if runs and runs[-1][0] == t and (runs[-1][3] == 1 or i == runs[-1][1] + runs[-1][2] * runs[-1][3]):
                if runs[-1][3] == 1: runs[-1][2] = max(1, i - runs[-1][1])
                if i == runs[-1][1] + runs[-1][2] * runs[-1][3]:
                    runs[-1][3] += 1
                    continue
            runs.append([t, i, 1, 1])
        with open(self.path, "w") as f:
            f.write(f"pbt-history 1\nseed {self.seed}\nmessage {msg}\n")
            for r in runs: f.write("run %s %d %d %d\n" % tuple(r))
    def fails(self, cs, timeout=120):
        self.write(cs)
        return self.rp.fails(self.path, timeout=timeout, reuse=self.v["worker"] % 2 == 1)
    def find(self, budget):
        t0 = time.time()
        k, n = 1, len(self.all)
        while True:
            best = self.all[n - min(k, n):]
            if self.fails(best, max(30, budget - (time.time() - t0))): break
            if k >= n or time.time() - t0 > budget: return None
            k *= 4
        # leave out what is not needed, the failing case stays last
        k = (len(best) - 1 + 1) // 2
        while k >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(best) - 1 and time.time() - t0 < budget:
                c = best[:i] + best[min(i + k, len(best) - 1):]
                if self.fails(c, 60): best = c
                else: i += k
            k //= 2
        ok = 0
        for _ in range(3):
            m = self.fails(best)
            ok += m is not None
            if m: self.v["msg"] = m
        if ok < 3: return None
        self.write(best, self.v["msg"].replace("\n", " ")[:1000])
        self.v["input"] = f"history of {len(best)} case(s) in one process; " + self.v["input"]
        return self.path


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) probe=(\w+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--test") + 1] if "--test" in sys.argv else None
    keep = "--keep" in sys.argv
    parts = PROPS[pid]
    if isinstance(parts, dict): parts = [parts]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", "%s.%d" % (pid, os.getpid()))
    for i, cfg in enumerate(parts):
        cfg["_mpitmp"] = "/tmp/pbt.%d.%d" % (os.getpid(), i)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        return go(pid, tier, seed, only, parts, t0, bdir, rdir)
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
            for cfg in parts: shutil.rmtree(cfg["_mpitmp"], ignore_errors=True)
        else:
            log("kept " + bdir)


def run_part(cfg, exe, bdir, tier, seed, only, per, viol, notes, nws):
    np = cfg["np"]
    nw = cfg["workers"] or (max(1, NCPU // np) if np else NCPU)
    nws.append(nw)
    cap = cfg["cap"][tier]
    hang = cfg.get("hang", 60)

    def worker(w):
        args = ["--seed", str(seed), "--worker", str(w), "--nworkers", str(nw), "--cap", str(cap),
                "--mult", str(cfg["mult"].get(tier, 1)), "--hang", str(hang),
                "--shrink", "25", "--out", f"{bdir}/w{w}.json", "--log", f"{bdir}/w{w}.log"]
        if tier == "thorough": args.append("--thorough")
        if only: args += ["--test", only]
        rc = run_cmd(cfg, exe, args, bdir, cap + 200, f"w{w}", reuse=w % 2 == 1)
        return w, rc

    with ThreadPoolExecutor(nw) as ex:
        rcs = list(ex.map(worker, range(nw)))
    for w, rc in rcs:
        try:
            J = json.load(open(f"{bdir}/w{w}.json"))
        except (OSError, ValueError):
            J = None
        if J:
            for t, s in J["tests"].items():
                d = per.setdefault(t, dict(rule=s["rule"], planned=0, cases=0, discards=0, ms=0, nontrivial=set(),
                                           labels={}, samples=[]))
                for k in ("planned", "cases", "discards", "ms"): d[k] += s[k]
                d["nontrivial"] |= set(s["nontrivial"])
                for k, v in s["labels"].items(): d["labels"][k] = d["labels"].get(k, 0) + v
                d["samples"] += s["samples"]
            if J["capped"]: notes.append(f"worker {w} reached its time cap")
            if J["failed"]:
                viol.append(dict(test=J["test"], msg=J["message"], input=J["input"], case=J["case"],
                                 replay=J["replay"], crash=False, worker=w, nworkers=nw))
        else:
            err = tail(f"{bdir}/w{w}.stderr", 200000)
            L = read_log(f"{bdir}/w{w}.log")
            if L is None or not L["test"]:
                log(f"worker {w} died before its first case (rc={rc})\n" + err[-3000:])
                return False
            # the in-process shrinker may already have saved a failing case
            cand = f"{bdir}/w{w}.json.replay"
            msg = crash_msg(rc, err)
            if os.path.exists(cand) :
                m = re.search(r"^message (.*)$", open(cand).read(), re.M)
                n = re.search(r"^input (.*)$", open(cand).read(), re.M)
                viol.append(dict(test=L["test"], msg=m.group(1) if m else msg, input=n.group(1) if n else "", case=L["case"], replay=cand, crash=False, worker=w, nworkers=nw))
            else:
                path = f"{bdir}/w{w}.crash.replay"
                write_replay(path, L["test"], seed, L["case"], msg, L["choices"])
                viol.append(dict(test=L["test"], msg=msg, input="", case=L["case"], replay=path, crash=True,
                                 choices=L["choices"], worker=w, nworkers=nw))
    return True


def go(pid, tier, seed, only, parts, t0, bdir, rdir):
    dirs = [os.path.join(bdir, "p%d" % i) for i in range(len(parts))]
    with ThreadPoolExecutor(len(parts)) as ex:
        exes = list(ex.map(lambda x: build(pid, *x), zip(parts, dirs)))
    if not all(exes):
        return 2
    tb = time.time() - t0
    per, viol, notes, nws = {}, [], [], []
    reps = [Replayer(c, e, d) for c, e, d in zip(parts, exes, dirs)]
    for cfg, exe, d, rp in zip(parts, exes, dirs, reps):
        n = len(viol)
        if not run_part(cfg, exe, d, tier, seed, only, per, viol, notes, nws):
            return 2
        for v in viol[n:]: v["rp"] = rp
    known_probes = known(pid)
    # confirm
    confirmed = []
    for v in sorted(viol, key=lambda v: (v["crash"], os.path.getsize(v["replay"]))):
        if confirmed or time.time() - t0 > 700: break
        good = 0
        tries = 3
        k = 0
        while k < tries:
            k += 1
            m = v["rp"].fails(v["replay"], reuse=v["worker"] % 2 == 1)
            if m: good += 1; v["msg"] = m
            if good == 3: break
            if k == 3 and 0 < good: tries = 9
        if good >= 3:
            if v["crash"] and time.time() - t0 < 500:
                best = shrink_crash(v["rp"], v["replay"], v["test"], seed, v["case"], v["choices"])
                alt = v["replay"] + ".min"
                write_replay(alt, v["test"], seed, v["case"], v["msg"], best)
                m = v["rp"].fails(alt)
                if m:
                    v["replay"] = alt
                    v["msg"] = m
            final = os.path.join(rdir, f"{pid}-{v['test']}-{seed}-{v['case']}.replay")
            shutil.copyfile(v["replay"], final)
            v["final"] = final
            confirmed.append(v)
        else:
            notes.append(f"failure in {v['test']} case {v['case']} did not reproduce ({good}/{k} replays): {v['msg'][:300]}")
            log("UNCONFIRMED " + notes[-1])
    # failures that depend on what the process did before
    for v in viol[:3]:
        if confirmed or time.time() - t0 > 500: break
        p = History(v["rp"], bdir, v, tier, seed, only).find(90)
        if p:
            final = os.path.join(rdir, f"{pid}-{v['test']}-{seed}-{v['case']}.replay")
            shutil.copyfile(p, final)
            v["final"] = final
            confirmed.append(v)
    # known findings: each has its own probe in the harness
    for probe, what in known_probes:
        p = f"{bdir}/known_{probe}.replay"
        write_replay(p, "known_" + probe, 0, 0, "", [])
        if any(rp.fails(p) is not None for rp in reps):
            print(f"KNOWN-FINDING: property={pid} {what}", flush=True)
        else:
            notes.append(f"known finding {probe} no longer fails")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(d["cases"] for d in per.values()),
                  distinct_nontrivial=sum(len(d["nontrivial"]) for d in per.values()),
                  rule="; ".join(f"{t}: {d['rule']}" for t, d in per.items()),
                  samples=[f"{t}: {s}" for t, d in per.items() for s in d["samples"][:2]][:40],
                  per_test={t: dict(planned=d["planned"], cases=d["cases"], discarded=d["discards"],
                                    distinct_nontrivial=len(d["nontrivial"]), labels=d["labels"], cpu_ms=d["ms"])
                            for t, d in per.items()},
                  processes_per_case=[c["np"] or 1 for c in parts], workers=nws, notes=notes, build_s=round(tb, 1)),
              assumptions=["double precision arithmetic with the stated tolerances"] +
                          (["mdspan stand-in of /verif/harness/shim"] if any(c["kind"] == "macis" for c in parts) else []),
              wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    tot = ev["coverage"]
    print(f"{pid}: {tot['evaluations']} cases, {tot['distinct_nontrivial']} distinct non-trivial, "
          f"build {tb:.0f}s, total {ev['wall_s']}s", flush=True)
    if "-v" in sys.argv:
        for t, d in per.items():
            print("  %-34s planned %6d cases %6d disc %5d nontriv %6d cpu %6dms %s" % (
                t, d["planned"], d["cases"], d["discards"], len(d["nontrivial"]), d["ms"], d["labels"]))
        for n in notes: print("  note:", n)
    for v in confirmed:
        print(f"  test {v['test']} case {v['case']}: {v['msg'][:1500]}")
        print(f"  input: {v['input'][:1500]}")
        print(f"VIOLATION property={pid} replay={v['final']}", flush=True)
    return 1 if confirmed else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # never let a Python error look like a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
