#!/usr/bin/env python3
"""Build the harness from /repo's working tree and run one property check.

run.py setup | check ID | replay ID FILE
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SRC = REPO + "/src/thunder"
ENG = V + "/engine"
BUILD = V + "/build"
DEPS = "/opt/thunder_deps/py/casadi"
DEFS = ["-std=gnu++17", "-DCASADI_WITH_THREAD", "-DCASADI_WITH_THREADSAFE_SYMBOLICS", "-DCASADI_SNPRINTF=snprintf"]
INC = ["-I" + SRC + "/library", "-I" + DEPS + "/include", "-I/usr/include/eigen3", "-I" + ENG, "-I" + REPO + "/src/genYAML/src", "-I" + REPO + "/src/genYAML/library"]
LINK = ["-L" + DEPS, "-Wl,-rpath," + DEPS, "-lcasadi", "-lyaml-cpp", "-lpthread", "-ldl"]
NCPU = os.cpu_count() or 8

# property -> (engine source with the property, variant, quick cases, thorough cases, tier time limits, per-case limit s)
CONF = json.load(open(V + "/checks.json"))


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        ds[:] = [x for x in ds if x not in ("build", "shim")]
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


VARIANTS = {
    "plain": (["-O0"], ["-O1"], []),
    "asan": (["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
             ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


class BuildError(Exception):
    pass


def compile_obj(cxx, flags, src, hkey):
    key = h(cxx, flags, src, rd(src), hkey)
    os.makedirs(BUILD + "/obj", exist_ok=True)
    o = f"{BUILD}/obj/{os.path.basename(src)}.{key}.o"
    if not os.path.exists(o):
        tmp = f"{o}.{os.getpid()}.tmp"
        r = run([cxx] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError(f"{src} does not compile:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.rename(tmp, o)
    else:
        os.utime(o)
    return o


def build(variant="plain"):
    """Returns the harness binary for the current tree."""
    repo_h = h(*[rd(f) for f in tree(SRC + "/library", (".h", ".hpp"))])
    gy_h = h(*[rd(f) for f in tree(REPO + "/src/genYAML", (".h", ".cpp"))])
    eng_h = h(repo_h, gy_h, *[rd(f) for f in tree(ENG, (".h",))])
    rflags, eflags, lflags = VARIANTS[variant]
    jobs = [("g++", DEFS + INC + rflags, f, repo_h) for f in tree(SRC + "/src", (".cpp",))]
    jobs += [("g++", DEFS + INC + eflags, f, eng_h) for f in tree(ENG, (".cpp",))]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(NCPU) as ex:
            # longest first
            jobs.sort(key=lambda j: -os.path.getsize(j[2]) - (10**6 if ENG in j[2] else 0))
            objs = list(ex.map(lambda j: compile_obj(*j), jobs))
        exe = f"{BUILD}/pbt_{variant}_{h(*sorted(objs), lflags)}"
        if not os.path.exists(exe):
            r = run(["g++"] + lflags + objs + ["-o", exe + ".tmp"] + LINK)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
            os.rename(exe + ".tmp", exe)
        prune(exe)
    return exe


def prune(keep):
    """keep the cache small: drop harness binaries and objects unused for long"""
    exes = sorted((f for f in os.listdir(BUILD) if f.startswith("pbt_") and not f.endswith(".tmp")), key=lambda f: os.path.getmtime(BUILD + "/" + f))
    for f in exes[:-8]:
        if BUILD + "/" + f != keep:
            os.remove(BUILD + "/" + f)
    objs = sorted((f for f in os.listdir(BUILD + "/obj")), key=lambda f: os.path.getmtime(BUILD + "/obj/" + f))
    for f in objs[:-160]:
        os.remove(BUILD + "/obj/" + f)


def build_fuzz():
    """the coverage-guided driver: the repository's sources instrumented for libFuzzer, the harness not"""
    repo_h = h(*[rd(f) for f in tree(SRC + "/library", (".h", ".hpp"))])
    gy_h = h(*[rd(f) for f in tree(REPO + "/src/genYAML", (".h", ".cpp"))])
    eng_h = h(repo_h, gy_h, *[rd(f) for f in tree(ENG, (".h",))])
    base = ["-O1", "-g", "-fno-omit-frame-pointer"]
    jobs = [("clang++", DEFS + INC + base + ["-fsanitize=fuzzer-no-link,address"], f, repo_h) for f in tree(SRC + "/src", (".cpp",))]
    jobs += [("clang++", DEFS + INC + base + ["-fsanitize=address"], f, eng_h) for f in tree(ENG, (".cpp",)) if not f.endswith("/main.cpp")]
    jobs += [("clang++", DEFS + INC + base + ["-fsanitize=address"], ENG + "/fuzz_main.cc", eng_h)]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(NCPU) as ex:
            jobs.sort(key=lambda j: -os.path.getsize(j[2]))
            objs = list(ex.map(lambda j: compile_obj(*j), jobs))
        exe = f"{BUILD}/fuzz_{h(*sorted(objs))}"
        if not os.path.exists(exe):
            r = run(["clang++", "-fsanitize=fuzzer,address"] + objs + ["-o", exe + ".tmp"] + LINK)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
            os.rename(exe + ".tmp", exe)
        for f in sorted((f for f in os.listdir(BUILD) if f.startswith("fuzz_")), key=lambda f: os.path.getmtime(BUILD + "/" + f))[:-2]:
            os.remove(BUILD + "/" + f)
    return exe


def fuzz(pid, c, env, work, secs, workers, kn, seed):
    """coverage-guided stage: libFuzzer mutates choice tapes; returns (statistics, tape files of failures)"""
    exe = build_fuzz()
    corpus = work + "/corpus"
    os.makedirs(corpus)
    rnd = __import__("random").Random(f"{pid} {seed}")
    for i in range(400):
        with open(f"{corpus}/seed{i}", "wb") as f:
            f.write(rnd.randbytes(4 * rnd.choice((100, 300, 1000, 3000))))
    end = time.time() + secs
    st = {"executions": 0, "discarded": 0, "nontrivial": 0, "comparisons": 0}
    fails, seen, rnds = [], set(), 0
    while time.time() < end - 20 and not fails:
        procs = []
        left = int(min(120, end - time.time()))
        for w in range(workers):
            out = f"{work}/z{rnds}.{w}"
            e = dict(env, PBT_FUZZ_ID=pid, PBT_FUZZ_SCRATCH=f"{work}/zs{w}", PBT_FUZZ_OUT=out, PBT_FUZZ_KNOWN=",".join(kn),
                     ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=64:allocator_may_return_null=1:max_allocation_size_mb=2000")
            cmd = [exe, f"-max_total_time={left}", "-max_len=20000", "-len_control=0", f"-timeout={c.get('limit', 150)}", "-rss_limit_mb=0", "-malloc_limit_mb=0",
                   "-reload=1", "-print_final_stats=0", f"-seed={seed * 1000 + rnds * 100 + w + 1}", f"-artifact_prefix={out}.", corpus]
            procs.append((out, subprocess.Popen(cmd, env=e, cwd=work, stdout=subprocess.DEVNULL, stderr=open(out + ".log", "w"))))
        for out, p in procs:
            try:
                p.wait(left + 2 * c.get("limit", 150))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):
                fails.append(out)
            if os.path.exists(out + ".stats"):
                l = open(out + ".stats").read().split()
                for k, v in zip(st, l[:4]):
                    st[k] += int(v)
                seen.update(l[4:])
        rnds += 1
    st["distinct_nontrivial"] = len(seen)
    st["corpus"] = len(os.listdir(corpus))
    return st, fails


TEMPLATE = "/usr/local/share/thunder_dynamics/thunder_robot_template"


def cli():
    """The thunder command line, compiled from the current tree; it reads its template from TEMPLATE (as build.sh arranges)."""
    want = SRC + "/thunder_robot_template"
    if os.path.realpath(TEMPLATE) != os.path.realpath(want):
        os.makedirs(os.path.dirname(TEMPLATE), exist_ok=True)
        if os.path.islink(TEMPLATE) or not os.path.exists(TEMPLATE):
            subprocess.run(["ln", "-sfnT", want, TEMPLATE], check=True)
        else:
            raise BuildError(TEMPLATE + " is not a link to the tree's template")
    repo_h = h(*[rd(f) for f in tree(SRC + "/library", (".h", ".hpp"))])
    jobs = [("g++", DEFS + INC + VARIANTS["plain"][0], f, repo_h) for f in tree(SRC + "/src", (".cpp",)) + [SRC + "/thunder_main.cpp"]]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda j: compile_obj(*j), jobs))
        exe = f"{BUILD}/thunder_{h(*sorted(objs))}"
        if not os.path.exists(exe):
            r = run(["g++"] + objs + ["-o", exe + ".tmp"] + LINK)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
            os.rename(exe + ".tmp", exe)
        for f in sorted((f for f in os.listdir(BUILD) if f.startswith("thunder_")), key=lambda f: os.path.getmtime(BUILD + "/" + f))[:-4]:
            os.remove(BUILD + "/" + f)
    return exe


def pch(variant):
    """precompiled headers for the generated classes (only speeds their compilation up)"""
    flags = ["-std=gnu++17", "-fPIC", "-fno-gnu-unique", "-O0"] + {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"], "tsan": ["-fsanitize=thread"]}.get(variant, [])
    src = ENG + "/shim/pch.h"
    d = f"{BUILD}/pch_{variant}_{h(rd(src), *flags)}"
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + "/pch.h.gch"):
            os.makedirs(d, exist_ok=True)
            shutil.copy(src, d + "/pch.h")
            r = run(["g++"] + flags + ["-x", "c++-header", d + "/pch.h", "-o", d + "/pch.tmp"])
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-4000:])
            os.rename(d + "/pch.tmp", d + "/pch.h.gch")
    return d + "/pch.h"


def genyaml():
    """the converter program, compiled from the current tree"""
    d = REPO + "/src/genYAML"
    hh = h(*[rd(f) for f in tree(d, (".h", ".hpp"))])
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs = [compile_obj("g++", ["-std=c++17", "-O0", "-I" + d, "-I/usr/include/eigen3"], f, hh) for f in [d + "/main_YAML.cpp"] + tree(d + "/src", (".cpp",))]
        exe = f"{BUILD}/genyaml_{h(*sorted(objs))}"
        if not os.path.exists(exe):
            r = run(["g++"] + objs + ["-o", exe + ".tmp", "-lyaml-cpp"])
            if r.returncode:
                raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
            os.rename(exe + ".tmp", exe)
        for f in sorted((f for f in os.listdir(BUILD) if f.startswith("genyaml_")), key=lambda f: os.path.getmtime(BUILD + "/" + f))[:-4]:
            os.remove(BUILD + "/" + f)
    return exe


def genenv(c, variant):
    e = {"PBT_SHIM": ENG + "/shim", "PBT_REPO": REPO, "PBT_BUILD": BUILD}
    if c.get("genyaml"):
        e["PBT_GENYAML"] = genyaml()
    if c.get("cli"):
        e["PBT_CLI"] = cli()
        e["PBT_PCH"] = pch(variant)
        if c.get("tsan"):
            e["PBT_PCH_TSAN"] = pch("tsan")
    return e


def known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = {}
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CONF[pid]
    variants = c.get("variants", ["plain"])       # one per worker, cyclically
    exes = {v: build(v) for v in dict.fromkeys(variants)}
    envs = {v: dict(os.environ, **genenv(c, v)) for v in exes}
    cases = c["thorough"] if tier == "thorough" else c["quick"]
    scale = float(os.environ.get("PBT_SCALE", "1"))     # development only: tools/sweep.py runs smaller checks
    cases = max(8, int(cases * scale))
    secs = c.get("thorough_secs", 600) if tier == "thorough" else c.get("quick_secs", 120)
    workers = c.get("workers", NCPU)
    kn = known().get(pid, {})
    work = tempfile.mkdtemp(prefix="pbt_" + pid + "_", dir="/tmp")
    os.chmod(work, 0o755)
    prep = time.time() - t0
    rc = 0
    replays = V + "/build/replays"
    os.makedirs(replays, exist_ok=True)
    res = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "checks": 0, "labels": {}, "known": {}, "samples": [], "time_up": False}
    hashes = set()
    fails = []
    try:
        procs = []
        for w in range(workers):
            out = f"{work}/w{w}.json"
            variant = variants[w % len(variants)]
            cmd = [exes[variant], "run", pid, "--seed", str(seed), "--cases", str(cases), "--worker", str(w), "--workers", str(workers), "--secs", str(secs),
                   "--out", out, "--scratch", f"{work}/s{w}", "--known", ",".join(kn), "--stop", work + "/stop", "--errlog", f"{work}/w{w}.err",
                   "--limit", str(c.get("limit", 150)), "--shrink", str(c.get("shrink", 40))]
            procs.append((variant, w, out, subprocess.Popen(cmd, env=envs[variant], cwd=work)))
        deadline = time.time() + secs + c.get("limit", 150) + 120
        for variant, w, out, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        for variant, w, out, p in procs:
            if os.path.exists(out):
                d = json.load(open(out))
                for k in ("evaluations", "discarded", "nontrivial", "checks"):
                    res[k] += d[k]
                for k, v in d["labels"].items():
                    res["labels"][k] = res["labels"].get(k, 0) + v
                for k, v in d["known"].items():
                    res["known"][k] = res["known"].get(k, 0) + v
                hashes.update(d["hashes"])
                if len(res["samples"]) < 4:
                    res["samples"] += d["samples"][:1]
                res["time_up"] |= d["time_up"]
                if d["failed"]:
                    fails.append((out + ".fail", False, variant))
            elif os.path.exists(out + ".crash"):
                fails.append((out + ".crash", True, variant))
            else:
                err = open(f"{work}/w{w}.err", errors="replace").read()[-2000:] if os.path.exists(f"{work}/w{w}.err") else ""
                print(f"worker {w} of {pid} ended with {p.returncode} and no result\n{err}", file=sys.stderr)
                rc = 2
        guided = None
        if tier == "thorough" and c.get("fuzz") and not fails:
            exes["asan"] = build("asan")
            envs["asan"] = dict(os.environ, **genenv(c, "asan"))
            guided, zf = fuzz(pid, c, envs["asan"], work, c["fuzz"], workers, kn, seed)
            fails += [(f, True, "asan") for f in zf]
        # decide: a failing case must fail again three times from its file
        violation = None
        for path, crash, variant in sorted(fails, key=lambda f: os.path.getsize(f[0])):
            exe = exes[variant]
            args = ["--scratch", work + "/r", "--known", ",".join(kn), "--limit", str(2 * c.get("limit", 150) if crash else c.get("limit", 150))]
            if crash:
                run([exe, "shrink", pid, path, "--secs", "40"] + args, env=envs[variant], cwd=work)
            ok = True
            outs = b""
            for _ in range(3):
                r = run([exe, "replay", pid, path] + args, env=envs[variant], cwd=work)
                outs = r.stdout
                if r.returncode in (0, 2, 3):
                    ok = False
                    break
            if ok:
                dst = f"{replays}/{pid}-seed{seed}.txt"
                shutil.copy(path, dst)
                with open(dst, "a") as f:
                    f.write("\nVARIANT " + variant + "\n")
                    if crash:
                        f.write(outs.decode(errors="replace")[-6000:])
                violation = dst
                break
            print(f"note: a failure of {pid} did not repeat on replay and is not reported: {path}", file=sys.stderr)
            print(open(path, errors="replace").read()[:3000], file=sys.stderr)
        for k, v in res["known"].items():
            print(f"KNOWN-FINDING: property={pid} {kn[k]} ({v} cases)")
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": len(hashes), "rule": c["rule"], "samples": res["samples"] or ["(none)"],
               "comparisons": res["checks"], "discarded": res["discarded"], "classes": dict(sorted(res["labels"].items())),
               "known_findings_hit": res["known"], "time_limit_reached": res["time_up"], "build_s": round(prep, 1)}
        if guided:
            cov["coverage_guided"] = guided
        ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(f"{V}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid}: {res['evaluations']} cases, {len(hashes)} distinct non-trivial, {res['checks']} comparisons, {ev['wall_s']} s")
        if violation:
            sys.stdout.write(open(violation, errors="replace").read()[:5000] + "\n")
            print(f"VIOLATION property={pid} replay={violation}")
            return 1
        if rc == 0 and res["evaluations"] < c.get("min_cases", 1):
            print(f"too few cases ran: {res['evaluations']}", file=sys.stderr)
            rc = 2
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    variants = {v for c in CONF.values() for v in c.get("variants", ["plain"])}
    for v in sorted(variants):
        print(build(v))
        if any(c.get("cli") and v in c.get("variants", ["plain"]) for c in CONF.values()):
            print(pch(v))
    if any(c.get("tsan") for c in CONF.values()):
        print(pch("tsan"))
    print(cli())
    return 0


def main():
    try:
        if sys.argv[1] == "setup":
            return setup()
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "replay":
            m = re.search(r"^VARIANT (\w+)", open(sys.argv[3], errors="replace").read(), re.M)
            variant = m.group(1) if m else CONF[sys.argv[2]].get("variants", ["plain"])[0]
            exe = build(variant)
            env = dict(os.environ, **genenv(CONF[sys.argv[2]], variant))
            return subprocess.run([exe, "replay", sys.argv[2], sys.argv[3]] + sys.argv[4:], env=env).returncode
        if sys.argv[1] == "build":
            print(build(sys.argv[2] if len(sys.argv) > 2 else "plain"))
            return 0
    except BuildError as e:
        print(e, file=sys.stderr)
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
