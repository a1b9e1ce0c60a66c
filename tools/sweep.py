#!/usr/bin/env python3
"""sweep.py FILE N SEED [CHECK...]: random one-token changes of a repository file, each run against the checks in turn until one notices.
Runs on scratch copies mounted over /repo (see mut.sh).  Prints one line per change; survivors are for reading by hand."""
import os, random, re, subprocess, sys, tempfile, shutil, time

f, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
src = open("/repo/" + f).read().split("\n")
OPS = [(r"(?<![-+=<>*/!&|(,\[])\s\+\s(?!\+)", " - "), (r"(?<=[\w\)\]])\+(?=[\w\(])", "-"), (r"(?<=[\w\)\]])\s?-\s?(?=[\w\(])", "+"),
       (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)\s])<(?=[\w\s(])(?!=)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"<=", "<"), (r">=", ">"),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])([2-9])(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       (r"(?<![\w.])([2-9])(?![\w.])", lambda m: str(int(m.group(1)) - 1)), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif\s*\((?!.*;)", "if (!"), (r"!(?=[\w(])", ""),
       (r"\bi\b", "(i+1)"), (r"\bi\b", "0"), (r"\bj\b", "i"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\+=", "="), (r"\+=", "-="), (r"\bDlink\b", "Dl"),
       ("DELETE", None), ("DELETE", None), ("DELETE", None), (r"\*(?=\s?\w)", "/"), (r"\.size\(\)", ".size()-1"), (r"\bcontinue\b", "break"), (r"\bdq\b", "q"), (r"\bpar_DYN\b", "par_REG")]
rnd = random.Random(seed)
incomment = False
cand = []
for k, l in enumerate(src):
    s = l.strip()
    if incomment:
        if "*/" in s: incomment = False
        continue
    if s.startswith("/*"):
        incomment = "*/" not in s
        continue
    if not s or s.startswith(("//", "#", "*")):
        continue
    code = l.split("//")[0]
    if "cerr" in code or "cout" in code:
        continue
    for oi, (p, r) in enumerate(OPS):
        if p == "DELETE":
            if re.match(r"^\s*[\w\.\->\[\]\(\)\*:]+.*;\s*$", code) and not re.match(r"^\s*(const |auto |int |double |std::\w+(<.*>)? \w|casadi::\w+ \w|Eigen::\w+ \w|YAML::\w+ \w|bool |return|using|namespace|static|typedef)", code):
                cand.append((k, oi, 0))
        else:
            instr = [m.span() for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
            for m in re.finditer(p, code):
                if not any(a < m.start() < b for a, b in instr) :
                    cand.append((k, oi, m.start()))
rnd.shuffle(cand)
lines = {}
done = 0
for k, oi, pos in cand:
    if done >= n: break
    if lines.get(k, 0) >= 1: continue
    p, r = OPS[oi]
    l = src[k]
    if p == "DELETE": new = re.match(r"^\s*", l).group(0) + ";"
    else:
        m = re.compile(p).search(l, pos)
        if not m or m.start() != pos: continue
        new = l[:pos] + m.expand(r) + l[m.end():] if isinstance(r, str) else l[:pos] + r(m) + l[m.end():]
    if new == l: continue
    lines[k] = lines.get(k, 0) + 1
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"])
    t = src[:]; t[k] = new
    open(w + "/repo/" + f, "w").write("\n".join(t))
    res = "SURVIVED"; t0 = time.time()
    for c in checks:
        p_ = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind /tmp/wv /verif && cd /verif && timeout 900 python3 run.py check {c}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", PBT_SCALE=os.environ.get("PBT_SCALE", "0.3")))
        o = p_.stdout.decode(errors="replace")
        if p_.returncode == 1:
            m = re.search(r"^MESSAGE\n(.*)", o, re.M); res = f"caught {c} {(m.group(1) if m else '')[:70]}"; break
        if p_.returncode == 2:
            res = "NOCOMPILE" if "does not compile" in o or "link failed" in o else f"rc2 {c} " + o[-300:].replace("\n", " "); break
        if p_.returncode not in (0, 1):
            res = f"rc{p_.returncode} {c}"; break
    shutil.rmtree(w)
    if res != "NOCOMPILE": done += 1
    print(f"{res} | {time.time()-t0:.0f}s {f}:{k+1}: {l.strip()[:110]}  =>  {new.strip()[:110]}", flush=True)
