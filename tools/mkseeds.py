#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py: the edits, a demonstration, the metadata.
import json, os, random, subprocess, sys, glob, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SRC = "src/thunder/src/"
TPL = "src/thunder/thunder_robot_template/"
SEEDS = []

def conf(types, dh=None, dhs=None, g=(0.3, -0.4, -9.7), gs=None, base=(0.1, -0.2, 0.3, 0.4, -0.5, 0.6), bs=None, ee=(0.05, 0.1, -0.2, 0.3, 0.2, -0.1), es=None,
         inert=None, ins=None, Dlo=0, Dl=None, Dls=None, el=None, names=None, rnd=1):
    r = random.Random(rnd); n = len(types)
    f = lambda v: "[" + ", ".join(repr(x) for x in v) + "]"
    dh = dh or [round(r.uniform(-0.7, 0.7), 3) for _ in range(4 * n)]
    o = [f"num_joints: {n}", f"type_joints: [{', '.join(types)}]", f"Dl_order: {Dlo}"]
    if el: o.append("ELASTIC_MODEL: true")
    o += ["kinematics:"] + ([f"  symb: {f(dhs)}"] if dhs else []) + [f"  DH: {f(dh)}"]
    if g: o += ["gravity:"] + ([f"  symb: {f(gs)}"] if gs else []) + [f"  value: {f(g)}"]
    for k, v, s in (("Base_to_L0", base, bs), ("Ln_to_EE", ee, es)):
        o += [k + ":"] + ([f"  symb: {f(s)}"] if s else []) + [f"  tr: {f(v[:3])}", f"  ypr: {f(v[3:])}"]
    o.append("dynamics:")
    K = "mass CoM_x CoM_y CoM_z Ixx Ixy Ixz Iyy Iyz Izz".split()
    for i in range(n):
        v = inert[i] if inert and inert[i] else [round(r.uniform(0.5, 2), 3)] + [round(r.uniform(-.3, .3), 3) for _ in range(3)] + [0.11 + .01 * i, 0.01, -0.02, 0.13, 0.015, 0.09]
        o += [f"  {names[i] if names else 'link%d' % (i+1)}:", "    inertial:"] + ([f"      symb: {f(ins[i])}"] if ins and ins[i] else []) + [f"      {k}: {x!r}" for k, x in zip(K, v)]
        if Dlo: o += ["    friction:"] + ([f"      symb: {f(Dls[i])}"] if Dls and Dls[i] else []) + [f"      Dl: {f(Dl[i] if Dl else [round(r.uniform(.1, 1), 3) for _ in range(Dlo)])}"]
    if el:
        o += ["elastic:", f"  K_order: {el['Ko']}", f"  D_order: {el['Do']}", f"  Dm_order: {el['Dmo']}", "  joints:"]
        e = 0
        for i, t in enumerate(types):
            if "SEA" not in t: continue
            o.append(f"    joint{i+1}:")
            for k, m in (("K", "Ko"), ("D", "Do"), ("Dm", "Dmo")):
                if el[m] and el.get(k + "s"): o.append(f"      {k}_symb: {f(el[k + 's'][e])}")
                if el[m]: o.append(f"      {k}: {f(el[k][e] if k in el else [round(r.uniform(1, 3), 3) for _ in range(el[m])])}")
            if el.get("Mms"): o.append(f"      Mm_symb: {el['Mms'][e]}")
            o.append(f"      Mm: {round(r.uniform(.1, 1), 3)}")
            e += 1
    return "\n".join(o) + "\n"

HEAD = '''#!/bin/bash
# exit 0: the property holds on this tree; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
T=/repo/src/thunder; C=/opt/thunder_deps/py/casadi
E=$(dirname $(find /usr/include /usr/local/include -maxdepth 4 -path "*eigen3/Eigen" 2>/dev/null | head -1))
'''
LIB = HEAD + '''g++ -std=c++17 -O0 -I$T/library -I$C/include -I$E "$here/demo.cpp" $T/build/liblibrary.a -L$C -lcasadi -lyaml-cpp -Wl,-rpath,$C -o "$t/demo" || exit 2
cp "$here"/*.yaml "$t/" 2>/dev/null; cd "$t" && ./demo
'''
GEN = HEAD + '''cd "$t" && cp "$here"/*.yaml . && $T/build/thunder gen bot.yaml >/dev/null 2>&1
cd bot_generatedFiles 2>/dev/null || { echo "nothing generated"; exit 3; }
cp "$here"/*.cpp "$here"/*.yaml . 
g++ -std=c++17 -O0 -w -pthread -I. -I$E -I$C/include demo.cpp thunder_bot.cpp bot_gen.cpp -lyaml-cpp -o demo || exit 2
./demo >out.txt 2>&1; rc=$?; tail -1 out.txt; exit $rc
'''
LIBH = '''#include <iostream>
#include <fstream>
#include <cmath>
#include "robot.h"
#include "utils.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
using namespace thunder_ns; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static V vec(std::initializer_list<double> l){ V v(l.size()); int i=0; for (double x: l) v(i++)=x; return v; }
static int bad(const char* what, double e){ std::cout << what << " " << e << std::endl; return 1; }
static int close(const char* what, const M& a, const M& b, double tol){ if (a.rows()!=b.rows() || a.cols()!=b.cols()) return bad(what, -1); double e=(a-b).cwiseAbs().maxCoeff(); if (!(e<=tol)) return bad(what, e); return 0; }
'''
GENH = '''#include <iostream>
#include <fstream>
#include <cmath>
#include <thread>
#include "thunder_bot.h"
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static V vec(std::initializer_list<double> l){ V v(l.size()); int i=0; for (double x: l) v(i++)=x; return v; }
static int bad(const char* what, double e){ std::cout << what << " " << e << std::endl; return 1; }
static int close(const char* what, const M& a, const M& b, double tol){ if (a.rows()!=b.rows() || a.cols()!=b.cols()) return bad(what, -1); if (a.size()==0) return 0; double e=(a-b).cwiseAbs().maxCoeff(); if (!(e<=tol)) return bad(what, e); return 0; }
'''

def seed(id, prop, edits, needs, breaks, lib=None, gen=None, sh=None, files=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, lib=lib, gen=gen, sh=sh, files=files or {}))

def write(s):
    d = f"{V}/seeded/{s['id']}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="/tmp/mkseed.")
    for f, old, new in s["edits"]:
        t = open(f"{w}/{f}").read() if os.path.exists(f"{w}/{f}") else open(f"{R}/{f}").read()
        assert t.count(old) == 1, (s["id"], f, old, t.count(old))
        os.makedirs(os.path.dirname(f"{w}/{f}"), exist_ok=True)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    p = ""
    for f in dict.fromkeys(e[0] for e in s["edits"]):
        p += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, f"{R}/{f}", f"{w}/{f}"], capture_output=True, text=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(p)
    subprocess.run(["git", "-C", R, "apply", "--check", d + "/patch.diff"], check=True)
    if s["lib"]: open(d + "/demo.sh", "w").write(LIB); open(d + "/demo.cpp", "w").write(LIBH + s["lib"])
    elif s["gen"]: open(d + "/demo.sh", "w").write(GEN); open(d + "/demo.cpp", "w").write(GENH + s["gen"])
    if s["sh"]: open(d + "/demo.sh", "w").write(HEAD + s["sh"])
    for n, t in s["files"].items(): open(f"{d}/{n}", "w").write(t)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)

if __name__ == "__main__":
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())
    ids = [s["id"] for s in SEEDS]; assert len(set(ids)) == len(ids)
    for s in SEEDS:
        if len(sys.argv) == 1 or s["id"] in sys.argv[1:]: write(s)
    print(len(SEEDS))
