#!/usr/bin/env python3
"""Development tool for the planted bugs (no check uses it).
  seed.py mk SPEC.py [ID...]   write seeded/<id>/ from a spec file (edits + demo body)
  seed.py test [ID...]         in scratch copies: apply, build, stable tests, demo on both trees, the property's check
  seed.py catch [ID...]        only the property's check on each patched tree
"""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is as stated; non-zero: it is not.  Run with cwd = the repository.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
L="epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore"
libs=""; for l in $L; do libs="$libs -ltrilinos_$l"; done
mpicxx -std=c++14 -w -O1 %(flags)s -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY \
  %(inc)s -I"$repo/src" -I/usr/include/trilinos -include "$here/compat.hpp" "$here/demo.cpp" %(srcs)s -o "$tmp/demo" $libs -lpthread -ldl || exit 0
cd "$tmp" || exit 0
timeout 200 ./demo
'''
HDR = r'''#pragma once
#include <cstdio>
#include <cmath>
#include <exception>
static int gBad = 0;
#define EXPECT(c) do { if(!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); gBad = 1; } } while(0)
static bool near_(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
template<class T> void run(T f) { try { f(); } catch(std::exception& e) { std::printf("exception %s\n", e.what()); gBad = 1; } }
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def mk(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        t = tempfile.mkdtemp(prefix="mk_")
        sh("git", "clone", "-q", R, t + "/r")
        for f, old, new in s["edits"]:
            p = t + "/r/" + f; x = open(p).read()
            n = x.count(old)
            if n != s.get("count", 1): print("!!", s["id"], f, "matches", n); return 1
            open(p, "w").write(x.replace(old, new))
        df = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(df)
        open(d + "/demo.sh", "w").write(DEMO_SH % {"srcs": " ".join('"$repo/src/%s"' % x for x in s.get("srcs", [])), "flags": s.get("flags", ""),
                                                   "inc": s.get("inc", "")})
        os.chmod(d + "/demo.sh", 0o755)
        body = s["demo"]
        if "int main" not in body:
            pre, _, b = body.partition("@@")
            body = '#include "demo.hpp"\n' + pre + "int main(int c, char** v) { Kokkos::initialize(c, v); run([&]{" + b + "}); Kokkos::finalize(); return gBad; }\n"
        open(d + "/demo.cpp", "w").write(body); open(d + "/demo.hpp", "w").write(HDR)
        shutil.copy(V + "/lib/compat.hpp", d + "/compat.hpp")
        for f, to in s.get("files", []): 
            if os.path.isdir(V + "/" + f): shutil.copytree(V + "/" + f, d + "/" + to)
            else: shutil.copy(V + "/" + f, d + "/" + to)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(t)
    return 0


def one(job):
    i, full = job
    d = os.path.join(V, "seeded", i); pid = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); out = [i, pid]
    try:
        subprocess.run(["cp", "-a", R, t + "/repo"]); 
        os.makedirs(t + "/d"); 
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"): subprocess.run(["cp", "-a", d + "/" + f, t + "/d/"])
        if full:
            r = sh("bash", t + "/d/demo.sh", cwd=t + "/repo"); out.append("demo0=%d" % r.returncode)
            if r.returncode: out.append(r.stdout[-600:])
        r = sh("git", "-C", t + "/repo", "apply", d + "/patch.diff"); out.append("apply=%d" % r.returncode)
        if full:
            r = sh("bash", t + "/d/demo.sh", cwd=t + "/repo"); out.append("demo1=%d" % r.returncode)
        shutil.copytree(V, t + "/v", ignore=shutil.ignore_patterns("build", ".git", "seeded", "evidence"))
        e = dict(os.environ); e["VERIF_REPO"] = t + "/repo"; e["VERIF_SEED"] = "1"; e["VERIF_TIER"] = "quick"
        r = sh("python3", t + "/v/vrun.py", pid, env=e)
        vs = [l for l in r.stdout.splitlines() if l.startswith("   monitor=")]
        out.append("check=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED")); out.append(" | ".join(x.split()[0] for x in vs[:3]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


def suite(i):
    """build + stable tests in /repo itself (the build script knows only that path), reverted straight afterwards"""
    d = os.path.join(V, "seeded", i)
    r = sh("git", "-C", R, "apply", d + "/patch.diff")
    if r.returncode: return "apply failed"
    try:
        b = sh("bash", "/opt/vp/build.sh")
        o = tempfile.mktemp(suffix=".json"); t = sh("bash", "/opt/vp/test.sh", o)
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(o))
        want = base.get("stable") or base.get("passed") or base.get("tests") or base
        bad = [x for x in want if x not in got.get("passed", [])]
        return "build=%d bad=%s" % (b.returncode, bad[:3])
    finally:
        sh("git", "-C", R, "checkout", "--", ".")


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "mk": sys.exit(mk(sys.argv[2], sys.argv[3:]))
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    if c in ("test", "suite"):
        for i in ids: print(i, suite(i), flush=True)
        sh("bash", "/opt/vp/build.sh")
    if c in ("test", "catch", "demo"):
        with cf.ThreadPoolExecutor(4) as ex:
            cj = V + "/tools/catches.json"; res = json.load(open(cj)) if os.path.exists(cj) else {}
            for o in ex.map(one, [(i, c != "catch") for i in ids]):
                print(*o, flush=True)
                res[o[0]] = ("yes: " if "CAUGHT" in o[-2] else "MISSED ") + o[-1].replace("monitor=", "")
            json.dump({k: res[k] for k in sorted(res) if os.path.isdir(V + "/seeded/" + k)}, open(cj, "w"), indent=1)
