#!/usr/bin/env python3
"""Driver of every check:  vrun.py <PROPERTY> [--only GROUP]
Builds the harness of one property from /repo's current working tree, runs each of its monitor groups in its own
process under sanitizers, and turns what the monitors reported into a verdict (see DESIGN.md)."""
import sys, os, json, subprocess, time, hashlib, re, shutil, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa

DIMS = ["-DPLATOANALYZE_2D", "-DPLATOANALYZE_3D"]
DEFS = ("-DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC "
        "-DPLATO_STABILIZED -DPLATO_PLASTICITY").split()
LIBS = ["-ltrilinos_" + x for x in (
    "epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat "
    "teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore").split()]
SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"],
    # mesh-level builds: large template code, so no optimisation (half the compile time)
    "asan0": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:halt_on_error=1:max_malloc_fill_size=1073741824:malloc_fill_byte=255:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:suppress_equal_stacks=1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_plm": "isolated", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_orte_tmpdir_base": "/tmp",
})
TIMEOUT = {"quick": 200, "thorough": 1800}
FAILED = threading.Event()   # some group has already failed: hung groups are not retried and, late, not started
T0 = time.time()
KNOWN = {k["key"] for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]}


def log(*a):
    print(*a, flush=True)


def compile_one(job):
    cmd, obj = job
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return obj, p.returncode, p.stdout


def build(pid, spec, bdir):
    os.makedirs(bdir, exist_ok=True)
    exes = []
    jobs, links = [], []
    cc = ["mpicxx"]
    if os.environ.get("VERIF_CCACHE"):
        cc = ["ccache", "mpicxx"]
    for bi, b in enumerate(spec["builds"]):
        flags = SAN[b.get("san", "asan")] + ["-DVH_MULT=5"] + b.get("flags", [])
        inc = ["-I" + VERIF + "/lib"] + [x.replace("@V", VERIF).replace("@R", REPO) for x in b.get("inc", [])] + \
              ["-I" + REPO + "/src", "-I/usr/include/trilinos", "-include", VERIF + "/lib/compat.hpp"]
        defs = DIMS + DEFS
        if "dim" in b:  # the mesh-based part of /repo on the Omega_h stand-in, one spatial dimension per build
            flags = SAN[b.get("san", "asan0")] + b.get("flags", [])
            defs = ["-DPLATOANALYZE_%dD" % b["dim"], "-DVDIM=%d" % b["dim"], "-DPLATO_EPETRA"] + DEFS
            inc = ["-I" + VERIF + "/shim"] + inc
        objs = []
        srcs = [VERIF + "/lib/main.cpp"] + [VERIF + "/harness/" + s for s in b["src"]] + [REPO + "/src/" + s for s in b.get("repo", [])]
        for s in srcs:
            o = os.path.join(bdir, "%d_%s.o" % (bi, re.sub(r"[^A-Za-z0-9]+", "_", s)))
            objs.append(o)
            jobs.append((cc + ["-std=" + b.get("std", "c++14"), "-w"] + flags + defs + inc + ["-c", s, "-o", o], o))
        exe = os.path.join(bdir, "h%d" % bi)
        links.append((["mpicxx"] + flags + objs + ["-o", exe] + b.get("libs", []) + LIBS + ["-lpthread", "-ldl"], exe))
        exes.append((exe, b))
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
    with cf.ThreadPoolExecutor(8) as ex:
        for o, rc, out in ex.map(compile_one, jobs):
            if rc != 0:
                log("\n".join([l for l in out.splitlines() if "error" in l or "undefined" in l][:15])[:4000]); log("HARNESS-ERROR: compilation failed:", o); return None
        for o, rc, out in ex.map(compile_one, links):
            if rc != 0:
                log(out[-2500:]); log("HARNESS-ERROR: link failed:", o); return None
    return exes


def classify(text, group, rc):
    """Turn a sanitizer report or a crash into a stable key without line numbers."""
    loc = ""
    for m in re.finditer(re.escape(REPO) + r"/src/([A-Za-z0-9_/\.]+)", text):
        loc = m.group(1); break
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9\-_]+)", text)
    if m: return "asan:%s:%s:%s" % (m.group(1), loc, group)
    m = re.search(r"runtime error: ([^\n]{0,60})", text)
    if m: return "ubsan:%s:%s:%s" % (re.sub(r"[^A-Za-z ]+", "#", m.group(1))[:40].strip(), loc, group)
    if "WARNING: ThreadSanitizer" in text:
        return "tsan:%s:%s" % (re.search(r"ThreadSanitizer: ([a-z \-]+)", text).group(1).strip(), group)
    if "Kokkos" in text and ("bounds" in text or "View" in text): return "view-bounds:%s" % group
    return "crash:%s" % group


def run_group(job):
    exe, b, group, seed, tier, odir = job
    if FAILED.is_set() and tier == "quick" and time.time() - T0 > 400: return group, exe, [], [], None, None, 0
    out = os.path.join(odir, os.path.basename(exe) + "_" + group + ".jsonl")
    lg = os.path.join(odir, os.path.basename(exe) + "_" + group + ".log")
    wd = os.path.join(odir, "wd_" + os.path.basename(exe) + "_" + group)
    for attempt in range(2):
        for f in (out, lg):
            if os.path.exists(f): os.remove(f)
        shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        cmd = [exe, "run", group, str(seed), tier, out]
        t0 = time.time(); to = False
        env = dict(ENV); env.update(b.get("env", {}))
        with open(lg, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=wd)
            try: rc = p.wait(TIMEOUT[tier] if tier == "thorough" else b.get("timeout", TIMEOUT[tier]))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -9; to = True
        if not to or FAILED.is_set(): break
    shutil.rmtree(wd, ignore_errors=True)
    fails, done = [], None
    if os.path.exists(out):
        for ln in open(out, errors="replace"):
            try: r = json.loads(ln)
            except Exception: continue
            if r.get("t") == "fail": fails.append(r)
            elif r.get("t") == "done": done = r
    text = ""
    if os.path.exists(lg):
        with open(lg, errors="replace") as f:
            f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - 200000)); text = f.read()
    if to:
        fails.append({"key": "hang:" + group, "group": group, "case": 0, "input": "", "detail": "no end within the watchdog, twice"})
    elif done is None or rc != 0:
        if done is None and rc == 3 and not text.strip().startswith("=="):
            return group, exe, cmd, fails, None, "harness usage error", time.time() - t0
        i = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error:"), text.find("WARNING: ThreadSanitizer"))
        det = text[i:i + 3000] if i >= 0 else text[-2000:]
        fails.append({"key": classify(text, group, rc), "group": group, "case": 0, "input": "exit %s" % rc, "detail": det})
    if any(f["key"] not in KNOWN for f in fails): FAILED.set()
    return group, exe, cmd, fails, done, None, time.time() - t0


def main():
    pid = sys.argv[1]
    only = None
    if "--only" in sys.argv: only = sys.argv[sys.argv.index("--only") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    exes = build(pid, spec, bdir)
    if exes is None: return 2
    tb = time.time() - t0
    jobs = []
    odir = os.path.join(bdir, "out"); os.makedirs(odir, exist_ok=True)
    for exe, b in exes:
        p = subprocess.run([exe, "list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
        gs = p.stdout.split()
        if not gs:
            log("HARNESS-ERROR: no groups in", exe, p.stderr[-500:]); return 2
        for g in gs:
            if only is None or g == only: jobs.append((exe, b, g, seed, tier, odir))
    allf, dones, err = [], [], None
    par = spec.get("par", 8)
    with cf.ThreadPoolExecutor(par) as ex:
        for group, exe, cmd, fails, done, e, dt in ex.map(run_group, jobs):
            if e: err = "%s: %s" % (group, e)
            for f in fails: f["cmd"] = cmd; allf.append(f)
            if done: dones.append(done)
            if os.environ.get("VERIF_VERBOSE"): log("  group %-40s %.1fs evals=%s" % (group, dt, done and done["evals"]))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    kn = {k["key"]: k for k in known if k["property"] == pid}
    rdir = os.path.join(VERIF, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    viol = 0; seen = set(); printed = 0
    for f in allf:
        if f["key"] in seen: continue
        seen.add(f["key"])
        if f["key"] in kn:
            log("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[f["key"]]["description"], f["key"])); continue
        viol += 1
        path = os.path.join(rdir, "%s_%s.json" % (pid, hashlib.sha1(f["key"].encode()).hexdigest()[:10]))
        with open(path, "w") as o:
            json.dump({"property": pid, "key": f["key"], "group": f["group"], "case": f["case"], "input": f["input"], "detail": f["detail"],
                       "seed": seed, "tier": tier, "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 vrun.py %s --only %s" % (seed, tier, pid, f["group"])}, o, indent=1)
        if printed < 12:
            log("VIOLATION property=%s replay=%s" % (pid, path))
            log("   monitor=%s group=%s case=%s input=%s :: %s" % (f["key"], f["group"], f["case"], f["input"][:300], f["detail"][:600]))
            printed += 1
    ev = sum(d["evals"] for d in dones); dn = sum(d["distinct"] for d in dones); evs = sum(d["events"] for d in dones)
    mons = {}
    for d in dones:
        for k, v in d["monitors"].items(): mons[k] = mons.get(k, 0) + v
    samples = []
    for d in dones:
        for s in d["samples"][:1]: samples.append(d["group"] + ": " + s)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": samples[:20],
                                "monitor_observations": evs, "monitors": mons,
                                "groups": {d["group"]: {"evaluations": d["evals"], "distinct": d["distinct"], "observations": d["events"]} for d in dones},
                                "instrumentation": sorted({b.get("san", "asan") for b in spec["builds"]})},
                   "assumptions": spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": viol}, o, indent=1)
    log("%s tier=%s seed=%d: groups=%d cases=%d distinct=%d observations=%d monitors=%d violations=%d build=%.0fs total=%.0fs" %
        (pid, tier, seed, len(dones), ev, dn, evs, len(mons), viol, tb, time.time() - t0))
    if viol: return 1
    if err: log("HARNESS-ERROR:", err); return 2
    for d in dones:
        if d["events"] == 0 or d["evals"] == 0:
            log("HARNESS-ERROR: group observed nothing:", d["group"]); return 2
    return 0


if __name__ == "__main__":
    rc = main()
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(os.path.join(VERIF, "build", sys.argv[1]), ignore_errors=True)
    sys.exit(rc)
