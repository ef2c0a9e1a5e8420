#!/usr/bin/env python3
"""Runs the check of one property: vp.py C01 [--tier quick|thorough]

Compiles the property's harnesses against /repo's current headers to LLVM IR, executes them in the
symbolic executor, replays every counterexample (and a sample of the explored paths) natively, and
writes evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "include"); H = os.path.join(HERE, "harness"); ENG = os.path.join(HERE, "build", "symex")
sys.path.insert(0, HERE)
from checks import PROPS
from concurrent.futures import ThreadPoolExecutor
CXX = "clang++-18"
IRF = "-std=gnu++17 -O1 -g1 -DNDEBUG -DVP_SYM=1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DFMT_HEADER_ONLY -w -c -emit-llvm -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -ffp-contract=off".split()
NATF = "-std=gnu++17 -O1 -g -DNDEBUG -DFMT_HEADER_ONLY -w -ffp-contract=off -fsanitize=address,integer-divide-by-zero,float-cast-overflow -fno-sanitize-recover=all -rdynamic".split()
CORES = min(8, os.cpu_count() or 8)

def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); return -999, o.decode("utf8", "replace"), e.decode("utf8", "replace")

def ensure_engine():
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    srcs = [os.path.join(HERE, "engine", f) for f in sorted(os.listdir(os.path.join(HERE, "engine")))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest(); stamp = ENG + ".hash"
    with open(os.path.join(HERE, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ENG) and os.path.exists(stamp) and open(stamp).read() == h: return
        rc, o, e = sh(["bash", os.path.join(HERE, "engine", "build.sh"), ENG + ".new"], timeout=600)
        if rc: print("ERROR: engine build failed\n" + e[-2000:]); sys.exit(2)
        os.rename(ENG + ".new", ENG); open(stamp, "w").write(h)

class Ctx: pass

def known_findings():
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) entry=(\S+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m: out.append(m.groups())
    except OSError: pass
    return out

def compile_tu(ctx, key):
    tu, flags = key; t0 = time.time(); n = hashlib.md5(repr(key).encode()).hexdigest()[:8]
    bc = os.path.join(ctx.tmp, f"{tu}_{n}.bc"); l = os.path.join(ctx.tmp, f"{tu}_{n}.l.bc")
    stub = []
    fl = list(flags)
    sym = [f[5:] for f in fl if f.startswith("stub:")]; fl = [f for f in fl if not f.startswith("stub:")]
    for s in sym: stub += ["-I" + os.path.join(H, "stubs", s)]
    ex = [f[4:] for f in fl if f.startswith("src:")]; fl = [f for f in fl if not f.startswith("src:")]
    inc = stub + ["-I" + H, "-I" + INC]
    rc, o, e = sh([CXX] + IRF + fl + inc + [os.path.join(H, tu + ".cpp"), "-o", bc], timeout=300)
    if rc: return key, None, "harness %s does not compile against the current headers:\n%s" % (tu, e[:3000])
    bcs = [bc, ctx.support]
    rc, o, e = sh(["llvm-link-18"] + bcs + ["-o", l], timeout=120)
    if rc: return key, None, "llvm-link: " + e[:2000]
    ctx.compile_s += time.time() - t0
    return key, l, None

def native_build(ctx, key, variant=""):
    k = (key, variant)
    with ctx.lock:
        ev = ctx.nat.get(k)
        if ev is None: ev = ctx.nat[k] = ctx.npool.submit(native_build1, ctx, key, variant)
    return ev.result()
def native_build1(ctx, key, variant):
    tu, flags = key; n = hashlib.md5(repr((key, variant)).encode()).hexdigest()[:8]; out = os.path.join(ctx.tmp, f"{tu}_{n}.exe")
    fl = [f for f in flags if not f.startswith("stub:") and not f.startswith("src:")]
    v = []
    if variant: v = ["-DVP_FILL=" + variant, "-ftrivial-auto-var-init=" + ("zero" if variant == "0x00" else "pattern")]
    rc, o, e = sh(["g++"] + NATF + fl + v + ["-I" + H, "-I" + INC, os.path.join(H, tu + ".cpp"), os.path.join(H, "native.cpp"), "-o", out, "-ldl"] , timeout=300)
    if rc: return None, e[:3000]
    return out, None

def native_run(ctx, exe, job, inputs, timeout=20):
    d = tempfile.mkdtemp(dir=ctx.tmp); f = os.path.join(d, "inputs.txt")
    with open(f, "w") as o:
        for i in inputs: o.write("%s %d %s\n" % (i["name"].replace(" ", "_"), i["kind"], i["bits"]))
    env = {"PATH": "/usr/bin:/bin", "VP_INPUTS": f, "VP_PARAMS": ",".join("%s=%d" % kv for kv in job["params"].items()), "VP_REAL": "1" if job["real"] else "0", "HOME": d, "TMPDIR": d,
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=1:strict_init_order=1", "UBSAN_OPTIONS": "exitcode=44:print_stacktrace=0"}
    rc, o, e = sh([exe, job["entry"]], timeout=timeout, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return rc, o, e

def classify(rc, o, e):
    """what the native run shows: None = fine, else a description"""
    if rc == 42: return "assert " + (re.findall(r"VP-FAIL assert (.*)", o) or ["?"])[0]
    if rc == 77: return None
    if rc == -999: return "does not terminate"
    if rc == 43 or "AddressSanitizer" in e: return "memory " + (re.findall(r"AddressSanitizer: (\S+)", e) or ["error"])[0]
    if rc == 44 or "runtime error" in e: return "ub " + (re.findall(r"runtime error: (.*)", e) or ["undefined behaviour"])[0]
    if rc != 0 and rc != 2: return "abort " + (re.findall(r"terminate called.*|.*what\(\).*", e) or ["exit status %d" % rc])[0]
    return None

def run_job(ctx, job, l):
    rem = ctx.deadline - time.time()
    if rem < 3: return {"skipped": True}
    mt = min(job["time"], rem)
    cmd = [ENG, l, "--entry=" + job["entry"], "--max-time=%g" % mt, "--samples=%d" % job["samples"], "--seed=%d" % ctx.seed, "--qtime=%g" % job["qtime"], "--xtime=%g" % job["xtime"], "--max-steps=%d" % job["steps"], "--max-paths=%d" % job["paths"]]
    for k, v in job["params"].items(): cmd.append("--param=%s=%d" % (k, v))
    if job["real"]: cmd.append("--real")
    rc, o, e = sh(cmd, timeout=mt + job["qtime"] + job["xtime"] + 30, mem=10 << 30)
    try: return json.loads(o)
    except ValueError: return {"crash": "engine exit %s: %s" % (rc, (e or o)[-400:])}

def num_eq(a, b):
    if a == b: return True
    try: return float(a) == float(b)
    except ValueError: return False

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only", default=""); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup: ensure_engine(); print("engine ready"); return
    pid = a.prop; P = PROPS[pid]; t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ensure_engine()
    import threading
    ctx = Ctx(); ctx.lock = threading.Lock(); ctx.nat = {}; ctx.compile_s = 0; ctx.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx.deadline = t0 + (P.get("budget", 240) if tier == "quick" else 3 * 3600)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True); ctx.tmp = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=os.path.join(HERE, "build"))
    try: rc = run(ctx, pid, P, tier, a, t0)
    finally: shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def run(ctx, pid, P, tier, a, t0):
    jobs = [j for j in P["jobs"] if (tier == "thorough" or j["tier"] == "q") and (not a.only or re.search(a.only, j["entry"]))]
    if tier == "quick": jobs = [j for j in jobs if j["tier"] == "q"]
    keys = sorted({(j["tu"], j["flags"]) for j in jobs})
    ctx.support = os.path.join(ctx.tmp, "support.bc")
    rc, o, e = sh([CXX] + IRF + ["-I" + H, os.path.join(H, "support.cpp"), "-o", ctx.support], timeout=120)
    if rc: print("ERROR: support does not compile\n" + e[:1000]); return 2
    pool = ThreadPoolExecutor(CORES); ctx.npool = ThreadPoolExecutor(4)
    mods = {}; errors = []
    for key, l, err in pool.map(lambda k: compile_tu(ctx, k), keys):
        if err: errors.append(err)
        else: mods[key] = l
    natf = {k: ctx.npool.submit(native_build, ctx, k) for k in keys if k in mods} if False else {}
    for k in mods: # start native builds in the background
        with ctx.lock: ctx.nat[(k, "")] = ctx.npool.submit(native_build1, ctx, k, "")
    order = sorted([j for j in jobs if (j["tu"], j["flags"]) in mods], key=lambda j: -j["cost"])
    futs = [(j, pool.submit(run_job, ctx, j, mods[(j["tu"], j["flags"])])) for j in order]
    known = [k for k in known_findings() if k[0] == pid]
    tot = dict(paths=0, instructions=0, queries=0, cache_hits=0, model_hits=0, sat=0, unsat=0, unknown=0, external=0, solver_s=0.0, assumed_away=0)
    asserts = {}; funcs = set(); ext = set(); report = []; viols = []; incomplete = []; samples_out = []; validated = 0; mism = []; vac = []; unconf = []; anyres = False; knownhit = set()
    for j, f in futs:
        r = f.result(); jn = "%s(%s)%s" % (j["entry"], ",".join("%s=%d" % kv for kv in j["params"].items()), " real" if j["real"] else "")
        if "skipped" in r: incomplete.append(jn + ": not started within the time budget"); continue
        if "crash" in r: incomplete.append(jn + ": " + r["crash"]); continue
        anyres = True
        for k in tot: tot[k] += r[k]
        for l, v in r["asserts"].items():
            t = asserts.setdefault(l, dict(checked=0, trivial=0, proved=0, failed=0, unknown=0))
            for k in t: t[k] += v[k]
        funcs |= set(r["functions"]); ext |= set(r["externs"])
        for m, n in r["incomplete"].items(): incomplete.append("%s: %s (%d)" % (jn, m, n))
        if any(v["unknown"] for v in r["asserts"].values()): incomplete.append(jn + ": undecided assertions: " + ", ".join(l for l, v in r["asserts"].items() if v["unknown"]))
        for u in r["unsupported"]: incomplete.append(jn + ": unsupported " + u)
        miss = [c for c in j["covers"] if c not in r["covers"]]
        if (miss or not r["completed"]) and not r["violations"] and not r["incomplete"]: vac.append("%s: expected outcome never reached: %s" % (jn, ", ".join(miss) or "any"))
        report.append(dict(job=jn, paths=r["paths"], instructions=r["instructions"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], solver_s=r["solver_s"], wall_s=r["wall_s"], covers=r["covers"], incomplete=r["incomplete"]))
        if a.v: print("  %-40s paths %d wall %.1f s solver %.1f s q %d inc %s asserts-unknown %d" % (jn, r["paths"], r["wall_s"], r["solver_s"], r["queries"], r["incomplete"], sum(v["unknown"] for v in r["asserts"].values())))
        key = (j["tu"], j["flags"])
        # replay counterexamples against the real code
        seen = set()
        for v in r["violations"]:
            lab = (v["kind"], v["label"], v["where"])
            if lab in seen: continue
            hit = None
            for var in ("", "0xff", "0x00", "0x5a"):
                exe, err = native_build(ctx, key, var)
                if not exe: unconf.append("%s: %s %s: native build failed: %s" % (jn, v["kind"], v["label"], err[:300])); break
                rc, o, e = native_run(ctx, exe, j, v["inputs"]); c = classify(rc, o, e)
                if c: hit = (c, var); break
            if not hit: unconf.append("%s: %s '%s' at %s with %s did not reproduce natively" % (jn, v["kind"], v["label"], v["where"], {i["name"]: i["value"] for i in v["inputs"]})); continue
            seen.add(lab)
            kf = [k for k in known if k[1] == j["entry"] and k[2] == v["label"]]
            if kf:
                if kf[0] not in knownhit: print("KNOWN-FINDING: property=%s %s" % (pid, kf[0][3])); knownhit.add(kf[0])
                continue
            viols.append((j, v, hit[0], hit[1]))
        # cross-validate sampled paths
        exe = None
        if r["samples"]: exe, err = native_build(ctx, key)
        if r["samples"] and not exe: mism.append("%s: native build failed: %s" % (jn, err[:1500]))
        if exe:
            for s in r["samples"]:
                rc, o, e = native_run(ctx, exe, j, s["inputs"]); c = classify(rc, o, e)
                if c:
                    ins = {i["name"]: i["value"] for i in s["inputs"]}
                    if j["real"] or j["nosample"]: mism.append("%s: sampled path %s fails natively: %s" % (jn, ins, c)); continue
                    if r["violations"]: continue
                    viols.append((j, dict(kind="native", label=c, where="sampled path", inputs=s["inputs"]), c, "")); continue
                if rc != 0: mism.append("%s: native replay of a sampled path exit %d" % (jn, rc)); continue
                ob = [x.split("\t") for x in re.findall(r"VP-OBS (.*)", o)]
                if not j["real"]:
                    bad = [(x, y) for x, y in zip(ob, s["obs"]) if y[1] != "?" and (x[0] != y[0] or not num_eq(x[1], y[1]))]
                    if bad or len(ob) != len(s["obs"]): mism.append("%s: observations differ natively: %s" % (jn, (bad or ["count"])[:3])); continue
                validated += 1
                if len(samples_out) < 6: samples_out.append(dict(job=jn, inputs={i["name"]: i["value"] for i in s["inputs"]}, observed=s["obs"][:12]))
    pool.shutdown(wait=False); ctx.npool.shutdown(wait=True)
    rdir = os.path.join(HERE, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    shown = set()
    for n, (j, v, c, var) in enumerate(viols):
        tag = (j["entry"], v["label"])
        if tag in shown: continue
        shown.add(tag)
        path = os.path.join(rdir, "%s_%s_%d.sh" % (pid, j["entry"], n)); inp = path[:-3] + ".inputs"
        with open(inp, "w") as o:
            for i in v["inputs"]: o.write("%s %d %s\n" % (i["name"].replace(" ", "_"), i["kind"], i["bits"]))
        fl = [x for x in j["flags"] if not x.startswith("stub:") and not x.startswith("src:")]
        with open(path, "w") as o:
            o.write("#!/bin/bash\n# replays a counterexample of %s against the real code: %s\n# inputs: %s\nset -e\nT=$(mktemp -d); trap 'rm -rf -- \"$T\"' EXIT\ng++ %s %s %s -I%s -I%s %s %s -o $T/exe -ldl\ncd $T; VP_INPUTS=%s VP_PARAMS=%s VP_REAL=%s ASAN_OPTIONS=detect_leaks=0 timeout 20 $T/exe %s\n" % (pid, c, {i["name"]: i["value"] for i in v["inputs"]}, " ".join(NATF), " ".join(fl), ("-DVP_FILL=%s -ftrivial-auto-var-init=%s" % (var, "zero" if var == "0x00" else "pattern")) if var else "", H, INC, os.path.join(H, j["tu"] + ".cpp"), os.path.join(H, "native.cpp"), inp, ",".join("%s=%d" % kv for kv in j["params"].items()), "1" if j["real"] else "0", j["entry"]))
        os.chmod(path, 0o755)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: solver: %s '%s' (%s); native replay: %s; inputs %s" % (j["entry"], v["kind"], v["label"], v["where"], c, {i["name"]: i["value"] for i in v["inputs"]}))
    for u in unconf[:10]: print("UNCONFIRMED (not reported): " + u)
    for u in mism[:10]: print("NOTE native cross-check: " + u)
    for u in incomplete[:20]: print("INCOMPLETE: " + u)
    for u in vac: print("VACUOUS: " + u)
    for u in errors: print("ERROR: " + u)
    nA = sum(v["checked"] for v in asserts.values()); nP = sum(v["proved"] for v in asserts.values())
    cov = dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples_out or [dict(job=r["job"], covers=r["covers"]) for r in report[:3]],
        exhaustive=not incomplete and not vac and not errors and not viols,
        meaning="states = symbolic paths explored (each a set of inputs), transitions = LLVM instructions executed symbolically; exhaustive = every path within the bounds was explored and every assertion decided",
        functions_encoded=sorted(funcs), modelled_externals=sorted(ext), bounds=P["bounds"], outside_bounds=P.get("outside", ""), assertions_decided=nP + sum(v["failed"] for v in asserts.values()), assertion_instances=nA, assertions=asserts,
        queries=tot["queries"], query_cache_hits=tot["cache_hits"] + tot["model_hits"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], external_portfolio_queries=tot["external"], solver_s=round(tot["solver_s"], 3), jobs=report, incomplete=incomplete, unconfirmed=unconf, native_cross_check_notes=mism, compile_s=round(ctx.compile_s, 2))
    evd = dict(property=pid, tier=tier, seed=ctx.seed, level="model_checking", coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(shown))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as o: json.dump(evd, o, indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d/%d assertions proved, %d queries (%.1f s solver), %d paths replayed natively, %.1f s" % (pid, tier, len(jobs), tot["paths"], tot["instructions"], nP, nA, tot["queries"], tot["solver_s"], validated, time.time() - t0))
    if shown: return 1
    if errors or not anyres or vac: return 2
    return 0
if __name__ == "__main__": main()
