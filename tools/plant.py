#!/usr/bin/env python3
"""Build and validate planted bugs: plant.py SPEC.py [ID...].  SPEC defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=C++ source, [link])}.
Works in a scratch copy (/tmp/plant-wt); writes /verif/seeded/<id>/ only when the bug builds, passes the stable tests and its demo separates it."""
import json, os, shutil, subprocess, sys, runpy
WT = "/tmp/plant-wt"; HERE = os.path.dirname(os.path.abspath(__file__)); SEED = os.path.join(HERE, "..", "seeded")
DEMO = '''#!/bin/bash
# cwd: the repository. exit 0: behaviour as promised
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -w -DFMT_HEADER_ONLY -I "$PWD/include" "$d/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    os.makedirs(WT, exist_ok=True); r = sh(f"rsync -a --delete --exclude _build --exclude .git /repo/ {WT}/ 2>/dev/null || (rm -rf {WT}/include && cp -a /repo/CMakeLists.txt /repo/applications /repo/cmake /repo/config /repo/include /repo/libs /repo/templates /repo/test {WT}/)")
    sh(f"find {WT}/include -name '*.hpp' | xargs touch")
    for f in ("build.sh", "test.sh"): open(f"{WT}.{f}", "w").write(open(f"/opt/vp/{f}").read().replace("/repo", WT).replace("/opt/vp/build.sh", f"{WT}.build.sh"))
def test():
    b = sh(f"bash {WT}.build.sh")
    if b.returncode: return False, "build: " + (b.stdout + b.stderr)[-1500:]
    sh(f"bash {WT}.test.sh {WT}.json"); got = set(json.load(open(f"{WT}.json"))["passed"]); base = json.load(open("/opt/vp/BASELINE.json")); want = set(base.get("passed") or base.get("stable") or base.get("tests"))
    return want <= got, f"tests missing: {sorted(want - got)[:5]}"
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; sel = sys.argv[2:] or list(bugs); ok = True
    for i in sel:
        b = bugs[i]; sync(); D = f"/tmp/plant-demo-{i}"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        open(D + "/demo.cpp", "w").write(b["demo"]); open(D + "/demo.sh", "w").write(DEMO % b.get("flags", "")); os.chmod(D + "/demo.sh", 0o755)
        r0 = sh(f"bash {D}/demo.sh", cwd=WT)
        diff = ""; err = ""
        for f, o, n in b["edits"]:
            p = f"{WT}/include/bwsl/{f}"; s = open(p).read()
            if s.count(o) != 1: err = f"edit matches {s.count(o)} times in {f}: {o[:60]!r}"; break
            open(p, "w").write(s.replace(o, n))
        if not err:
            diff = sh(f"cd /tmp && git diff --no-index /repo/include {WT}/include").stdout.replace(f"a/repo/include", "a/include").replace(f"b{WT}/include", "b/include")
            t, m = test(); r1 = sh(f"bash {D}/demo.sh", cwd=WT)
            if not t: err = m
            elif r0.returncode: err = f"demo fails unpatched: {r0.returncode} {r0.stderr[-800:]}{r0.stdout[-300:]}"
            elif not r1.returncode: err = "demo passes with patch"
            elif r1.returncode == 3: err = "demo does not compile with patch " + r1.stderr[-500:]
        if err: print("BAD", i, err); ok = False; shutil.rmtree(D); continue
        T = os.path.join(SEED, i); shutil.rmtree(T, ignore_errors=True); shutil.copytree(D, T); shutil.rmtree(D)
        open(T + "/patch.diff", "w").write(diff); json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(T + "/meta.json", "w"), indent=1)
        a = sh(f"git -C /repo apply --check {T}/patch.diff"); print("OK " if not a.returncode else "NOAPPLY", i, a.stderr[:300])
    sync(); sys.exit(0 if ok else 1)
main()
