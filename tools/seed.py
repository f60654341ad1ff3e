#!/usr/bin/env python3
"""seed.py <defs.py> [ids...]: makes /verif/seeded/<id>/ from a definition file and confirms each in a scratch copy:
applies, compiles, the stable tests pass, the demonstration passes without and fails with the change; then runs the
property's check on the patched copy (VERIF_REPO) and says whether it is caught. Definitions: list SEEDS of
dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ main source>, flags="")."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 on the unchanged tree, nonzero if the property is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s -I "$PWD/include" "$here/demo.cpp" -o "$tmp/demo"
cd "$tmp"
%s
timeout 100 ./demo
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)
def prepare(w):
    sh(f"rm -rf {w}; mkdir -p {w}; cp -a /repo/. {w}/; rm -rf {w}/_build")
    r = sh(f"cd {w} && CC=gcc CXX=g++ cmake -S {w} -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_PROJECT_SiDS_INCLUDE=/opt/vp/cmake/hook.cmake && ninja -C {w}/_build -k 0")
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(1)
def one(s, w):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    sh(f"git -C {w} checkout -q -- .")
    for f, a, b in s["edits"]:
        p = f"{w}/include/sim_ds/{f}"; t = open(p, newline="").read()
        if "\r\n" in t: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        if t.count(a) != 1: return f"edit matches {t.count(a)} times: {a[:60]!r}"
        open(p, "w", newline="").write(t.replace(a, b))
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), ":" if "sanitize" in s.get("flags", "") else "ulimit -v 8000000 || true")); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    # only original lines
    for f, a, b in s["edits"]:
        bl = sh(f"cd /repo && git blame -s {'include/sim_ds/'+f}").stdout.split("\n")
        for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git -C {w} diff -U0 -- include/sim_ds/{f}").stdout, re.M):
            for k in range(int(h[0]), int(h[0]) + int(h[1] or 1)):
                c = bl[k-1].split()[0]
                if sh(f"git -C /repo merge-base --is-ancestor {c.lstrip('^')} 5e9f7a9").returncode: print("   NOTE: touches own line", bl[k-1][:120])
    r = sh(f"cd /repo && bash {d}/demo.sh")
    if r.returncode: return f"demo fails on the unchanged tree: {r.stdout[-300:]} {r.stderr[-1500:]}"
    r = sh(f"ninja -C {w}/_build -k 0")
    if r.returncode: return "does not build: " + r.stdout[-1500:]
    rep = f"{w}/_build/reports"
    sh(f"rm -rf {rep}; mkdir -p {rep}; python3 /opt/vp/run_gtests.py {w}/_build {rep} > {rep}/results.txt; python3 /opt/vp/results.py {w}/out.json lines:{rep}/results.txt")
    o = json.load(open(f"{w}/out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if st - set(o["passed"]): return f"tests fail: {sorted(st - set(o['passed']))[:5]}"
    r = sh(f"cd {w} && bash {d}/demo.sh")
    if r.returncode == 0: return "demo passes with the change"
    return None
def check(s, w):
    ps = s["property"]
    r = sh(f"cd {V} && VERIF_REPO={w} VERIF_SEED=1 python3 bin/check.py {ps} quick", timeout=900)
    v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "ERROR", "history", "  event"))]
    return r.returncode, " / ".join(x[:230] for x in v)
if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:]
    w = tempfile.mkdtemp(prefix="seed-")
    prepare(w)
    for s in S:
        if ids and s["id"] not in ids: continue
        e = one(s, w)
        if e: print(f"{s['id']}: NOT CONFIRMED: {e}", flush=True); sh(f"rm -rf {V}/seeded/{s['id']}"); continue
        rc, t = check(s, w)
        rf = os.path.join(V, "tools", "seeds", "results.json")
        R = json.load(open(rf)) if os.path.exists(rf) else {}
        m = re.search(r"history (\S+) .*?event (\d+) is no step of the specification (\S+?):", t)
        R[s["id"]] = dict(check=s["property"], caught=rc == 1, by=f"history {m[1]}, event {m[2]}, {m[3]}" if m else "the operation does not compile any more" if rc == 1 else "-")
        json.dump(R, open(rf, "w"), indent=1, sort_keys=True)
        print(f"{s['id']} ({s['property']}): confirmed; check exit {rc} {'CAUGHT' if rc == 1 else 'MISSED'} {t}", flush=True)
    sh(f"rm -rf {w}")
