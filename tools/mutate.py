#!/usr/bin/env python3
"""mutate.py base [ids]            runs the checks once and keeps their scripts and traces in /tmp/mutbase
mutate.py run <out> [n/m] [files]  makes small changes of the headers, one at a time, records the kept scripts again and
                                   compares with the kept traces: a change that leaves every trace as it was is MISSED
A development tool: it finds behaviour no history reaches. It decides nothing; TLC judges the traces in the checks."""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import vlib, props
BASE, W = "/tmp/mutbase", "/tmp/mut"
FILES = {"BijectiveHash.hpp": ["C11", "C09"], "BitReference.hpp": ["C01", "C06"], "BitVector.hpp": ["C01", "C20", "C02"], "BitsReference.hpp": ["C06", "C07", "C01"], "CDRWArray.hpp": ["C10"], "CHT.hpp": ["C09"],
    "DacVector.hpp": ["C07", "C20"], "FitVector.hpp": ["C06", "C20"], "Heap.hpp": ["C12"], "InitializableArray.hpp": ["C14"], "MultiBitVector.hpp": ["C04", "C20"], "MultipleVector.hpp": ["C08", "C20"],
    "SuccinctBitVector.hpp": ["C02", "C03", "C20", "C23"], "WaveletTree.hpp": ["C05", "C20"], "basic.hpp": ["C20", "C01"], "bit_util.hpp": ["C21", "C02", "C03", "C01", "C06"], "bit_util256.hpp": ["C21"], "calc.hpp": ["C22", "C07"], "sort.hpp": ["C13"],
    "string_util/FactorOracle.hpp": ["C15", "C16"], "string_util/PatternMatching.hpp": ["C16"], "string_util/Samc.hpp": ["C18", "C23", "C20"], "string_util/SuffixArray.hpp": ["C19", "C20"], "string_util/graph_util.hpp": ["C17"]}
def parts(pid):
    P = props.PROPS[pid]
    r = [dict(harness=P["harness"], configs=P["configs"], cpu=20)]
    for x in P.get("parts", []): r.append(dict(dict(cpu=60), **x))
    for p in r: p["configs"] = vlib.usable(p["configs"])
    return r
def base(ids):
    os.makedirs(BASE, exist_ok=True)
    for pid in ids or sorted(props.PROPS):
        for d in glob.glob(f"{V}/build/work/{pid}-*"): shutil.rmtree(d)
        r = subprocess.run([sys.executable, V + "/bin/check.py", pid, "quick"], env=dict(os.environ, VERIF_KEEP="1"), capture_output=True, text=True)
        print(pid, r.returncode, r.stdout.strip().split("\n")[-1], flush=True)
        shutil.rmtree(f"{BASE}/{pid}", ignore_errors=True)
        shutil.move(glob.glob(f"{V}/build/work/{pid}-*")[0], f"{BASE}/{pid}")
OPS = [(r" < ", [" <= ", " >= "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " <= "]), (r" >= ", [" > ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" / ", [" * ", " % "]), (r" % ", [" / "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
    (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | ", " & "]), (r" && | and ", [" || "]), (r" \|\| | or ", [" && "]), (r"\bnot ", [""]), (r"(?<![=!<>])!(?=[\w(])", [""]), (r"~", [""]),
    (r" \|= ", [" &= ", " ^= ", " = "]), (r" &= ", [" |= ", " = "]), (r" \^= ", [" |= "]),
    (r"\+\+", ["--"]), (r"(?<=\w)--|--(?=\w)", ["++"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmax\b\(", ["min("]), (r"\bmin\b\(", ["max("]),
    (r"\bsize_t\b", ["uint16_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bid_type\b", ["uint16_t"]), (r"\buint8_t\b", ["char"]),
    (r"\bupper_bound\b", ["lower_bound"]), (r"\bbegin\(\)", ["end()"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"])]
def mutants(f):
    text = open(f"/repo/include/sim_ds/{f}", newline="").read()
    lines = text.split("\n"); out = []; comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if "/*" in s: comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "static_assert", "template", "using", "friend", "assert", "std::c", "cout", "private:", "public:", "protected:", "namespace", "class", "struct")) or "cout" in s: continue
        code = l.split("//")[0]
        def add(a, b, r, kind):
            m = l[:a] + r + l[b:]
            if m != l: out.append((f, n, kind, "\n".join(lines[:n] + [m] + lines[n + 1:]), l.strip(), m.strip()))
        for rx, rs in OPS:
            for m in re.finditer(rx, code):
                for r in rs: add(m.start(), m.end(), r, "op")
        table = len(re.findall(r"\d+", code)) > 6      # of a table, one number in forty
        for m in re.finditer(r"(?<![\w.])(\d+)(?:u?l?l?)\b(?![\w.])", code):
            v = int(m.group(1))
            if table and (m.start() * 7 + n) % 40: continue
            for w in ({v + 1, v - 1} if v else {1}): add(m.start(1), m.end(1), str(w), "const")
        if s.rstrip("\r").endswith(";") and not re.match(r"(return|using|const|static|constexpr|auto|size_t|typedef|\w+(<.*>)? \w+(;| =|\(.*\);))", s) and "for" not in s: add(len(l) - len(l.lstrip()), len(l.rstrip("\r")), ";", "del")
        m = re.search(r"\b(if|while) \((.*)\)( \{)?\s*$", code.rstrip("\r"))
        if m:
            add(m.start(2), m.end(2), "false", "cond")
            if m.group(1) == "if": add(m.start(2), m.end(2), "true", "cond")
        m = re.search(r"\breturn (.+);", code)
        if m and m.group(1) not in ("true", "false", "*this"): add(m.start(1), m.end(1), "(" + m.group(1) + ") + 1", "ret")
    return out
def load(f):
    r = {}
    for l in open(f):
        if l.strip(): r[l[:l.index(",")]] = l.rstrip("\n")
    return r
def one(job):
    k, (f, n, kind, text, a, b) = job
    w = f"{W}/m{k}"
    shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo/include", w + "/include")
    open(f"{w}/include/sim_ds/{f}", "w", newline="").write(text)
    try:
        built = {}; res = None
        todo = []
        for pid in FILES[f]:
            for n_, p in enumerate(parts(pid)):
                if p["cpu"] > 100: continue      # past 2^32: too slow here
                for c in p["configs"]:
                    huge = p["cpu"] > 100
                    # cheap first
                    todo.append(((huge, {"portable": 0, "asan": 2, "native": 1}.get(c, 3), n_ > 0, FILES[f].index(pid)), pid, n_, p, c))
        todo.sort(key=lambda x: x[0])
        if f not in ("bit_util.hpp", "bit_util256.hpp", "SuccinctBitVector.hpp"): todo = [t for t in todo if t[4] in ("portable", "asan", "native")]
        for _, pid, n_, p, c in todo:
            key = (p["harness"], c)
            if key not in built:
                o = f"{w}/{p['harness']}-{c}"
                fl = ["-O1" if x in ("-O2", "-O3") else x for x in vlib.CONFIGS[c]]
                r = subprocess.run(["g++", "-std=c++17", "-w", "-I", w + "/include", "-I", vlib.HARN, "-fno-lifetime-dse"] + fl + ([] if c == "asan" else ["-DNDEBUG"]) + [f"{vlib.HARN}/{p['harness']}.cpp", "-o", o], capture_output=True, text=True)
                if r.returncode: return "COMPILE", f, n, a, b
                built[key] = o
            d = f"{BASE}/{pid}"
            nh = sum(1 for l in open(f"{d}/script{n_}.txt") if l.startswith("H "))
            t = f"{w}/t.{pid}.{n_}.{c}"
            try: got = vlib.record(built[key], c, f"{d}/script{n_}.txt", nh, t, cpu=6 if p["cpu"] < 100 else 60, wall=100)
            except Exception as e: return f"KILLED {pid} {n_} {c} ({str(e)[:40]})", f, n, a, b
            want = load(f"{d}/trace.{n_}.{c}.ndjson")
            for l in got:
                if want.get(l[:l.index(",")]) != l: return f"KILLED {pid} {n_} {c}", f, n, a, b
            os.remove(t)
        return "MISSED", f, n, a, b
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "base": base(sys.argv[2:])
    else:
        vlib.MAXBAD = 1
        out, (i, m) = sys.argv[2], map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
        js = [x for f in (sys.argv[4:] or FILES) for x in mutants(f)]
        random.Random(7).shuffle(js)
        js = [x for k, x in enumerate(js) if k % m == i]
        print(len(js), "changes", flush=True)
        os.makedirs(W, exist_ok=True)
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(out, "a") as o:
            for r in ex.map(one, enumerate(js)): o.write("\t".join(map(str, (r[0], r[1], r[2] + 1, r[3], r[4]))) + "\n"); o.flush()
