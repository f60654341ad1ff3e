"""Shared machinery of the checks: building harnesses, recording traces, running TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

class CheckError(Exception):
    """The check itself failed (no answer), as opposed to a violation."""

class DoesNotCompile(Exception):
    """The headers compile, but a use of the interface the property is about does not: the operation is gone."""

CONFIGS = {
    "portable": ["-O2"],
    "popcnt":   ["-O2", "-mpopcnt"],
    "native":   ["-O3", "-mpopcnt", "-mbmi", "-mbmi2", "-mlzcnt", "-mavx2"],
    "bmi":      ["-O1", "-mbmi"],
    "lzcnt":    ["-O1", "-mlzcnt", "-mpopcnt"],
    "asan":     ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
NEEDS = {"popcnt": ["popcnt"], "native": ["popcnt", "bmi1", "bmi2", "abm", "avx2"], "bmi": ["bmi1"], "lzcnt": ["abm", "popcnt"]}

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

def usable(configs):
    fl = cpu_flags()
    return [c for c in configs if all(n in fl for n in NEEDS.get(c, []))]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode()); h.update(open(q, "rb").read())
        else:
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def build(harness, configs, extra=()):
    """Compiles harness/<harness>.cpp against the current tree in each configuration; {config: binary}."""
    src = os.path.join(HARN, harness + ".cpp")
    th = tree_hash([os.path.join(REPO, "include"), HARN])
    os.makedirs(BUILD, exist_ok=True)
    def one(c):
        flags = ["-std=c++17", "-w", "-I", os.path.join(REPO, "include"), "-I", HARN, "-fno-lifetime-dse"] + CONFIGS[c] + ([] if c == "asan" else ["-DNDEBUG"]) + list(extra)
        key = hashlib.sha256((th + harness + " ".join(flags)).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "bin", f"{harness}-{c}-{key}")
        if os.path.exists(out):
            return c, out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run(["g++"] + flags + [src, "-o", tmp], capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            # The harness uses the documented interface only. When the headers it includes still compile by themselves,
            # an operation of that interface cannot be used any more; otherwise the tree simply does not build.
            inc = "".join(l for l in open(src) if l.startswith("#include"))
            r2 = subprocess.run(["g++"] + flags + ["-fsyntax-only", "-x", "c++", "-"], input=inc + "int main() {}\n", capture_output=True, text=True, timeout=600)
            if r2.returncode == 0:
                raise DoesNotCompile(f"harness {harness} ({c}) does not compile, the headers do:\n" + r.stderr[-6000:])
            raise CheckError(f"harness {harness} ({c}) does not compile:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
        return c, out
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, configs))

def script_text(histories):
    """histories: list of (id, [params], [op lines])"""
    out = []
    for hid, params, ops in histories:
        out.append("H " + " ".join([str(hid)] + [str(p) for p in params]))
        out.extend(ops)
    return "\n".join(out) + "\n"

MAXBAD = 3
def mark_crash(outfile):
    ls = open(outfile).read().split("\n")
    while not ls[-1]: ls.pop()
    t = json.loads(ls[-1])
    t["ev"].append(dict(op="crash", at="after the history", sig=0))
    open(outfile, "w").write("\n".join(ls[:-1] + [json.dumps(t)]) + "\n")
class Killed(CheckError): pass
def free_memory():
    try: return next(int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")) << 10
    except (OSError, StopIteration): return 1 << 40
def run_until(cmd, env, wall, stop):
    """like subprocess.run, but ends the process when `stop` is set (returncode None then)"""
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err)
        end = time.time() + wall
        try:
            while True:
                try:
                    p.wait(timeout=min(0.5 if stop else wall, max(0.01, end - time.time()))); break
                except subprocess.TimeoutExpired:
                    if time.time() >= end: raise
                    if stop and stop.is_set(): return None, b""
        finally:
            if p.poll() is None: p.kill(); p.wait()
        err.seek(0)
        return p.returncode, err.read()

def record(binary, config, script, nhist, outfile, cpu=20.0, wall=600, stop=None):
    """Runs a harness over all histories of a script, restarting after a crash. Returns list of raw JSON lines.
    `stop`: set here after a hang, which is enough for a verdict; whoever else records for it ends then too."""
    if os.path.exists(outfile):
        os.remove(outfile)
    open(outfile, "w").close()
    first, bad = 0, 0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:verbosity=0")
    if config == "asan":
        cpu = min(4 * cpu, max(cpu, 150))
    deadline = time.time() + wall
    while first < nhist:
        try:
            rc, err = run_until([binary, script, outfile, str(first), str(cpu)] + (["pairs"] if config == "pairs" else []), env, max(5, deadline - time.time()), stop)
        except subprocess.TimeoutExpired:
            if bad: break
            raise CheckError(f"harness {os.path.basename(binary)} ran out of wall-clock time")
        if rc is None: break
        lines = sum(1 for _ in open(outfile, "rb"))
        if rc == 0:
            if lines != nhist - 0 and bad == 0:
                raise CheckError(f"harness recorded {lines} of {nhist} histories")
            break
        # Memory damaged by the code under test may kill the harness between two histories, or so that it cannot
        # report itself: the last recorded history, or the one being run, ends with the crash then.
        if rc == 79 and lines > first:
            mark_crash(outfile)
        elif rc < 0 and rc != -9 and lines < nhist:
            hid, par = [l.split()[1:2] + [l.split()[2:]] for l in open(script) if l.startswith("H ")][lines]
            open(outfile, "a").write(json.dumps(dict(id=hid, p=par, ev=[dict(op="crash", at="", sig=-rc)])) + "\n")
            lines += 1
        elif rc < 0 and rc != -9 and lines > first:
            mark_crash(outfile)
        elif rc == -9:
            raise Killed(f"harness {os.path.basename(binary)} was ended from outside")
        elif rc != 77 or lines <= first:
            raise CheckError(f"harness {os.path.basename(binary)} failed with {rc}: {err[-800:].decode(errors='replace')}")
        bad += 1
        first = lines
        if stop and '"op":"hang"' in open(outfile).read().rstrip().split("\n")[-1][-400:].replace(" ", ""):
            stop.set()
            break
        if bad >= MAXBAD or time.time() - deadline + wall > 120:   # enough for a verdict
            break
    return [l for l in open(outfile, "r").read().split("\n")[:-1] if l]   # (what is behind the last end of line was cut off)

def java(args, env=None, timeout=800, mem="6g", cwd=None, tmp=None):
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem] + ([f"-Djava.io.tmpdir={tmp}"] if tmp else []) + ["-cp", JARS] + args
    try:
        return subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time: " + " ".join(args)[-200:])

RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
RE_SIMST = re.compile(r"The number of states generated: ([\d,]+)")
RE_PROGRESS = re.compile(r"Progress: ([\d,]+) states checked")
_n = [0]

def tlc(module, cfg=None, workers="auto", env=None, args=(), timeout=800, mem="6g", deadlock_ok=False, cfgtext=None):
    """Runs TLC on spec/<module>.tla. Returns dict(rc, out, generated, distinct)."""
    _n[0] += 1
    meta = os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{_n[0]}")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    if cfgtext is not None:
        cfg = os.path.join(meta, "run.cfg")
        open(cfg, "w").write(cfgtext)
    elif cfg is None:
        cfg = module + ".cfg"
    e = dict(os.environ)
    e.update(env or {})
    r = java(["-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
              "-config", cfg] + (["-deadlock"] if deadlock_ok else []) + list(args) + [module + ".tla"],
             env=e, timeout=timeout, mem=mem, cwd=SPEC, tmp=meta)
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    g = d = 0
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if m:
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    else:
        for m in list(RE_SIMST.finditer(out)) + list(RE_PROGRESS.finditer(out)):
            g = max(g, int(m.group(1).replace(",", "")))
    return dict(rc=r.returncode, out=out, err=r.stderr, generated=g, distinct=d)

def model_check(module, cfg=None, **kw):
    """A model that must hold: anything but success is an error of the check (a wrong model, not a wrong code)."""
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0:
        raise CheckError(f"model {module} ({cfg or ''}): TLC exit {r['rc']}\n" + r["out"][-3500:] + r["err"][-500:])
    return r

RE_VAR = re.compile(r"^/\\ (h|i) = (\d+)", re.M)

def validate(module, tracefile, cfg=None, workers="auto", timeout=800, env=None, mem="8g"):
    """Validates recorded histories. Returns dict(ok, generated, distinct, h, i) with 0-based h, i of the rejected event."""
    e = {"TRACE": tracefile}
    e.update(env or {})
    r = tlc(module, cfg or "Trace.cfg", env=e, timeout=timeout, workers=workers, mem=mem)
    out = r["out"]
    if r["rc"] == 0 and "No error has been found" in out:
        r["ok"] = True
        return r
    # An event TLC cannot even evaluate the actions on (say, a missing or ill-typed observation) is no step either.
    if "Deadlock reached" in out or ("The behavior up to this point is" in out and not re.search("StackOverflow|OutOfMemory|out of memory|disk", out)):
        hv = iv = None
        for m in RE_VAR.finditer(out):
            if m.group(1) == "h": hv = int(m.group(2))
            else: iv = int(m.group(2))
        if hv is None or iv is None:
            raise CheckError("cannot locate the rejected event:\n" + out[-3000:])
        r.update(ok=False, h=hv - 1, i=iv)
        return r
    raise CheckError(f"trace validation with {module}: TLC exit {r['rc']}\n" + out[-4000:] + r["err"][-500:])
