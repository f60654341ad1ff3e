"""Generators of histories on large structures: contents are runs (see spec/RunsTrace.tla)."""
import bisect

class Runs:
    """A sequence as runs (only to choose arguments well; the specification is the oracle)."""
    def __init__(s): s.e, s.v = [], []
    def n(s): return s.e[-1] if s.e else 0
    def _norm(s, l):
        s.e, s.v, last = [], [], 0
        for e, v in l:
            if e <= last: continue
            if s.v and s.v[-1] == v: s.e[-1] = e
            else: s.e.append(e); s.v.append(v)
            last = e
    def upto(s, x): return [(min(e, x), v) for e, v in zip(s.e, s.v)]
    def fill(s, x, y, v):
        if x < y: s._norm(s.upto(x) + [(y, v)] + [(e, w) for e, w in zip(s.e, s.v) if e > y])
    def resize(s, n, v): s._norm(s.upto(n) + ([(n, v)] if n > s.n() else []))
    def new(s, n, v): s._norm([(n, v)])
    def at(s, x): return s.v[bisect.bisect_right(s.e, x)]
    def count(s, x, v):
        c, a = 0, 0
        for e, w in zip(s.e, s.v):
            if w == v: c += max(0, min(e, x) - a)
            a = e
            if e >= x: break
        return c
    def copy(s):
        r = Runs(); r.e, r.v = list(s.e), list(s.v); return r

STEPS = [8, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 1 << 16, 1 << 20, 1 << 25, 1 << 29, 1 << 31, 1 << 32]
def spot(rng, n):
    """A position 0 .. n, often next to a round one or to an end."""
    k = rng.random()
    if n <= 0: return 0
    if k < .15: x = rng.choice([0, n]) + rng.randint(-70, 70)
    elif k < .7:
        st = rng.choice([s for s in STEPS if s <= n] or [1])
        x = rng.randint(0, n // st) * st + rng.choice([-1, 0, 0, 1, rng.randint(-64, 64)])
    else: x = rng.randint(0, n)
    return min(max(x, 0), n)

def hx(v): return "-" if v is None else "%x" % v

class Hist:
    def __init__(s, rng, vals, n): s.rng, s.vals, s.n, s.ops, s.st, s.full = rng, vals, n, [], [Runs(), Runs()], n <= 2_100_000
    def val(s): return s.rng.choice(s.vals)
    def new(s, o, n, v=...):
        if v is ...: v = s.vals[0]
        s.st[o].new(n, v); s.ops.append(f"new {o} {n} {hx(v)}")
    def res(s, o, n, v): s.st[o].resize(n, v); s.ops.append(f"res {o} {n} {hx(v)}")
    def fill(s, o, x, y, v): s.st[o].fill(x, y, v); s.ops.append(f"fill {o} {x} {y} {hx(v)}")
    def push(s, o, c, v): s.st[o].resize(s.st[o].n() + c, v); s.ops.append(f"push {o} {c} {hx(v)}")
    def pop(s, o, c): s.st[o].resize(s.st[o].n() - c, 0); s.ops.append(f"pop {o} {c}")
    def cpy(s, o, p): s.st[o] = s.st[p].copy(); s.ops.append(f"cpy {o} {p}")
    def do(s, w, o): s.ops.append(f"{w} {o}")
    def content(s, o, k, longest, m=1):
        """k fills: a few long ones, then clusters of short ones; m: starts and ends are multiples of m"""
        rng, n = s.rng, s.st[o].n()
        rd = lambda x: x // m * m
        for j in range(k):
            x = rd(spot(rng, n))
            if rng.random() < .25: y = rd(spot(rng, n)); x, y = min(x, y), max(x, y)
            elif rng.random() < .3: y = x + m * rng.randint(1, 700)
            else: y = x + m * rng.choice([1, 1, 2, 3, 7, 40])
            y = min(y, n)
            if longest and y - x > longest: y = x + rd(longest)
            if x < y: s.fill(o, x, y, s.val())
        if rng.random() < .8:      # a cluster: many short runs close together
            x = rd(spot(rng, n))
            for j in range(rng.choice([20, 60])):
                y = min(n, x + m * rng.choice([1, 1, 2, 5, 9]))
                if x >= y: break
                s.fill(o, x, y, s.val()); x = y + m * rng.choice([0, 1, 1, 3, 30])
                if x >= n: break
    def see(s, o, windows=3, width=3000):
        n, rng = s.st[o].n(), s.rng
        if n == 0: return
        if s.full: s.ops.append(f"see {o} 0 {n}"); return
        at = [0, n - width // 2] + [e - rng.randint(0, width) for e in rng.sample(s.st[o].e, min(len(s.st[o].e), windows))] + [spot(rng, n) - width // 2 for _ in range(windows)]
        for x in at:
            a = max(0, x); b = min(n, a + width)
            if a < b: s.ops.append(f"see {o} {a} {b}")
    def spots(s, o, k, top=0):
        n, rng = s.st[o].n(), s.rng
        r = set()
        if n + top <= 0: return []
        for _ in range(k):
            x = spot(rng, n) if rng.random() < .5 or not s.st[o].e else rng.choice(s.st[o].e) + rng.choice([-1, 0, 1, 0])
            r.add(min(max(0, x), n - 1 + top))
        return sorted(r)
    def rank(s, o, v, k=150): s.ops.append(f"rank {o} {hx(v)} " + " ".join(map(str, s.spots(o, k, 1))))
    def own(s, o, k=150, zero=True): s.ops.append(f"own {o} " + " ".join(str(x) for x in s.spots(o, k) if zero or s.st[o].at(x)))
    def sel(s, o, v, k=120):
        c = s.st[o].count(s.st[o].n(), v)
        if c == 0: return
        q = {0, c - 1}
        for _ in range(k):
            if s.rng.random() < .5: q.add(s.st[o].count(s.rng.choice(s.st[o].e) + s.rng.choice([-1, 0, 1]), v) + s.rng.choice([-1, 0]))
            else: q.add(spot(s.rng, c - 1))
        s.ops.append(f"sel {o} {hx(v)} " + " ".join(str(x) for x in sorted(q) if 0 <= x < c))

def sequence(rng, hid, params, n, vals, can, steps, longest=0, start="new", fills=12, m=1, chunk=3000):
    """A history of a structure that can be changed at any time."""
    h = Hist(rng, vals, n)
    big = not h.full
    if start == "new": h.new(0, n, h.val() if "nv" in can else vals[0])
    else: h.push(0, n, h.val())
    h.content(0, fills, longest, m)
    h.see(0)
    objs = [0]
    for _ in range(steps):
        o = rng.choice(objs)
        w = rng.choice(can)
        cur = h.st[o].n()
        if w == "res":
            t = max(m, spot(rng, 2 * cur if not big else min(cur + 100000, n + 100000)) // m * m)
            if "grow" in can: t = max(t, cur)
            h.res(o, min(t, 3 * n), h.val() if "rv" in can else vals[0])
        elif w == "push": h.push(o, rng.choice([1, 1, 63, 64, 65, 130, chunk]) * m, h.val())
        elif w == "pop" and cur > m: h.pop(o, min(cur, rng.choice([1, 2, 64, 100, chunk])))
        elif w == "fill" and cur: h.content(o, rng.choice([1, 3, 8]), longest, m)
        elif w == "same": h.do("same", o)
        elif w == "io": h.do("io", o)
        elif w == "cpy" and not big:
            p = 1 - o if len(objs) == 2 else 1
            if len(objs) == 2: h.cpy(o, p)
            else: h.cpy(1, 0); objs = [0, 1]
        else: continue
        if rng.random() < (.8 if not big else .5): h.see(o)
    for o in objs: h.see(o)
    return (hid, params, h.ops)

def static(rng, hid, params, n, vals, k, rank=(), own=False, sel=(), io=True, longest=0, more=0):
    """A history of a structure that is built from a sequence and then only read."""
    h = Hist(rng, vals, n)
    h.new(0, n, h.val())
    h.content(0, k, longest)
    if more: h.push(0, more, h.val())
    h.do("same", 0)
    for r in range(2 if io else 1):
        h.see(0, 2)
        for v in rank: h.rank(0, v)
        for v in sel: h.sel(0, v)
        if own: h.own(0)
        if io and r == 0: h.do("io", 0)
    return (hid, params, h.ops)

def mid(rng): return rng.choice([65536, 65537, 70000, 66000 + rng.randint(0, 9000), 131072, 100000 + rng.randint(0, 60000)])

def bv(rng, tier):
    can = ["res", "push", "fill", "fill", "same", "io", "cpy", "rv", "nv"]
    return [sequence(rng, f"m{j}", ["seq"], rng.choice([mid(rng), 10**6 + rng.randint(0, 99)]), [0, 1], can, 14) for j in range(40 if tier == "thorough" else 8)]
def bv_huge(rng, tier):
    can = ["res", "push", "fill", "fill", "same", "rv", "nv"] + (["io"] if tier == "thorough" else [])
    return [sequence(rng, f"h{j}", ["seq"], rng.choice([(1 << 32) + 1000, (1 << 32) - 5, (1 << 32) + 77777]), [0, 1], can, 6) for j in range(4 if tier == "thorough" else 1)]
def sbv(rng, tier, what):
    r = []
    for j in range(40 if tier == "thorough" else 8):
        s = 1 if what == "select" else j % 2
        n = rng.choice([mid(rng), 10**6 + rng.randint(0, 99), (1 << 20) + 3])
        r.append(static(rng, f"m{j}", ["seq", s], n, rng.choice([[0, 1], [0, 0, 0, 1]]), rng.choice([5, 30, 80]), rank=(0, 1) if what == "rank" else (), sel=(1,) if what == "select" else ()))
    return r
def sbv_huge(rng, tier, what):
    r = []
    for j in range(4 if tier == "thorough" else 1):
        s = 1 if what == "select" else j % 2
        # even histories hold more than 2^32 ones: a vector of mostly ones, a few zeros in pieces
        n = (1 << 32) + (1 << 28) + rng.randint(0, 77777) if j % 2 == 0 else rng.choice([(1 << 32) + 1000, (1 << 32) - 5, (1 << 32) + 77777])
        h = Hist(rng, [0, 1, 1] if j % 2 == 0 else [0, 0, 1], n)
        h.new(0, n, 1 if j % 2 == 0 else 0)
        h.content(0, 30, 1 << 23 if j % 2 == 0 else 1 << 22)
        h.do("same", 0)
        for k in range(2 if tier == "thorough" else 1):
            h.see(0, 2)
            if what == "rank": h.rank(0, 0); h.rank(0, 1)
            else: h.sel(0, 1)
            if k == 0 and tier == "thorough": h.do("io", 0)
        r.append((f"h{j}", ["seq", s], h.ops))
    return r
def mbv(rng, tier):
    r = []
    for j in range(24 if tier == "thorough" else 6):
        w = 1 + j % 3
        vals = list(range(1 << w)); n = rng.choice([mid(rng), mid(rng), 400000])
        h = Hist(rng, vals, n)
        h.push(0, n, h.val()); h.content(0, rng.choice([5, 30]), 0)
        for _ in range(2):
            h.do("same", 0); h.see(0); h.own(0, zero=False); h.do("io", 0); h.see(0); h.own(0, zero=False)
            h.content(0, 6, 0); h.res(0, h.st[0].n() + rng.choice([1, 700, 40000]), h.val()); h.see(0)
        r.append((f"m{j}", ["seq", w], h.ops))
    return r
def mbv_huge(rng, tier):
    r = []
    for j in range(3 if tier == "thorough" else 1):
        w = [2, 3, 1][j]; n = (1 << 32) + rng.randint(1000, 99999)
        vals = list(range(1 << w))
        h = Hist(rng, vals, n)
        h.push(0, n, 1); h.content(0, 20, 1 << 22); h.do("same", 0); h.see(0); h.own(0, zero=False)
        if tier == "thorough": h.content(0, 4, 1 << 22); h.res(0, n + 5000, vals[-1]); h.do("same", 0); h.see(0); h.own(0, zero=False)
        r.append((f"h{j}", ["seq", w], h.ops))
    return r
def wt(rng, tier):
    r = []
    for j in range(30 if tier == "thorough" else 6):
        vals = rng.choice([[0, 1], [0, 1, 2, 3, 4, 5, 6], [3, 255, 128, 127, 0], list(range(256)), [7]])
        r.append(static(rng, f"m{j}", ["seq"], mid(rng), vals, rng.choice([10, 60]), own=True, more=rng.choice([0, 40000])))
    return r
def wt_huge(rng, tier):
    return [static(rng, f"h{j}", ["seq"], (1 << 32) + rng.randint(1000, 99999), [[0, 1], [0, 3, 2]][j], 25, own=True, io=tier == "thorough", longest=1 << 22)
            for j in range(2 if tier == "thorough" else 1)]
def fit(rng, tier):
    can = ["res", "push", "fill", "fill", "same", "io", "cpy", "rv", "nv"]
    r = []
    for j in range(40 if tier == "thorough" else 9):
        w = rng.choice([1, 2, 3, 7, 8, 13, 31, 32, 33, 41, 63, 64]) if j > 2 else [64, 33, 1][j]
        top = (1 << w) - 1
        vals = sorted({0, top, top >> 1, top // 3, 1, rng.randint(0, top)})
        r.append(sequence(rng, f"m{j}", ["seq", w], mid(rng), vals, can, 10))
    return r
def fit_huge(rng, tier):
    r = []
    for j, (w, n) in enumerate([(64, (1 << 26) + 1000), (33, (1 << 32) // 33 + 3000), (7, (1 << 32) // 7 + 50)][: 3 if tier == "thorough" else 1]):
        top = (1 << w) - 1
        vals = [0, top, top // 3, rng.randint(0, top)]
        h = Hist(rng, vals, n)
        h.new(0, n, 0); h.content(0, 20, 1 << 20); h.see(0, 5)
        h.push(0, 100, vals[2]); h.fill(0, n - 3, n + 4, vals[1]); h.see(0, 3); h.res(0, n - 500, 0); h.see(0)
        r.append((f"h{j}", ["seq", w], h.ops))
    return r
def dac(rng, tier):
    r = []
    for j in range(30 if tier == "thorough" else 7):
        vals = rng.choice([[0, 1, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 63], [3, 4], [0, 1 << 20], [5, 300, 70000, 1 << 40]])
        r.append(static(rng, f"m{j}", ["seq", rng.choice(["-", "-", "8,8,16,32", "1,63", "20,20,24", "64"])], mid(rng), vals, rng.choice([10, 60]), more=rng.choice([0, 40000])))
    return r
def dac_huge(rng, tier):
    """More than 2^32 numbers, of which between 2^31 and 2^32 are long."""
    n = (1 << 32) + rng.randint(1000, 99999)
    h = Hist(rng, [0, 1, 3, 255], n)
    h.new(0, n, 255); h.fill(0, 0, n - (1 << 31) - 12345, 1); h.content(0, 25, 1 << 20)
    h.do("same", 0); h.see(0)
    if tier == "thorough": h.do("io", 0); h.see(0)
    return [("h0", ["seq", "4,4", 8], h.ops)]
def mul_huge(rng, tier):
    r = []
    for j, f in enumerate([(8, 8, 8), (7, 1, 6)][: 2 if tier == "thorough" else 1]):
        n = 3 * ((1 << 32) // sum(f) + rng.randint(1000, 9999))
        h = Hist(rng, [0, 255, 7, 128], n)
        h.res(0, n, 0); h.content(0, 20, 3 << 20, 3); h.see(0, 4)
        h.push(0, 300, 255); h.fill(0, n - 9, n + 3, 128); h.see(0, 2); h.res(0, n - 600, 0); h.see(0, 2)
        r.append((f"h{j}", ["seq", ",".join(map(str, f))], h.ops))
    return r
def mul(rng, tier):
    r = []
    for j in range(24 if tier == "thorough" else 5):
        f = rng.choice(["1,2,3", "4,1,8", "8,8,8", "3,5,7", "2,2,1"])
        h = sequence(rng, f"m{j}", ["seq", f], 3 * mid(rng), [0, 255, 7, 128, 42], ["res", "push", "fill", "fill", "same", "io", "cpy", "rv"], 8, m=3)
        r.append(h)
    return r
def cht(rng, tier):
    r = []
    for j in range(16 if tier == "thorough" else 5):
        kind = j % 5; kb = rng.choice([20, 24, 32, 40, 59, 60]) if j else 20
        step = rng.choice([1, 1, 3, 0x9e3779b97f4a7c15 | 1, (1 << 61) + 1, 12345677])
        vw = rng.choice([1, 9, 30, 64])
        top = (1 << [vw, 8, 32, 64, 16][kind]) - 1
        vals = [0, top, top // 3, rng.randint(0, top)]
        n = rng.choice([66000, 70000, 140000 if tier == "thorough" else 80000])
        if kind == 2: n = 66000
        h = Hist(rng, vals + [None], n); h.full = True
        h.new(0, n, None)
        h.vals = vals
        h.fill(0, 0, n // 3, vals[1]); h.fill(0, n // 3, n - 500, h.val()); h.see(0)
        h.vals = vals + [None]
        h.content(0, 10, 0); h.see(0)
        h.fill(0, n // 4, n // 2, None); h.see(0); h.do("same", 0); h.see(0)
        h.fill(0, n // 8, n // 3, h.vals[2]); h.content(0, 5, 0); h.see(0)
        h.cpy(1, 0); h.content(1, 4, 0); h.see(0); h.see(1)
        r.append((f"m{j}", ["map", kind, kb, step, vw], h.ops))
    return r
def cdrw(rng, tier):
    r = []
    for j in range(16 if tier == "thorough" else 4):
        kind = j % 2
        vals = [0, 1, 255, 256, 1 << 16, (1 << 32) + 5, (1 << 64) - 1]
        can = ["fill", "fill", "cpy"] + (["res", "push", "pop", "same"] if kind else [])
        r.append(sequence(rng, f"m{j}", ["seq", kind], mid(rng), vals, can, 7, longest=30000))
    return r
def ini(rng, tier):
    r = []
    for j in range(21 if tier == "thorough" else 7):
        kind = j % 7
        n = [mid(rng), mid(rng), 70000, 70001, 256, 65536, 300001][kind]
        top = [(1 << 32) - 1, 255, (1 << 32) - 1, (1 << 64) - 1, 255, 65535, (1 << 31) - 1][kind]
        h = Hist(rng, [0, top, top // 3, 1], n)
        for _ in range(3):
            h.new(0, n, h.val()); h.see(0)
            h.content(0, rng.choice([3, 15]), rng.choice([0, 5000])); h.see(0)
            h.content(0, 6, 0); h.see(0)
        r.append((f"m{j}", ["seq", kind], h.ops))
    return r

def io(rng, tier, kind, huge=False):
    """C20: a large structure, looked at, written and read back, looked at again, changed, and once more"""
    r = []
    for j in range((10 if tier == "thorough" else 2) if not huge else 1):
        n = mid(rng) if not huge else (1 << 32) + rng.randint(0, 9999)
        vals, params = [0, 1], ["seq"]
        if kind == "sbv": params = ["seq", j % 2]
        elif kind == "mbv": w = 1 + j % 3; params = ["seq", w]; vals = list(range(1 << w))
        elif kind == "wt": vals = rng.choice([[0, 1, 5], list(range(256))])
        elif kind == "fit": w = [33, 7, 64, 1, 50][j % 5]; params = ["seq", w]; vals = [0, (1 << w) - 1, rng.randint(0, (1 << w) - 1)]
        elif kind == "dac": params = ["seq", ["-", "8,24,32"][j % 2]]; vals = [0, 255, 1 << 16, (1 << 64) - 1]
        elif kind == "mul": params = ["seq", ["1,2,3", "8,1,5"][j % 2]]; vals = [0, 255, 9]; n *= 3
        if huge and kind == "fit": w, n = 64, (1 << 29) + rng.randint(0, 9999); params = ["seq", w]; vals = [0, (1 << w) - 1, rng.randint(0, (1 << w) - 1)]
        h = Hist(rng, vals, n)
        m = 3 if kind == "mul" else 1
        if kind in ("mbv", "mul"): h.push(0, n, 1)
        else: h.new(0, n, h.val())
        h.content(0, 20, 1 << 22 if huge else 0, m)
        for k in range(2):
            if kind in ("sbv", "mbv", "wt", "dac") and k == 0: h.do("same", 0)
            h.see(0, 1); h.do("io", 0); h.see(0, 2)
            if kind in ("sbv", "wt", "dac"): continue
            if k == 0: h.content(0, 4, 1 << 22 if huge else 0, m)
            if kind == "mbv": h.do("same", 0)
        r.append((f"{kind}{'h' if huge else ''}{j}", params, h.ops))
    return r
