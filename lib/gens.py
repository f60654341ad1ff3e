"""Seeded generators of scripts (operation sequences). They only choose inputs; TLC judges the outcomes."""

def scale(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

def bitstr(bits):
    return "".join(map(str, bits)) or "-"

# ------------------------------------------------------------------ C01
def near(rng, top):
    """a length near a word or block boundary, or anything up to top"""
    r = rng.random()
    if r < 0.2: return rng.randint(0, 5)
    if r < 0.7: return min(top, max(0, 64 * rng.randint(0, max(1, top // 64)) + rng.randint(-2, 2)))
    return rng.randint(0, top)

def bitvec(rng, tier):
    hs = []
    for k in range(scale(tier, 160, 1500)):
        top = rng.choice([6, 70, 140, 140, 260, 520])
        n = [0, 0]
        ops = []
        for _ in range(rng.randint(15, 45)):
            o = rng.randint(0, 1); p = 1 - o if rng.random() < 0.8 else o
            r = rng.random()
            if r < 0.04: m = near(rng, top); ops.append(f"new {o} {m}"); n[o] = m
            elif r < 0.09: m = near(rng, top); ops.append(f"newf {o} {m} {rng.randint(0,1)}"); n[o] = m
            elif r < 0.13:
                m = rng.choice([0, 1, 3, near(rng, top), near(rng, top)]); ops.append(f"newv {o} {bitstr([rng.randint(0,1) for _ in range(m)])}"); n[o] = m
            elif r < 0.17: ops.append(f"cpy {o} {p}"); n[o] = n[p]
            elif r < 0.19 and p != o: ops.append(f"mov {o} {p}"); n[o] = n[p]; n[p] = 0
            elif r < 0.20 and p != o: ops.append(f"swap {o} {p}"); n[o], n[p] = n[p], n[o]
            elif r < 0.28: m = near(rng, top) if rng.random() < .6 else max(0, n[o] + rng.randint(-70, 70)); ops.append(f"res {o} {m}"); n[o] = m
            elif r < 0.38: m = near(rng, top) if rng.random() < .6 else max(0, n[o] + rng.randint(-70, 70)); ops.append(f"resb {o} {m} {rng.randint(0,1)}"); n[o] = m
            elif r < 0.46:
                for _ in range(rng.choice([1, 1, 2, 3])): ops.append(f"push {o} {rng.randint(0,1)}"); n[o] += 1
            elif r < 0.50: m = near(rng, top); ops.append(f"asn {o} {m} {rng.randint(0,1)}"); n[o] = m
            elif r < 0.66:
                x, y = min(near(rng, top), n[o]), min(near(rng, top), n[o])
                if x > y and rng.random() < .9: x, y = y, x
                ops.append(f"fill {o} {x} {y} {rng.randint(0,1)}")
            elif r < 0.78 and n[o]:
                x = rng.choice([0, n[o] - 1, min(n[o] - 1, near(rng, top)), rng.randrange(n[o])])
                ops.append(f"set {o} {x} {rng.randint(0,1)}")
            elif r < 0.83 and n[o] and n[p]: ops.append(f"setfrom {o} {rng.randrange(n[o])} {p} {rng.randrange(n[p])}")
            elif r < 0.85: ops.append(f"rsv {o} {rng.choice([0, near(rng, 2 * top)])}")
            elif r < 0.89: ops.append(f"at {o} {rng.choice([n[o], n[o] + 1, max(0, n[o] - 1), n[o] + 64, 2**40])}" if rng.random() < .7 else f"at {o} {rng.randint(0, top)}")
            elif r < 0.94: ops.append(f"iters {o} {min(n[o], near(rng, top))} {min(n[o], near(rng, top))}")
            elif n[o]:
                x = min(n[o], near(rng, top)); y = rng.randrange(n[o]); ops.append(f"itermove {o} {x} {y - x}")
        ops = [q.replace(str(2**40), "2000000000") for q in ops]
        hs.append((f"r{k}", [], ops))
    return hs

# ------------------------------------------------------------------ C02, C03
def bit_shape(rng, n):
    """n bits as script tokens: mixtures of runs, random stretches of several densities, single ones"""
    toks, left = [], n
    style = rng.random()
    if style < .08: return [f"r{n}:0"] if n else []
    if style < .16: return [f"r{n}:1"] if n else []
    if style < .40: return [f"x{n}:{rng.choice([1,4,20,100,512,900,1015,1023])}:{rng.randint(0,10**6)}"] if n else []
    while left > 0:
        m = min(left, rng.choice([1, 1, 3, 63, 64, 65, 127, 128, 448, 511, 512, 513, 1024, rng.randint(1, 700), rng.randint(1, 3000)]))
        r = rng.random()
        if r < .3: toks.append(f"r{m}:0")
        elif r < .55: toks.append(f"r{m}:1")
        else: toks.append(f"x{m}:{rng.choice([2,10,100,512,900,1020])}:{rng.randint(0,10**6)}")
        left -= m
    return toks

def succinct(rng, tier, want):
    hs = []
    def add(name, toks, sel, how, ops): hs.append((name, [sel, how], ["bits " + " ".join(toks), "build"] + ops))
    # every length around the word and block boundaries
    k = 0
    lens = sorted(set(list(range(0, 6)) + [b * 64 + d for b in range(1, 18) for d in (-1, 0, 1)] + [512 * b + d for b in range(2, 9) for d in (-65, -64, -63, -1, 0, 1, 63, 64, 65)]))
    for n in lens:
        for rep in range(scale(tier, 2, 8)):
            sel = 1 if want == "select" else k % 2
            add(f"b{k}", bit_shape(rng, n), sel, k // 2 % 6, ["ranks"] + (["selects"] if sel else [])); k += 1
    for j in range(scale(tier, 60, 600)):
        n = rng.randint(1, 3500)
        sel = 1 if want == "select" else rng.randint(0, 1)
        add(f"s{j}", bit_shape(rng, n), sel, rng.randint(0, 5), ["ranks"] + (["selects"] if sel else []))
    for j in range(scale(tier, 14, 80)):
        n = rng.choice([5000, 9000, 16384, 20000, 32768, 40001, 65536, 66000])
        sel = 1 if want == "select" else rng.randint(0, 1)
        add(f"l{j}", bit_shape(rng, n), sel, rng.randint(0, 5), [f"coarse {j}"] + (["selects"] if sel else []))
    for j in range(scale(tier, 2, 8)):   # large: counts beyond 16 and 17 bits
        n = rng.choice([200000, 262144, 300001]) if tier == "quick" else rng.choice([2**18, 2**19 + 77, 2**20])
        shape = [f"r{n // 3}:1", f"x{n // 3}:700:{j}", f"r{n // 3}:{j % 2}"] if j % 2 else [f"x{n}:{rng.choice([3, 40, 990])}:{j}"]
        sel = 1 if want == "select" else j % 2
        add(f"g{j}", shape, sel, rng.randint(0, 5), [f"coarse {j}"] + (["selects"] if sel else []))
    if want == "select":
        # sparse: ones far apart, in clusters of about 512, and in the last block only
        for j in range(scale(tier, 24, 120)):
            toks = []
            for _ in range(rng.randint(1, 5)):
                toks.append(f"r{rng.choice([0, 1, 63, 511, 512, 1000, 2048, rng.randint(0, 6000)])}:0")
                toks.append(f"r{rng.choice([1, 2, 63, 64, 255, 510, 511, 512, 513, 514, 1023, 1024, 1025])}:1")
            if rng.random() < .6: toks.append(f"r{rng.choice([1, 62, 63, 64, 300, 511, 512, 513, 4000])}:0")
            add(f"c{j}", toks, 1, rng.randint(0, 5), ["selects", "coarse 1"])
    return hs

# ------------------------------------------------------------------ C04
def multibit(rng, tier):
    hs = []
    def types(u, n, style=None):
        top = 2 ** u - 1
        style = style or rng.choice(["uni", "uni", "runs", "one", "rare", "few"])
        if style == "uni": return [rng.randint(0, top) for _ in range(n)]
        if style == "one": t = rng.randint(0, top); return [t] * n
        if style == "few": ts = [rng.randint(0, top) for _ in range(2)]; return [rng.choice(ts) for _ in range(n)]
        if style == "rare": return [rng.randint(0, top) if rng.random() < .03 else 0 for _ in range(n)]
        r = []
        while len(r) < n: r += [rng.randint(0, top)] * rng.choice([1, 2, 20, 21, 32, 63, 64, 65, 126, 252, 256, 300])
        return r[:n]
    k = 0
    for u in (1, 2, 3):
        per = 64 // u
        blk = 252 if u == 3 else 256
        lens = sorted(set([0, 1, 2] + [per * a + d for a in (1, 2, 3, 7, 8, 11, 12, 13) for d in (-1, 0, 1)] + [blk * a + d for a in (1, 2, 3) for d in (-1, 0, 1)] + [rng.randint(1, 2500) for _ in range(scale(tier, 12, 150))]))
        for n in lens:
            for _ in range(scale(tier, 1, 3)):
                ops = []
                if n: ops.append("seq " + "".join(map(str, types(u, n))))
                ops += ["build", "all", "ranks"]
                if rng.random() < .5: ops += ["copy", "all", "ranks"]
                if rng.random() < .5 and n:   # change and build again; types may disappear and appear
                    ops += ["sets " + " ".join(f"{rng.randrange(n)}:{rng.randint(0, 2**u-1)}" for _ in range(rng.randint(1, 30)))]
                    if rng.random() < .4: ops += [f"grow {n + rng.randint(0, 400)}"]
                    ops += ["build", "ranks", "all"]
                hs.append((f"q{k}", [u], ops)); k += 1
        for _ in range(scale(tier, 30, 300)):   # arbitrary order of writes, growing in steps
            top = rng.choice([5, 40, 140, 300, 700]); ops = []
            for _ in range(rng.randint(2, 9)):
                r = rng.random()
                if r < .6: ops.append("sets " + " ".join(f"{rng.randint(0, top)}:{rng.randint(0, 2**u-1)}" for _ in range(rng.randint(1, 40)))); ops.append("all")
                elif r < .7: ops += [f"grow {rng.randint(0, top)}", "all"]
                elif r < .8: ops += ["copy", "all"]
                else: ops += ["build", "ranks"]
            ops += ["build", "ranks", "all"]
            hs.append((f"w{k}", [u], ops)); k += 1
    return hs

# ------------------------------------------------------------------ C05
def hexb(bs):
    return bytes(bs).hex() or "-"

def wavelet(rng, tier):
    hs = []
    def seq(n):
        st = rng.random()
        top = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 100, 127, 128, 200, 254, 255, 255])
        if st < .4: return [rng.randint(0, top) for _ in range(n)]
        if st < .5: return [top] * n
        syms = [rng.randint(0, top) for _ in range(rng.randint(1, 4))]
        r = []
        while len(r) < n: r += [rng.choice(syms)] * rng.choice([1, 1, 2, 5, 64, 200])
        return r[:n]
    lens = list(range(1, 12)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1536, 2050]
    for k in range(scale(tier, 170, 1500)):
        n = lens[k % len(lens)] if k < 3 * len(lens) else rng.choice([rng.randint(1, 40), rng.randint(1, 300), rng.randint(1, 1500)])
        ops = ["build " + hexb(seq(n)), "all"]
        if rng.random() < .4: ops += ["copy", "all"]
        if rng.random() < .3:
            for _ in range(rng.randint(1, 3)): ops += ["build " + hexb(seq(rng.randint(1, rng.choice([5, 100])))), "all"]
            if rng.random() < .5: ops += ["copy", "all"]
        hs.append((f"w{k}", [rng.randint(0, 3)], ops))
    return hs

# ------------------------------------------------------------------ C06
def val(rng, width, style=None):
    """a value of at most width bits, often extreme"""
    if width <= 0: return 0
    r = rng.random()
    if r < .25: return (1 << width) - 1
    if r < .35: return 0
    if r < .5: return 1 << (width - 1)
    if r < .6: return 1
    if r < .7: return ((1 << width) - 1) ^ (1 << rng.randrange(width))
    if r < .8: return rng.getrandbits(rng.randint(1, width))
    return rng.getrandbits(width)

def fitvec(rng, tier):
    hs = []
    for k in range(scale(tier, 260, 2500)):
        w = [64, 64]; n = [0, 0]; ops = []
        base = k % 64 + 1
        def neww(): return base if rng.random() < .7 else rng.randint(1, 64)
        def nlen(o): 
            r = rng.random()
            if r < .3: return rng.randint(0, 4)
            per = max(1, 64 // w[o])
            if r < .7: return min(150, max(0, per * rng.randint(1, 4) + rng.randint(-1, 1)))
            return rng.randint(0, 80)
        for o in (0, 1):
            w[o] = neww(); n[o] = nlen(o)
            ops.append(f"new {o} {w[o]} {n[o]}")
        for _ in range(rng.randint(10, 30)):
            o = rng.randint(0, 1); p = rng.randint(0, 1); r = rng.random()
            if r < .04: w[o] = neww(); n[o] = nlen(o); ops.append(f"new {o} {w[o]} {n[o]}")
            elif r < .08: w[o] = neww(); n[o] = nlen(o); ops.append(f"newv {o} {w[o]} {n[o]} {val(rng, w[o]):x}")
            elif r < .13:
                ty = rng.randint(0, 4); mx = [64, 32, 8, 63, 16][ty]; wd = rng.randint(0, mx)
                l = [val(rng, wd) for _ in range(rng.randint(1, 20))]
                w[o] = max(1, max(x.bit_length() for x in l)); n[o] = len(l)
                ops.append(f"list {o} {ty} " + " ".join(f"{x:x}" for x in l))
            elif r < .17: ops.append(f"cpy {o} {p}"); w[o] = w[p]; n[o] = n[p]
            elif r < .19 and o != p: ops.append(f"mov {o} {p}"); w[o] = w[p]; n[o] = n[p]; w[p] = 3; n[p] = 0
            elif r < .34: m = nlen(o) if rng.random() < .5 else max(0, n[o] + rng.randint(-3, 3)); ops.append(f"res {o} {m}"); n[o] = m
            elif r < .42: m = nlen(o) if rng.random() < .5 else max(0, n[o] + rng.randint(-3, 5)); ops.append(f"resv {o} {m} {val(rng, w[o]):x}"); n[o] = m
            elif r < .46: m = nlen(o); ops.append(f"asn {o} {m} {val(rng, w[o]):x}"); n[o] = m
            elif r < .60: ops.append(f"push {o} {val(rng, w[o]):x}"); n[o] += 1
            elif r < .84 and n[o]: ops.append(f"set {o} {rng.choice([0, n[o]-1, rng.randrange(n[o]), rng.randrange(n[o])])} {val(rng, w[o]):x}")
            elif r < .90 and n[o] and n[p] and w[p] <= w[o]: ops.append(f"setfrom {o} {rng.randrange(n[o])} {p} {rng.randrange(n[p])}")
            elif r < .93: ops.append(f"rsv {o} {rng.randint(0, 100)}")
            else: ops.append(f"at {o} {rng.choice([n[o], n[o] + 1, 2000000000, rng.randint(0, n[o])])}")
        hs.append((f"f{k}", [], ops))
    hs.append(("e0", [], ["list 0 0", "cpy 1 0", "list 1 1 0", "list 1 1 0 0 0", "list 0 0 1", "push 0 1", "push 0 0"]))
    # every width, writes that straddle words, all neighbours checked
    for wd in range(1, 65):
        n = rng.choice([64 // wd + 2, 70, 130 // wd + 3])
        ops = [f"newv 0 {wd} {n} {(1 << wd) - 1:x}", f"new 1 {wd} {n}"]
        for _ in range(12):
            ops.append(f"set 0 {rng.randrange(n)} 0"); ops.append(f"set 1 {rng.randrange(n)} {(1 << wd) - 1:x}")
        hs.append((f"x{wd}", [], ops))
    return hs

# ------------------------------------------------------------------ C07
def dac(rng, tier):
    hs = []
    def partition(total, parts):
        cuts = sorted(rng.sample(range(1, total), min(parts - 1, total - 1))) if total > 1 else []
        return [b - a for a, b in zip([0] + cuts, cuts + [total])]
    def values(n, width):
        st = rng.random()
        if st < .3: return [val(rng, width) for _ in range(n)]
        if st < .6:  # geometric bit lengths
            return [rng.getrandbits(min(width, max(1, int(rng.expovariate(1 / 6)) + 1))) if width else 0 for _ in range(n)]
        if st < .8: return [0 if rng.random() < .9 else val(rng, width) for _ in range(n)]
        return [val(rng, rng.randint(0, width)) for _ in range(n)]
    for k in range(scale(tier, 320, 3000)):
        ty = rng.randint(0, 4); mx = [64, 32, 8, 31, 16][ty]
        width = rng.choice([mx, mx, rng.randint(0, mx), rng.randint(0, min(12, mx))])
        n = rng.choice([0, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 120), rng.randint(1, 120), rng.randint(300, 900)])
        l = values(n, width)
        auto = rng.random() < .5
        if auto: un = "-"
        else:
            need = max([1] + [x.bit_length() for x in l])
            total = min(64, need + rng.choice([0, 0, 0, 1, 5, 30]))
            total = max(total, 1)
            u = partition(total, rng.choice([1, 2, 2, 3, 4, 8, 12]))
            if rng.random() < .2 and total <= 56: u += [rng.randint(1, 8)]
            un = ",".join(map(str, u))
        ops = [f"build {un} " + " ".join(f"{x:x}" for x in l), "all"]
        for _ in range(2): ops.append("all")
        ops += [f"at {x}" for x in {0, max(0, n - 1), n, n + 1, 2000000000}]
        if n: ops += [f"iters {rng.randint(0, n)} {rng.randint(0, n)}" for _ in range(2)]
        ops += [f"itermove {rng.randint(0, n)} {rng.choice([0, n, rng.randint(0, n)])}" for _ in range(2)]
        if rng.random() < .3: ops += ["copy", "all"]
        if rng.random() < .3:
            for _ in range(rng.randint(1, 3)): ops += [f"build {un if rng.random() < .6 else '-'} " + " ".join(f"{x:x}" for x in (l[:rng.randint(0, n)] if rng.random() < .5 else rng.sample(l, n))), "all"]
        hs.append((f"d{k}", [ty], [" ".join(o.split()) for o in ops]))
    return hs

# ------------------------------------------------------------------ C08
def multiple(rng, tier):
    hs = []
    for k in range(scale(tier, 220, 2000)):
        nf = rng.randint(1, 6) if k % 8 else rng.choice([7, 8, 9, 16, 17, rng.randint(7, 40)])
        fs = [rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(nf)]
        if k % 24 == 0: nf = rng.randint(33, 40); fs = [rng.choice([7, 8, 8, 8]) for _ in range(nf)] # records of more than 255 bytes
        ops = ["layout " + " ".join(map(str, fs))]; n = 0
        def v64(): return val(rng, 64) if rng.random() < .5 else val(rng, 8 * rng.randint(1, 8))
        def vl(): return " ".join(f"{v64():x}" for _ in range(rng.choice([nf, nf, nf, rng.randint(0, nf)])))
        for _ in range(rng.randint(8, 28) if nf < 7 else 16):
            r = rng.random()
            if r < .03:
                nf = rng.randint(1, 6); fs = [rng.randint(1, 8) for _ in range(nf)]; n = 0; ops.append("layout " + " ".join(map(str, fs)))
            elif r < .20: ops.append("push " + vl()); n += 1
            elif r < .24: ops.append("emplace"); n += 1
            elif r < .30: m = rng.randint(0, n + 3); ops.append(f"res {m}"); n = m
            elif r < .38: m = rng.randint(0, n + 4); ops.append(f"resl {m} " + vl()); n = m
            elif r < .40: ops.append(f"rsv {rng.randint(0, 20)}")
            elif r < .43: ops.append("copy")
            elif n == 0: continue
            else:
                i, f = rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(nf)
                if r < .60: how = rng.randint(0, 3); x = val(rng, 8 * fs[f]) if how == 0 else v64(); ops.append(f"set {i} {f} {x:x} {how}")
                elif r < .70: ops.append(f"setat {i} {f} {v64():x} {rng.choice([1, 2, 4, 8])} {rng.randint(0, 1)}")
                elif r < .80: ops.append(f"setr {i} {f} {v64():x} {rng.choice([1, 2, 4, 8])}")
                elif r < .92: ops.append(f"getr {i} {f} {rng.choice([1, 2, 4, 8])}")
                else: ops.append(f"asn {i} " + vl())
        hs.append((f"m{k}", [], [" ".join(o.split()) for o in ops]))
    return hs

# ------------------------------------------------------------------ C09
CHT_VB = [0, 8, 32, 64, 16] * 2
def cht(rng, tier):
    hs = []
    for k in range(scale(tier, 220, 2500)):
        kind = k % 10; ident = kind >= 5
        bucket = rng.choice([1, 2, 4, 8, 8, 8, 16, 32, 64, 256])
        kb = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 16, 20, 32, 40, 48, 57, 60, 60])
        vw = rng.choice([1, 2, 7, 8, 31, 33, 63, 64]) if CHT_VB[kind] == 0 else CHT_VB[kind]
        dflt = 1 if bucket == 8 and rng.random() < .5 else 0
        nk = min(2 ** kb, rng.choice([2, 4, 8, 12, 20, 20, 40, 100, 300]))
        style = rng.random()
        if nk == 2 ** kb and kb <= 8: keys = list(range(nk))
        elif ident and style < .5:   # many keys of few home positions, wrapping around the end
            lows = [rng.choice([0, 1, 2, bucket - 1, bucket - 2, rng.randrange(max(bucket, 1))]) % max(1, bucket) for _ in range(3)]
            s = set()
            for _ in range(nk * 20):
                if len(s) >= nk: break
                s.add(((rng.getrandbits(min(12, max(1, kb))) * bucket) | rng.choice(lows)) % 2 ** kb)
            keys = list(s)
        elif style < .75: 
            s = set([0, 2 ** kb - 1])
            while len(s) < nk: s.add(rng.getrandbits(kb))
            keys = list(s)[:max(nk, 2)]
        else: b = rng.getrandbits(kb); keys = list({(b + j) % 2 ** kb for j in range(nk)})
        rng.shuffle(keys); nk = len(keys)
        ops = ["keys " + " ".join(f"{x:x}" for x in keys)]
        present = [set(), set()]
        nops = rng.choice([15, 40, 40, 80]) if nk <= 40 else rng.choice([120, 250])
        phase = rng.random()
        for t in range(nops):
            if rng.random() < .05: phase = rng.random()
            o = 0 if rng.random() < .85 else 1
            r = rng.random(); j = rng.randrange(nk)
            if r < .04: ops.append(f"cpy {o} {1-o}" if rng.random() < .9 else f"cpy {o} {o}"); continue
            if r < .05: ops.append(f"new {o}"); continue
            if r < .09: ops.append(f"rsv {o} {rng.choice([0, 1, rng.randint(0, 2 * nk), rng.randint(0, 300)])}"); continue
            if r < .14: ops.append(f"get {o} {j}"); continue
            if nk <= 24 or rng.random() < .15: pass
            ops.append(f"set {o} {j} {val(rng, vw):x}" if rng.random() < (.75 if phase < .6 else .25) else f"del {o} {j}")
            if nk <= 24 or rng.random() < .1: ops.append(f"all {o}")
        ops += ["all 0", "all 1"]
        hs.append((f"h{k}", [kind, kb, bucket, vw, dflt], ops))
    for k in range(scale(tier, 3, 20)):   # grow large, shrink again
        kind = rng.randrange(10); vw = 13 if CHT_VB[kind] == 0 else CHT_VB[kind]; n = scale(tier, 600, 1500)
        keys = rng.sample(range(2 ** 20), n)
        ops = ["keys " + " ".join(f"{x:x}" for x in keys)]
        order = list(range(n)); rng.shuffle(order)
        for j in order: ops.append(f"set 0 {j} {val(rng, vw):x}")
        ops.append("all 0"); rng.shuffle(order)
        for j in order[:n * 9 // 10]: ops.append(f"del 0 {j}")
        ops.append("all 0")
        for j in order[:n // 2]: ops.append(f"set 0 {j} {val(rng, vw):x}")
        ops.append("all 0")
        hs.append((f"g{k}", [kind, 20, 8, vw, 1], ops))
    return hs

# ------------------------------------------------------------------ C10
def cdrw(rng, tier):
    hs = []
    def v(): return rng.choice([0, 0, 1, val(rng, 64), val(rng, rng.randint(1, 64)), val(rng, rng.choice([1, 2, 3]))])
    for k in range(scale(tier, 90, 900)):     # arrays
        ops = []; n = [0, 0]
        sz = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100])
        for o in (0, 1):
            n[o] = sz if o == 0 else rng.randint(1, 20)
            if rng.random() < .7: ops.append(f"new {o} {n[o]}")
            else: ops.append(f"list {o} " + " ".join(f"{v():x}" for _ in range(n[o])))
        few = [v() for _ in range(2)]
        for _ in range(rng.choice([20, 50, 120])):
            o = 0 if rng.random() < .85 else 1; r = rng.random()
            if r < .03: ops.append(f"cpy {o} {1-o}"); n[o] = n[1 - o]
            elif r < .04: n[o] = rng.choice([0, 1, 2, 8]); ops.append(f"new {o} {n[o]}")
            elif r < .05: n[o] = rng.randint(0, 9); ops.append((f"list {o} " + " ".join(f"{v():x}" for _ in range(n[o]))).strip())
            elif n[o] == 0: continue
            elif r < .15: ops.append(f"get {o} {rng.randrange(n[o])}")
            else:
                ops.append(f"set {o} {rng.randrange(n[o])} {rng.choice(few) if rng.random() < .3 else v():x}")
                if n[o] <= 17 or rng.random() < .1: ops.append(f"all {o}")
        ops += ["all 0", "all 1"]
        hs.append((f"a{k}", [0], ops))
    for k in range(scale(tier, 130, 1300)):   # vectors
        ops = []; n = [0, 0]
        if rng.random() < .5: n[0] = rng.randint(0, 20); ops.append(f"new 0 {n[0]}")
        for _ in range(rng.choice([15, 40, 70])):
            o = 0 if rng.random() < .85 else 1; r = rng.random()
            if r < .25: m = rng.choice([1, 1, 1, 2, 5, 9]); ops.append(f"push {o} " + " ".join(f"{v():x}" for _ in range(m))); n[o] += m
            elif r < .40: m = rng.choice([1, 1, 2, 4, n[o], n[o] + 1, n[o] // 2]); ops.append(f"pop {o} {m}"); n[o] = max(0, n[o] - m)
            elif r < .52: m = rng.choice([0, 1, n[o], n[o] + rng.randint(0, 5), rng.randint(0, 40), max(0, n[o] - rng.randint(0, 5))]); ops.append(f"res {o} {m}"); n[o] = m
            elif r < .57: ops.append(f"rsv {o} {rng.choice([0, n[o], n[o] + 1, rng.randint(0, 60)])}")
            elif r < .62: ops.append(f"shr {o}")
            elif r < .64: ops.append(f"clr {o}"); n[o] = 0
            elif r < .67: ops.append(f"cpy {o} {1-o}"); n[o] = n[1 - o]
            elif r < .68: n[o] = rng.randint(0, 10); ops.append(f"new {o} {n[o]}")
            elif n[o]:
                ops.append(f"set {o} {rng.randrange(n[o])} {v():x}")
            ops.append(f"all {o}")
        ops += ["all 0", "all 1"]
        hs.append((f"v{k}", [1], ops))
    for k in range(scale(tier, 3, 12)):       # larger
        n = rng.choice([300, 512, 600]); ops = [f"new 0 {n}"]
        for _ in range(2 * n): ops.append(f"set 0 {rng.randrange(n)} {v():x}")
        ops.append("all 0"); hs.append((f"l{k}", [0], ops))
        ops = ["push 0 " + " ".join(f"{v():x}" for _ in range(n)), "all 0"] + [f"pop 0 {n//6}", "all 0"] * 5
        hs.append((f"lv{k}", [1], ops))
    return hs

# ------------------------------------------------------------------ C11
def bijhash(rng, tier):
    hs = []
    for kind in range(7):
        for w in range(1, scale(tier, 11, 14)): hs.append((f"t{kind}_{w}", [kind, w, 0], ["table"]))
        for w in range(1, 65):
            n = scale(tier, 40, 300)
            pts = [0, 1, 2 ** w - 1, 2 ** (w - 1)] + [2 ** j for j in range(w)] + [(2 ** w - 1) ^ (1 << j) for j in range(0, w, 3)] + [rng.getrandbits(w) for _ in range(n)] + [j % 2 ** w for j in range(10)]
            hs.append((f"p{kind}_{w}", [kind, w, 0], ["pts " + " ".join(f"{x:x}" for x in pts)]))
        hs.append((f"d{kind}", [kind, 64, 1], ["pts " + " ".join(f"{x:x}" for x in [0, 1, 2**64 - 1, 2**63] + [val(rng, 64) for _ in range(100)])]))
    return hs

# ------------------------------------------------------------------ C12
def heap(rng, tier):
    hs = []
    for k in range(scale(tier, 300, 3000)):
        m = rng.choice([1, 2, 3, 5, 8, 30])
        tab = sorted({rng.choice([0, 1, 2**64 - 1, 2**63, 2**63 - 1, 2**32, val(rng, 64), rng.randint(0, 50)]) for _ in range(m)}); m = len(tab)
        ops = ["tab " + " ".join(f"{x:x}" for x in tab)]
        n = 0
        for _ in range(rng.choice([10, 30, 60])):
            r = rng.random(); x = rng.randrange(m)
            if r < .08: n = rng.choice([0, 1, 2, 3, 7, 8, rng.randint(0, 40)]); ops.append(("list " + " ".join(str(rng.randrange(m)) for _ in range(n))).strip())
            elif r < .50: ops.append(f"push {x}"); n += 1
            elif r < .80 and n: ops.append("pop"); n -= 1
            elif r < .88 and n: ops.append("raw " + " ".join(f"{rng.randint(1, n)} {rng.randrange(m)}" for _ in range(rng.randint(1, min(6, n)))))
            elif r < .92 and n: ops.append(f"sift {rng.randint(1, n)} {x}")
            elif r < .95: ops.append("all")
            elif r < .97: ops.append("copy")
            elif r < .985: ops.append("drain"); n = 0
        ops += ["all", "drain"]
        hs.append((f"h{k}", [k % 2], ops))
    # all short lists, built and drained
    import itertools
    c = 0
    for asc in (0, 1):
        for n in range(0, scale(tier, 6, 7)):
            ops = ["tab 5 8000000000000000 ffffffffffffffff"]
            for l in itertools.product(range(3), repeat=n): ops += [("list " + " ".join(map(str, l))).strip(), "drain"]
            hs.append((f"x{asc}_{n}", [asc], ops))
    # all short sequences of pushes, drained
    for asc in (0, 1):
        ops = ["tab 1 2 3"]
        for l in itertools.product(range(3), repeat=scale(tier, 5, 6)): ops += [f"push {x}" for x in l] + ["drain"]
        hs.append((f"y{asc}", [asc], ops))
    return hs

# ------------------------------------------------------------------ C13
def heapsort(rng, tier):
    import itertools
    hs = []
    def line(l, a=None, b=None, ty=None, cont=None, cmp=None):
        ty = rng.randint(0, 6) if ty is None else ty
        cont = rng.randint(0, 3) if cont is None else cont
        cmp = rng.choice(["default", "default", "less", "greater", "mod", "none"]) if cmp is None else cmp
        if cmp == "default" and ty == 4: cmp = "less"
        if ty in (1, 5): l = [abs(x) % 256 for x in l]
        return f"sort {ty} {cont} {cmp} {rng.choice([1, 2, 3, 10])} {0 if a is None else a} {len(l) if b is None else b} " + " ".join(map(str, l))
    ops = []
    for n in range(0, scale(tier, 6, 7)):
        for l in itertools.product(range(4), repeat=n): ops.append(line(list(l), cmp="default" if rng.random() < .5 else None))
    for k in range(0, len(ops), 60): hs.append((f"x{k}", [], [o.strip() for o in ops[k:k+60]]))
    for k in range(scale(tier, 120, 1200)):
        ops = []
        for _ in range(4):
            n = rng.choice([0, 1, 2, 3, rng.randint(4, 30), rng.randint(30, 260), 255, 256, 257])
            r = rng.random(); hi = rng.choice([1, 3, 10, 200, 30000])
            l = [rng.randint(0, hi) - (hi // 2 if rng.random() < .5 else 0) for _ in range(n)]
            if r < .15: l.sort()
            elif r < .3: l.sort(reverse=True)
            a = b = None
            if rng.random() < .5: a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
            ops.append(line(l, a, b).strip())
        hs.append((f"s{k}", [], ops))
    return hs

# ------------------------------------------------------------------ C14
IA_BITS = [8, 16, 32, 64, 8, 64, 64, 32, 64]
def initarr(rng, tier):
    hs = []
    def sane(ty, x):
        if ty == 6 and (x >> 52) & 0x7ff == 0x7ff: x &= ~(1 << 62)
        if ty == 7 and (x >> 23) & 0xff == 0xff: x &= ~(1 << 30)
        return x
    for k in range(scale(tier, 420, 4000)):
        kind = 1 if k % 4 else 0
        ty = rng.randint(0, 8); bits = IA_BITS[ty]
        n = rng.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 16, 33, 64, 128] if ty < 4 else [1, 4, 4, 5, 5, 6, 6, 8, 8, 64]) if kind else rng.choice([0, 1, 2, 3, 5, 8, 20, 64])
        n0 = n; links = [2 * b for b in range((n + 1) // 2 + 1)]
        def v():
            r = rng.random()
            if r < .6: return rng.choice(links) % 2 ** bits
            if r < .8: return rng.randint(0, n + 1) % 2 ** bits
            return sane(ty, val(rng, bits))
        # earlier content of the memory: zeroes, ones, noise, or a plausible image: link-like values of T's size
        def image(): return b"".join(sane(ty, v()).to_bytes(bits // 8, "little") for _ in range(n + 4))
        r = rng.random()
        mem = b"\0" if r < .1 else b"\xff" if r < .15 and ty < 6 else bytes(rng.getrandbits(8) for _ in range(40)) if r < .3 and ty < 6 else image()
        if mem and len(mem) % 2 == 1 and rng.random() < .5: mem += mem
        ops = [f"mem {mem.hex()} {v():x}" if rng.random() < .7 else f"mem {mem.hex()} 0"]
        for _ in range(rng.choice([8, 20, 40]) if n <= 16 else 25):
            r = rng.random()
            if n == 0: ops.append(f"init {v():x}"); continue
            if r < .10: ops.append(f"init {v():x}")
            elif r < .13: ops.append("init0")
            elif r < .14: ops.append("copy")
            elif r < .16 and kind == 0: n = rng.randint(1, 12); ops.append("list " + " ".join(f"{v():x}" for _ in range(n)))
            elif r < .88 or n < 20: ops.append(f"set {rng.randrange(n)} {v():x}")
            else: ops.append("setq " + " ".join(f"{rng.randrange(n)} {v():x}" for _ in range(rng.randint(1, 40))))
        hs.append((f"i{k}", [kind, ty, n0], ops))
    return hs

# ------------------------------------------------------------------ strings
def H8(b): return bytes(b).hex() or "-"
def fib(a, b, n):
    x, y = bytes([a]), bytes([a, b])
    while len(y) < n: x, y = y, y + x
    return list(y[:n])
def thue(a, b, n): return [b if bin(j).count("1") % 2 else a for j in range(n)]
def debruijn(k, n):
    a, seq = [0] * k * n, []
    def db(t, p):
        if t > n:
            if n % p == 0: seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]; db(t + 1, p)
            for j in range(a[t - p] + 1, k): a[t] = j; db(t + 1, t)
    db(1, 1)
    return seq
ALPHS = [[97], [97, 98], [97, 98, 99], [0, 255], [0, 1], [127, 128], [97, 0, 255, 128], [1, 255], list(range(256)), list(range(128, 256)), list(range(250, 256)), list(range(97, 123))]
def text(rng, n, nul=True, alph=None):
    """n bytes: random over small or large alphabets, periodic, Fibonacci, Thue-Morse, de Bruijn, nearly periodic, blocks"""
    al = alph or rng.choice(ALPHS)
    if not nul: al = [c for c in al if c] or [255]
    r = rng.random()
    if n == 0: return []
    if r < .35: t = [rng.choice(al) for _ in range(n)]
    elif r < .45: p = [rng.choice(al) for _ in range(rng.randint(1, 6))]; t = (p * (n // len(p) + 1))[:n]
    elif r < .60:
        p = [rng.choice(al) for _ in range(rng.randint(1, 8))]; t = (p * (n // len(p) + 1))[:n]
        for _ in range(rng.randint(1, 3)): t[rng.randrange(n)] = rng.choice(al)
    elif r < .68: t = fib(al[0], al[-1], n)
    elif r < .74: t = thue(al[0], al[-1], n)
    elif r < .80: d = debruijn(2, 7); t = [al[0] if x else al[-1] for x in d]; t = (t * (n // len(t) + 1))[:n]
    elif r < .86: t = sorted(rng.choice(al) for _ in range(n))
    elif r < .90: t = sorted((rng.choice(al) for _ in range(n)), reverse=True)
    else:
        t, blocks = [], [[rng.choice(al) for _ in range(rng.randint(1, 9))] for _ in range(3)]
        while len(t) < n: t += rng.choice(blocks)
        t = t[:n]
    return t

# ------------------------------------------------------------------ C15
def oracle(rng, tier):
    import itertools
    hs = []
    for a, b in ((97, 98), (0, 255)):
        for n in range(0, scale(tier, 7, 9)):
            ops = []
            qs = [q for m in range(0, min(n + 2, 6)) for q in itertools.product((a, b), repeat=m)]
            for t in itertools.product((a, b), repeat=n):
                ops.append("text " + H8(t)); ops.append("qs " + " ".join(H8(q) for q in qs))
                ops.append("qs " + " ".join(H8(q) for q in ([list(t), list(t) + [a], list(t) + [b]])))
            for c in range(0, len(ops), 96): hs.append((f"x{a}_{n}_{c}", [], ops[c:c + 96]))
    al = (0, 1, 128)
    for n in range(1, scale(tier, 5, 6)):
        ops = []
        qs = [q for m in range(0, 5) for q in itertools.product(al, repeat=m)]
        for t in itertools.product(al, repeat=n): ops += ["text " + H8(t), "qs " + " ".join(H8(q) for q in qs)]
        for c in range(0, len(ops), 60): hs.append((f"t{n}_{c}", [], ops[c:c + 60]))
    def subs(t, k):
        n = len(t); out = []
        for _ in range(k):
            s = rng.randint(0, n); l = rng.choice([1, 2, 3, 5, rng.randint(0, 40), n]); l = min(l, n - s)
            if rng.random() < .5: out.append((s, l, -1, 0))
            else: out.append((s, l, rng.choice([l, l, rng.randint(0, l)]), rng.choice([rng.choice(t) if t else 5, rng.randint(0, 255)])))
        return "sub " + " ".join(f"{a} {b} {c} {d}" for a, b, c, d in out)
    for k in range(scale(tier, 130, 1000)):
        n = rng.choice([0, 1, 2, 5, 17, rng.randint(3, 60), rng.randint(60, 200), 254, 255, 256, 257, 258, rng.randint(250, 500)])
        t = text(rng, n)
        ops = ["text " + H8(t), subs(t, 60), "qs " + " ".join(H8(text(rng, rng.randint(0, 6), alph=sorted(set(t)) or [1])) for _ in range(40))]
        hs.append((f"r{k}", [], ops))
    for k in range(scale(tier, 6, 30)):   # states with many transitions, several blocks of the table
        n = rng.choice([513, 700, 1100]) if tier == "quick" else rng.choice([1100, 2500, 4000])
        t = [rng.randint(0, 255) for _ in range(n)] if k % 3 else (list(range(256)) * (n // 256 + 1))[:n] if k % 2 else [rng.choice([0, 0, 0, rng.randint(0, 255)]) for _ in range(n)]
        hs.append((f"l{k}", [], ["text " + H8(t), subs(t, 60), subs(t, 60), "qs " + " ".join(H8([c]) for c in range(256))]))
    return hs

# ------------------------------------------------------------------ C16
def match(rng, tier):
    import itertools
    hs = []
    for a, b in ((97, 98), (255, 0)):
        for m in range(1, scale(tier, 5, 6)):
            for c, k in enumerate(itertools.product((a, b), repeat=m)):
                ts = [t for n in range(0, scale(tier, 8, 10)) for t in itertools.product((a, b), repeat=n)]
                hs.append((f"x{a}_{m}_{c}", [], ["key " + H8(k), "texts " + " ".join(H8(t) for t in ts)]))
    al = (0, 127, 128)
    for c, k in enumerate(k for m in range(1, 4) for k in itertools.product(al, repeat=m)):
        ts = [t for n in range(0, 5) for t in itertools.product(al, repeat=n)]
        hs.append((f"t{c}", [], ["key " + H8(k), "texts " + " ".join(H8(t) for t in ts)]))
    for j in range(scale(tier, 700, 8000)):
        al = rng.choice(ALPHS)
        m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 33, rng.randint(1, 70)])
        big = text(rng, rng.choice([5, 20, 60, 150, 300]), alph=al)
        if rng.random() < .5 and len(big) >= m: s = rng.randint(0, len(big) - m); key = big[s:s + m]
        else: key = text(rng, m, alph=al)
        ts = [big]
        ts.append(text(rng, rng.choice([0, 1, max(0, m - 1), m, m + 1, 2 * m, 2 * m + 1, 3 * m - 1, 100]), alph=al))
        t = []   # pieces of the key, whole keys, and letters
        while len(t) < rng.choice([10, 60, 200]):
            r = rng.random()
            if r < .35: t += key
            elif r < .6: t += key[:rng.randint(0, m)]
            elif r < .85: t += key[rng.randint(0, m):]
            else: t.append(rng.choice(al))
        ts.append(t)
        p = (key * 4)[: rng.randint(m, 4 * m)]
        if rng.random() < .5: p[rng.randrange(len(p))] = rng.choice(al)
        ts.append(p)
        ts.append(list(key)); ts.append(key[1:]); ts.append(key[:-1]); ts.append([rng.choice(al)] + key + [rng.choice(al)])
        hs.append((f"r{j}", [], ["key " + H8(key), "texts " + " ".join(H8(t) for t in ts)]))
    def in_runs(ls, a, b): return [c for j, l in enumerate(ls) for c in [(a, b)[j % 2]] * l]
    for j in range(scale(tier, 130, 1500)):   # few long runs: keys that almost match, one after the other
        a, b = rng.choice([(97, 98), (0, 255), (128, 127)])
        ls = [rng.randint(1, rng.choice([2, 9])) for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4]))]
        key = in_runs(ls, a, b); ts = []
        for _ in range(30):
            t = []
            for _ in range(rng.randint(1, 4)):
                l = list(ls)
                for _ in range(rng.randint(0, 2)): x = rng.randrange(len(l)); l[x] = max(0, l[x] + rng.choice([-2, -1, 1, 1, 2, 3]))
                t += [rng.choice([a, b, 99])] * rng.randint(0, 3) + in_runs(l, a, b)
            ts.append(t)
        hs.append((f"u{j}", [], ["key " + H8(key), "texts " + " ".join(H8(t) for t in ts)]))
    def cycle(letters, n):   # every word of n letters occurs in it (de Bruijn)
        k = len(letters); a = [0] * (k * n); out = []
        def db(t, p):
            if t > n:
                if n % p == 0: out.extend(a[1:p + 1])
            else:
                a[t] = a[t - p]; db(t + 1, p)
                for c in range(a[t - p] + 1, k): a[t] = c; db(t + 1, t)
        db(1, 1)
        return [letters[c] for c in out]
    for letters, ms, n, part in (((97, 98), range(5, 9), 9, 1), ((0, 128, 255), range(4, 6), 6, .4)):   # all short keys against all contexts
        ring = cycle(letters, scale(tier, n, n + 1 if len(letters) == 3 else n + 2))
        for m in ms:
            for c, k in enumerate(itertools.product(letters, repeat=m)):
                if rng.random() > part and tier == "quick": continue
                o = rng.randrange(len(ring)); t = ring[o:] + ring[:o]; t += t[:m]
                hs.append((f"d{letters[0]}_{m}_{c}", [], ["key " + H8(k), "texts " + H8(t)]))
    for j in range(scale(tier, 40, 600)):   # words that repeat themselves: Fibonacci, Thue-Morse, powers, doubled and spoiled
        a, b = rng.sample(rng.choice([(97, 98), (0, 255), (128, 127), (7, 135)]), 2); r = j % 4; m = rng.randint(10, 260)
        if r == 0:
            x, y = [a], [a, b]
            while len(y) < 3 * m: x, y = y, y + x
            w = y
        elif r == 1: w = [(a, b)[bin(t).count("1") & 1] for t in range(3 * m)]
        elif r == 2: q = text(rng, rng.randint(1, 20), alph=[a, b]); w = (q * (3 * m))[:3 * m]
        else:
            w = [a]
            while len(w) < 3 * m: w = w + [rng.choice([a, b])] + w
        s_ = rng.randint(0, len(w) - m); key = w[s_:s_ + m]
        t = list(w[:3 * m]); t2 = list(key) * 2 + list(w[:m])
        if rng.random() < .5: t2[rng.randrange(len(t2))] ^= a ^ b
        t3 = list(key[:-1]) + [key[-1] ^ a ^ b] + list(key) + list(key[1:]) + list(key)
        hs.append((f"w{j}", [], ["key " + H8(key), "texts " + " ".join(map(H8, (t, t2, t3)))]))
    for j in range(scale(tier, 6, 40)):   # around the bounds of a byte
        m = [255, 256, 257, 512, 254, 511][j % 6]; al = rng.choice(ALPHS)[:30]; key = text(rng, m, alph=al)
        o = [c for c in range(256) if c not in key][:3] or [key[0]]
        t = [rng.choice(o) for _ in range(rng.randint(0, m + 3))] + key + [rng.choice(o + al) for _ in range(rng.randint(0, 300))] + key + key[1:] + o + key + o
        hs.append((f"b{j}", [], ["key " + H8(key), "texts " + H8(t) + " " + H8(o * m + key)]))
    for j in range(scale(tier, 4, 30)):
        al = rng.choice(ALPHS); key = text(rng, rng.choice([3, 30, 257, 300, 600]), alph=al)
        t = text(rng, 1500, alph=al); s = rng.randint(0, 900); t[s:s + len(key)] = key; t[-len(key):] = key
        hs.append((f"l{j}", [], ["key " + H8(key), "texts " + H8(t) + " " + H8(key + key[1:] + key) ]))
    return hs

# ------------------------------------------------------------------ C17
def words(rng, count, al, maxlen, nul=True):
    """a set of strings with many shared prefixes"""
    ws = [[]] if rng.random() < .4 else []
    while len(ws) < count:
        r = rng.random()
        if ws and r < .5: b = rng.choice(ws); b = b[:rng.randint(0, len(b))] + [rng.choice(al) for _ in range(rng.randint(0, 3))]
        elif ws and r < .6: b = list(rng.choice(ws)) + [rng.choice(al)]
        elif ws and r < .7: b = list(rng.choice(ws)); b = b[:-1]
        elif ws and r < .8: b = [rng.choice(al)] + list(rng.choice(ws))
        else: b = [rng.choice(al) for _ in range(rng.randint(0, maxlen))]
        b = b[:maxlen + 4]
        if not nul: b = [c for c in b if c]
        ws.append(b)
    return ws

def mutate(rng, w, al):
    w = list(w); r = rng.random()
    if r < .2: return w + [rng.choice(al + [0, 255])]
    if r < .4: return w[:-1]
    if r < .5: return w + [0]
    if r < .85 and w: w[rng.randrange(len(w))] = rng.choice(al + [0, 1, 254, 255, rng.randint(0, 255)]); return w
    if w: p = rng.randrange(len(w)); return w[:p] + [rng.choice([0, 255, rng.choice(al)])] + w[p:]
    return [rng.choice(al + [0, 255])]

def trie(rng, tier):
    import itertools
    hs = []
    for k in range(scale(tier, 170, 1500)):
        ty = rng.randint(0, 5); al = rng.choice(ALPHS)
        ws = words(rng, rng.choice([1, 2, 4, 8, 15, 30]), al, rng.choice([2, 4, 8, 20]))
        ops = []
        for j in range(rng.choice([3, 10, 25])):
            w = rng.choice(ws) if rng.random() < .8 else mutate(rng, rng.choice(ws), al)
            r = rng.random()
            if r < .5: ops.append(f"ins {H8(w)} {rng.randint(0, 60000)}")
            elif r < .55: ops.append(f"assign {H8(w)} {rng.randint(0, 60000)}")
            elif r < .75: ops.append("look " + " ".join(H8(rng.choice(ws) if rng.random() < .5 else mutate(rng, rng.choice(ws), al)) for _ in range(6)))
            elif r < .85: ops.append("walk " + H8(rng.choice(ws) + [0] if rng.random() < .4 else mutate(rng, rng.choice(ws), al)))
            elif r < .91: ops.append("dfs")
            elif r < .97: ops.append("bfs")
            else: ops.append("copy")
        ops += ["look " + " ".join(H8(w) for w in ws[:20]), "dfs", "bfs"]
        hs.append((f"r{k}", [ty], ops))
    # all histories of few insertions over few keys
    ks = [[], [97], [0], [97, 0], [97, 98]]
    for ty in range(0, 6):
        n = 0
        for l in itertools.permutations(range(5), 3):
            if ty and rng.random() < .7: continue
            ops = []
            for x in l: ops += [f"ins {H8(ks[x])} {x}", "look " + " ".join(H8(q) for q in ks + [[98], [97, 0, 0], [0, 0]]), "dfs"]
            ops += [f"ins {H8(ks[l[0]])} 9", "look " + " ".join(H8(q) for q in ks), "bfs"]
            hs.append((f"p{ty}_{n}", [ty], ops)); n += 1
    for k in range(scale(tier, 6, 40)):   # keys longer than a byte counts
        al = rng.choice(ALPHS); ws = []; ops = []
        for j in range(rng.randint(1, 4)):
            n = rng.choice([254, 255, 256, 257, 300, 512])
            ws.append(text(rng, n, alph=al) if not ws or rng.random() < .5 else (rng.choice(ws) + text(rng, 300, alph=al))[:n])
            ops.append(f"ins {H8(ws[-1])} {rng.randint(0, 60000)}")
        ops.append("look " + " ".join(H8(q) for q in ws + [mutate(rng, rng.choice(ws), al) for _ in range(10)] + [w[:m] for w in ws for m in (44, 255, 256)]))
        ops += [f"walk {H8(rng.choice(ws))}", "dfs" if k % 2 else "bfs"]
        hs.append((f"k{k}", [rng.randint(0, 5)], ops))
    # a node with all edges, and many nodes
    for j in range(scale(tier, 3, 12)):
        cs = list(range(256)); rng.shuffle(cs)
        ops = [f"ins {H8([7, c] if j % 2 else [c])} {c}" for c in cs[:scale(tier, 256, 256)]]
        ops += ["dfs", "bfs", "look " + " ".join(H8([7, c] if j % 2 else [c]) for c in range(256)), "walk 0741", "walk 41"]
        hs.append((f"w{j}", [rng.choice([0, 1, 4, 5])], ops))
    return hs

# ------------------------------------------------------------------ C18, C23
def samc(rng, tier, what):
    import itertools
    hs = []
    def add(hid, ty, ks, qs):
        ks = sorted(set(map(bytes, ks)))
        qs = sorted(set(map(bytes, qs))); rng.shuffle(qs)
        ops = [("keys " + " ".join(H8(k) for k in ks)).strip()]
        if what == "look": ops.append("ids")
        q = {"acc": "acc ", "look": "look "}[what]
        ops.append(q + " ".join([f"#{j}" for j in range(len(ks))]) if ks else q + "-")
        for c in range(0, len(qs), 400): ops.append(q + " ".join(H8(x) for x in qs[c:c + 400]))
        if what == "look": ops.append("ids")
        hs.append((hid, [what, ty], ops))
    tys = [0, 1, 2, 3, 4, 7] if what == "acc" else [0, 1, 2, 3]
    # every set of keys over a small universe, every query up to one character more
    for a, b in ((97, 255), (1, 2)):
        uni = [k for n in range(0, 3) for k in itertools.product((a, b), repeat=n)]
        qs = [q for n in range(0, 5) for q in itertools.product((a, b), repeat=n)] + [q for n in range(1, 4) for q in itertools.product((a, b, 0), repeat=n)]
        for m in range(2 ** len(uni)):
                add(f"x{a}_{m}", (tys + ([5, 6] if what == "acc" else [4]))[m % (len(tys) + 1)], [k for j, k in enumerate(uni) if m >> j & 1], qs)
    for k in range(scale(tier, 160, 2000)):
        al = [c for c in rng.choice(ALPHS + [[97, 255, 98, 254, 1, 99, 100, 101]] * 4) if c]
        n = rng.choice([0, 1, 2, 5, 12, 30, 80, 150])
        ws = words(rng, n, al, rng.choice([1, 2, 4, 8, 16]), nul=False)
        qs = [mutate(rng, rng.choice(ws), al) for _ in range(scale(tier, 150, 400))] if ws else [[], [1], [0], [255]]
        qs += [[rng.choice(al) for _ in range(rng.randint(0, 6))] for _ in range(60)]
        qs += [w + rng.choice(ws) for w in ws[:20]] + [w[1:] for w in ws[:30]] if ws else []
        qs += [[c] for c in range(0, 256, 3)]
        add(f"r{k}", rng.choice(tys), ws, qs)
    for k in range(scale(tier, 8, 60)):   # keys longer than a byte counts
        al = [c for c in rng.choice(ALPHS) if c]; ws = []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([254, 255, 256, 257, 258, 300, 511, 512, 513, rng.randint(200, 700)])
            ws.append(text(rng, n, nul=False, alph=al) if not ws or rng.random() < .5 else (rng.choice(ws) + text(rng, 300, nul=False, alph=al))[:n])
        qs = [mutate(rng, rng.choice(ws), al) for _ in range(30)] + [w[:m] for w in ws for m in (1, 44, 255, 256, 257, len(w) - 256)] + [w[256:] for w in ws]
        add(f"k{k}", rng.choice([0, 2, 3]), ws + [[]] * rng.randint(0, 1), qs)
    for k in range(scale(tier, 4, 20)):   # all byte values at several depths; layers wider than many words
        style = k % 4
        if style == 0: ws = [[c, d] for c in range(1, 256) for d in rng.sample(range(1, 256), 4)]
        elif style == 1: ws = [[rng.randint(1, 255) for _ in range(rng.randint(1, 4))] for _ in range(700)]
        elif style == 2: ws = [[c] for c in range(1, 256)] + [[c, 255 - c, c] for c in range(1, 255)] + [[]]
        else: ws = [[97 + j % 26, 97 + j // 26 % 26, 97 + j // 676] for j in range(0, 1700, 2)]
        qs = [mutate(rng, rng.choice(ws), [255, 1, 97]) for _ in range(500)] + [[c] for c in range(256)] + [[rng.randint(0, 255), rng.randint(0, 255)] for _ in range(300)]
        add(f"w{k}", [0, 2, 3][k % 3], ws, qs)
    short = [h for h in hs if h[0][0] == "r" and sum(map(len, h[2])) < 30000]
    for k in range(scale(tier, 30, 300)):   # one object, several key sets after each other
        a, b = rng.choice(short), rng.choice(short)
        hs.append((f"n{k}", a[1], a[2] + b[2] + (a[2] if k % 3 == 0 else [])))
    return hs

# ------------------------------------------------------------------ C19
def suffix(rng, tier):
    import itertools
    hs = []
    for a, b in ((97, 98), (1, 255)):
        for n in range(0, scale(tier, 9, 11)):
            ops = ["text " + H8(t) for t in itertools.product((a, b), repeat=n)]
            for c in range(0, len(ops), 64): hs.append((f"x{a}_{n}_{c}", [], ops[c:c + 64]))
    al = (3, 128, 129)
    for n in range(1, scale(tier, 6, 8)):
        ops = ["text " + H8(t) for t in itertools.product(al, repeat=n)]
        for c in range(0, len(ops), 81): hs.append((f"t{n}_{c}", [], ops[c:c + 81]))
    for n in range(1, scale(tier, 5, 6)):
        ops = ["text " + H8(t) for t in itertools.product((1, 2, 254, 255), repeat=n)]
        for c in range(0, len(ops), 64): hs.append((f"q{n}_{c}", [], ops[c:c + 64]))
    for k in range(scale(tier, 260, 3000)):
        n = rng.choice([0, 1, 2, 10, rng.randint(3, 50), rng.randint(50, 150), rng.randint(100, 400)])
        t = text(rng, n, nul=False)
        qs = [(s, rng.choice([-1, 0, 1, rng.randint(0, n + 3)])) for s in [rng.randint(0, n) for _ in range(8)] + [0, n]]
        ops = ["text " + H8(t), "suf " + " ".join(f"{a} {b}" for a, b in qs), "again", "suf " + " ".join(f"{a} {b}" for a, b in qs)]
        if rng.random() < .4: t = text(rng, rng.randint(0, 60), nul=False); ops += ["text " + H8(t), "again"]
        hs.append((f"r{k}", [], ops))
    for k in range(scale(tier, 8, 50)):
        n = rng.choice([1000, 1500, 2500]) if tier == "quick" else rng.choice([2500, 6000, 12000])
        t = text(rng, n, nul=False, alph=rng.choice(ALPHS[1:]) if k % 4 else [97, 98])
        if len(set(t)) == 1: t[n // 2] = 98
        hs.append((f"l{k}", [], ["text " + H8(t), "again"]))
    return hs

# ------------------------------------------------------------------ C20
SER_KINDS = ["bv", "sbv", "sbv0", "mbv1", "mbv2", "mbv3", "wt", "fit", "fitw", "dac", "dacs", "dac0", "mul", "acc", "accl", "acc16", "dic", "dic64", "sa", "v8", "v32", "v64", "vec8", "vec32", "vec64", "veca", "str"]
POKEABLE = {"bv", "mbv1", "mbv2", "mbv3", "fit", "fitw", "mul", "vec8", "vec32", "vec64", "veca"}
def ser_keys(rng):
    al = rng.choice([[97, 98], [1, 255, 128], list(range(1, 256)), [97, 98, 99, 100]])
    return sorted(set(map(bytes, words(rng, rng.choice([0, 1, 2, 6, 20, 60]), al, rng.choice([1, 3, 6]), nul=False))))
def ser_content(rng, kind, tier, big=None):
    """content of a put line"""
    if big is None: big = int(rng.random() < .15)
    n = rng.choice([0, 0, 1, 2, 5, 20, 63, 64, 65, 100]) if not big else rng.choice([511, 512, 513, 700, 1100, 2000] if big is not True else [1100, 1600, 2000, 3000])
    def ints(n, bits): return [val(rng, bits) & (2 ** bits - 1) for _ in range(n)]
    lst = lambda l: ",".join(f"{x:x}" for x in l) or "-"
    if kind in ("bv", "sbv", "sbv0"):
        p, q, m = rng.choice([.02, .05, .1, .2, .5, .5, .95, 0, 1]), rng.choice([.02, .05, .1, .2, .5, .95, 0, 1]), rng.choice([0, 0, 0, n // 2])
        return bitstr([1 if rng.random() < (q if j < m else p) else 0 for j in range(n)])
    if kind.startswith("mbv"):
        t = 2 ** int(kind[3]) - 1
        return bitstr([rng.randint(0, t) for _ in range(n)])
    if kind == "wt": n = max(1, n); hi = rng.choice([0, 1, 2, 3, 7, 12, 100, 255]); return lst([rng.randint(0, hi) for _ in range(n)])
    if kind == "fit": return lst(ints(n, rng.choice([1, 5, 8, 13, 31, 32, 33, 63, 64])))
    if kind == "fitw": w = rng.choice([1, 2, 7, 8, 17, 32, 33, 63, 64]); return f"{w} " + lst(ints(n, w))
    if kind in ("dac", "dacs"):
        b = rng.choice([1, 8, 16, 33, 64]); l = ints(n, b)
        if rng.random() < .5: l = [x >> rng.randint(0, b) for x in l]
        un = "-"
        if rng.random() < .5: un = {1: "1", 8: rng.choice(["8", "4,4", "1,7", "3,3,3"]), 16: rng.choice(["8,8", "4,4,4,4"]), 33: rng.choice(["8,8,8,9", "33"]), 64: rng.choice(["8,8,8,8,8,8,8,8", "16,16,32"])}[b]
        return un + " " + lst(l)
    if kind == "dac0": return ""
    if kind == "mul":
        sz = [rng.randint(1, 8) for _ in range(rng.randint(1, 5))]
        m = rng.choice([0, 1, 2, 9, 40])
        return ",".join(map(str, sz)) + " " + lst([val(rng, 8 * s) & (2 ** (8 * s) - 1) for _ in range(m) for s in sz])
    if kind == "sa": return H8(text(rng, min(n, 300), nul=False))
    if kind in ("v8", "v32", "v64"): return f"{val(rng, int(kind[1:])):x}"
    if kind in ("vec8", "vec32", "vec64"): return lst(ints(n, int(kind[3:])))
    if kind == "veca": return lst(ints(n, 64))
    if kind == "str": return H8(text(rng, n))
    raise KeyError(kind)

def serial(rng, tier):
    hs = []
    # every ordered pair of kinds next to each other, empty and filled; every kind read over every earlier content
    for k in range(scale(tier, 420, 4000)):
        keys = ser_keys(rng); other = ser_keys(rng)
        pr = [mutate(rng, rng.choice(keys), [97, 98, 255]) if keys and rng.random() < .7 else [rng.randint(0, 255) for _ in range(rng.randint(0, 3))] for _ in range(30)]
        pr = sorted(set([bytes(x) for x in keys + other] + [bytes(x) for x in pr]))
        kc = lambda l: ",".join(H8(x) if x else "" for x in l) if l and l != [b""] else None
        ops = ["probes " + (",".join(x.hex() for x in pr if x) or "-")]
        tok, kind, q, fresh_tok = {}, {}, [], iter(range(10 ** 9))
        kinds = rng.sample(SER_KINDS, rng.randint(1, 5)) if k % 3 else [SER_KINDS[k // 3 % len(SER_KINDS)]]
        def put(s):
            kd = rng.choice(kinds)
            if kd in ("acc", "accl", "acc16", "dic", "dic64"):
                l = rng.choice([keys, other, []])
                c = ",".join(x.hex() for x in l if x) or "-"
            else: c = ser_content(rng, kd, tier)
            ops.append(f"put {s} {kd} {c}".strip()); tok[s] = next(fresh_tok); kind[s] = kd
        for _ in range(rng.choice([6, 12, 25])):
            r = rng.random(); s = rng.randint(0, 3)
            if r < .35 or not tok: put(s)
            elif r < .6: s = rng.choice(list(tok)); ops.append(f"write {s}"); q.append((kind[s], tok[s]))
            elif r < .8 and q: kd, t = q.pop(0); ops.append(f"read {s}"); kind[s] = kd; tok[s] = t
            elif r < .85: s = rng.choice(list(tok)); ops.append(f"view {s}")
            elif r < .88: s = rng.choice(list(tok)); ops.append(f"drop {s}"); del tok[s]; del kind[s]
            else:
                c = [(a, b) for a in tok for b in tok if a != b and tok[a] == tok[b] and kind[a] == kind[b] and kind[a] in POKEABLE]
                if c: a, b = rng.choice(c); ops.append(f"poke {a} {b}"); tok[a] = tok[b] = next(fresh_tok)
        while q: s = rng.randint(0, 3); kd, t = q.pop(0); ops.append(f"read {s}"); kind[s] = kd; tok[s] = t
        for s in sorted(tok): ops.append(f"view {s}")
        hs.append((f"s{k}", [], ops))
    # one kind, many contents, into a used object, then changed together with the original
    for j, kd in enumerate(SER_KINDS):
        for k in range(scale(tier, 6, 40)):
            keys = ser_keys(rng)
            ops = ["probes " + (",".join(sorted(x.hex() for x in keys if x)) or "-")]
            def put(s):
                c = (",".join(x.hex() for x in rng.choice([keys, keys[::2], []]) if x) or "-") if kd[:3] in ("acc", "dic") else ser_content(rng, kd, tier)
                ops.append(f"put {s} {kd} {c}".strip())
            for _ in range(5):
                put(0); put(1); ops += ["write 0", "read 1"]
                if kd in POKEABLE: ops += ["poke 0 1", "poke 0 1", "write 1", "read 0", "poke 1 0"]
            hs.append((f"k{j}_{k}", [], ops))
    # contents of several blocks, read over each other's objects, which go on being asked in between
    for j, kd in enumerate(["sbv", "sbv", "sbv", "sbv0", "bv", "mbv1", "mbv2", "mbv3", "wt", "dac", "dacs", "fit"]):
        for k in range(scale(tier, 5, 40)):
            ops = ["probes -"]
            for t in range(3): ops.append(f"put {t} {kd} {ser_content(rng, kd, tier, True)}")
            for _ in range(8):
                a, b = rng.sample(range(3), 2)
                ops += [f"write {a}", f"view {b}", f"read {b}"] + [f"view {b}"] * rng.randint(0, 2)
                if rng.random() < .3: ops.append(f"put {a} {kd} {ser_content(rng, kd, tier, True)}")
            hs.append((f"b{j}_{k}", [], ops))
    return hs

# ------------------------------------------------------------------ C22
def widths(rng, tier):
    hs = []
    vs = {0, 2 ** 64 - 1}
    for b in range(64): vs |= {2 ** b, 2 ** b - 1, min(2 ** 64 - 1, 2 ** b + 1), 2 ** 64 - 2 ** b}
    vs = sorted(vs) + [rng.getrandbits(rng.randint(1, 64)) for _ in range(scale(tier, 100, 2000))]
    for c in range(0, len(vs), 40): hs.append((f"u{c}", [], [f"units {v:x}" for v in vs[c:c + 40]]))
    ops = []
    for k in range(scale(tier, 700, 8000)):
        r = rng.random()
        if r < .3: s = [rng.choice([1, 2, 3, 4, 8, 16])] * 64
        elif r < .5: s = [rng.randint(1, 63) for _ in range(8)]
        else: s = [rng.randint(1, 9) for _ in range(20)]
        acc, t = 0, []
        for x in s:
            t.append(x); acc += x
            if acc >= 64: break
        if rng.random() < .3: t = t[:rng.randint(1, len(t))]
        acc = min(64, sum(t))
        p = rng.randint(0, len(t)); b = min(acc, sum(t[:p]) + rng.choice([-1, 0, 0, 1, 2])); b = max(0, b)
        v = (1 << b) - 1 if rng.random() < .4 else (1 << b >> 1) if rng.random() < .6 else rng.getrandbits(b) if b else 0
        if t and sum(t) < v.bit_length(): continue
        ops.append(f"aslist {v:x} " + ",".join(map(str, t)))
    for c in range(0, len(ops), 50): hs.append((f"a{c}", [], ops[c:c + 50]))
    ops = ["list 0 -1"]
    for ty in range(5): ops += [f"list {ty} 1,2,-1 0:1", f"list {ty} -1,1 1:1 0:3", f"list {ty} 3,-1,1"]
    for k in range(scale(tier, 500, 6000)):
        ty = rng.randint(0, 4); w = [64, 32, 8, 64, 16][ty]
        g = rng.choice([1, 2, 3, 5, 10, 20])
        vc = []
        style = rng.random()
        for j in range(g):
            b = rng.randint(0, w) if style < .5 else min(w, j * rng.randint(1, 4))
            v = rng.getrandbits(b) | (1 << b >> 1) if b else 0
            c = rng.choice([1, 1, 2, 10, 100]) if style < .4 else max(1, int(rng.choice([3000, 60000]) * 0.45 ** j)) if style < .9 else 0 if j % 2 else rng.randint(1, 2000)
            vc.append(f"{v:x}:{c}")
        lv = ",".join(map(str, rng.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 20, -1], 3)))
        ops.append(f"list {ty} {lv} " + " ".join(vc))
    for c in range(0, len(ops), 25): hs.append((f"l{c}", [], ops[c:c + 25]))
    return hs

# ------------------------------------------------------------------ C21
def word_ops(rng, tier):
    hs = []
    def one():
        r = rng.random()
        if r < .25: return rng.getrandbits(64)
        if r < .4: return rng.getrandbits(64) & rng.getrandbits(64) & rng.getrandbits(64)
        if r < .5: return rng.getrandbits(64) | rng.getrandbits(64) | rng.getrandbits(64)
        if r < .6: a = rng.randint(0, 63); return ((1 << rng.randint(1, 64 - a)) - 1) << a
        if r < .68: return rng.getrandbits(8) * 0x0101010101010101
        if r < .74: return rng.getrandbits(4) * 0x1111111111111111
        if r < .80: return int("".join(rng.choice(["00", "01", "10", "11"][:rng.randint(1, 4)]) for _ in range(32)), 2)
        if r < .90: p = rng.choice(["000", "111", "110", "101", "100", "011"]); return int(("1" if rng.random() < .5 else "0") + "".join(p if rng.random() < .9 else rng.choice(["000", "111", "010"]) for _ in range(21)), 2)
        return rng.getrandbits(64) >> rng.randint(0, 63) << rng.choice([0, 0, 8, 31, 32, 33])
    ws = [0, 2 ** 64 - 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa] + [1 << k for k in range(64)] + [2 ** 64 - 1 - (1 << k) for k in range(64)] + [(1 << k) - 1 for k in range(64)] + [2 ** 64 - (1 << k) for k in range(64)]
    for p in ("111", "110", "101", "100", "011", "010", "001"):
        ws += [int(p * 21, 2), int("1" + p * 21, 2)] + [int(p, 2) << 3 * k for k in range(0, 21)]
    for p in ("11", "10", "01"): ws += [int(p * 32, 2)] + [int(p, 2) << 2 * k for k in range(0, 32, 3)]
    ws += [x | y << 8 * k for x in (0,) for y in range(0, 256, scale(tier, 3, 1)) for k in (rng.randint(0, 7),)]     # bytes of the tables
    ws += [w & (2 ** 64 - 1) for w in [one() for _ in range(scale(tier, 700, 6000))]]
    ws = [w & (2 ** 64 - 1) for w in ws]
    rng.shuffle(ws)
    hs.append(("m", [], ["masks"]))
    for c in range(0, len(ws), 25): hs.append((f"w{c}", [], ["w " + " ".join(f"{w:x}" for w in ws[c:c + 25])]))
    ops = []
    for k in range(scale(tier, 90, 800)):
        x = [rng.choice([0, one() & (2 ** 64 - 1), 1 << rng.randint(0, 63)]) if rng.random() < .8 else 2 ** 64 - 1 for _ in range(4)]
        if k == 0: x = [0] * 4
        if k == 1: x = [2 ** 64 - 1] * 4
        if 2 <= k < 20 or rng.random() < .3:            # words that belong together: equal, opposite, complements, one bit or one half apart
            w = one() & (2 ** 64 - 1) if rng.random() < .5 else 1 << rng.choice([0, 31, 32, 63])
            rel = [w, -w, ~w, w ^ 1 << rng.randint(0, 63), w << 32, w >> 32, w << 32 | w >> 32, 0]
            x = [0] * 4 if rng.random() < .6 else [rng.choice(rel) for _ in range(4)]
            i, j = rng.sample(range(4), 2); x[i] = w; x[j] = rel[k % 3] if k < 20 else rng.choice(rel)
            if rng.random() < .25: x[rng.randrange(4)] = -sum(x)
            x = [v & (2 ** 64 - 1) for v in x]
        ms = [1 << rng.randint(0, 7), rng.randint(0, 255), rng.randint(0, 255), 255, 0] if k % 16 else list(range(0, 256, scale(tier, 5, 1)))
        ops.append("b256 " + " ".join(f"{w:x}" for w in x) + " " + ",".join(map(str, ms)))
    for c in range(0, len(ops), 8): hs.append((f"v{c}", [], ops[c:c + 8]))
    for c in range(scale(tier, 8, 60)): hs.append((f"p{c}", [], ["show " + " ".join(f"{one() & (2 ** 64 - 1):x} {rng.randint(1, 8)}" for _ in range(12))]))
    return hs

# ------------------------------------------------------------------ C24
def recurse(rng, tier):
    hs = []
    for k in range(scale(tier, 60, 600)):
        ops = []
        for _ in range(12):
            n = rng.choice([0, 1, 2, 5, 20, 60, rng.randint(1, 200)])
            style = rng.random()
            if style < .25: p = [max(0, j - rng.randint(0, 1)) for j in range(n)]
            elif style < .4: p = [0] * n
            else: p = [rng.randint(max(0, j - rng.choice([1, 3, 1000])), j) for j in range(n)]
            ops.append(("walk " + " ".join(map(str, p))).strip())
        if k % 4 == 0: ops += [f"time {rng.choice([0, 1, 1, 2, 5])}", f"stop {rng.randint(2, 6)}"]
        hs.append((f"w{k}", [], ops))
    hs.append(("deep", [], ["walk " + " ".join(map(str, range(n))) for n in (300, 600, 800, 300, 700)]))
    return hs
