"""Long histories of the string components, heaps and sorts: past 65536 letters, nodes, keys, elements."""
from gens import scale, H8, val, debruijn, fib

def blocks(rng, n, al, count, lo, hi):
    """n letters: a random concatenation of a few blocks, with noise"""
    bl = [[rng.choice(al) for _ in range(rng.randint(lo, hi))] for _ in range(count)]
    t = []
    while len(t) < n: t += rng.choice(bl) if rng.random() < .9 else [rng.choice(al)]
    return t[:n]

# ------------------------------------------------------------------ C15
def oracle(rng, tier):
    hs = []
    n = scale(tier, 70000, 140000)
    def subs(t, k):
        out = []
        for j in range(k):
            l = rng.choice([1, 2, 3, 4, 5, 8, rng.randint(0, 40), rng.randint(0, 2000)])
            s = rng.randint(0, len(t) - l) if j % 3 else rng.randint(max(0, min(65536, len(t)) - l - 20), len(t) - l)
            if rng.random() < .6: out.append((s, l, -1, 0))
            else: out.append((s, l, rng.choice([l, max(0, l - 1), rng.randint(0, l)]), rng.choice([rng.choice(t), rng.randint(0, 255)])))
        return "sub " + " ".join(f"{a} {b} {c} {d}" for a, b, c, d in out)
    texts = [[rng.randint(0, 255) for _ in range(n)], blocks(rng, n, [0, 97, 98, 255], 12, 3, 30)]
    if tier != "quick": texts += [[rng.choice([97, 98]) for _ in range(n)], fib(97, 98, n), [rng.randint(0, 15) for _ in range(n)]]
    for k, t in enumerate(texts):
        whole = f"sub 0 {len(t)} -1 0 1 {len(t) - 1} -1 0 0 {len(t)} {len(t)} {t[-1]} 0 {len(t)} {len(t) - 1} {t[-1] ^ 1}"
        hs.append((f"g{k}", [], ["text " + H8(t), whole, subs(t, 150), subs(t, 150)]))
    return hs

# ------------------------------------------------------------------ C16
def match(rng, tier):
    hs = []
    for k in range(scale(tier, 3, 8)):
        n = 70000
        al = [[97, 98], list(range(256)), [97, 98, 99, 255], [0, 127, 128]][k % 4]
        m = [5, 300, 2, 1500, 17][k % 5]
        key = [rng.choice(al) for _ in range(m)] if k % 2 else blocks(rng, m, al, 2, 1, 3)
        t = [rng.choice(al) for _ in range(n)] if k % 3 else blocks(rng, n, al, 6, 2, 9)
        for p in [0, n - m, 65535, 65536, 65537 - m, 65536 - m] + [rng.randint(0, n - m) for _ in range(12)]: t[p:p + m] = key
        hs.append((f"g{k}", [], ["key " + H8(key), "texts " + H8(t)]))
    key = [rng.choice([97, 98, 99]) for _ in range(5000)]
    half = key[:2500] + key[:1700]
    hs.append(("k5000", [], ["key " + H8(key), "texts " + H8(key * 2) + " " + H8(half + key + key[2000:] + key[:4999] + [1] + key + key[1:])]))
    return hs
def match_huge(rng, tier):
    """keys past 65536 letters; preparing one of the matchers takes quadratic time"""
    m = 66000
    key = [rng.randint(0, 255) for _ in range(m)]
    per = [rng.randint(0, 255) for _ in range(33001)]; per = per + per[:33000]
    hs = [("h0", [], ["key " + H8(key), "texts " + H8([1, 2] + key[-50:] + key + key[:-1]) + " " + H8(key[:-1])])]
    for m in (65535, 65536):
        k = [rng.randint(1, 255) for _ in range(m)]
        hs.append((f"b{m}", [], ["key " + H8(k), "texts " + H8([0] * 65540 + k + [0])]))
    k = [rng.randint(1, 255) for _ in range(140000)]
    hs.append(("b140000", [], ["key " + H8(k), "texts " + H8(k[:100000] + [1] + k)]))
    if tier != "quick": hs += [("h1", [], ["key " + H8(per), "texts " + H8(per[5:] + per[:33001] + per + [0])])]
    return hs

# ------------------------------------------------------------------ C12
def heap(rng, tier):
    hs = []
    for k in range(4):
        # more than 131072 elements: children of positions past 65536
        n = scale(tier, 140000 if k % 3 == 0 else 70000, 300000)
        m = rng.choice([7, 40, 150])
        tab = sorted({rng.choice([0, 2**64 - 1, 2**63, 2**63 - 1, 2**32, val(rng, 64), rng.randint(0, 70000)]) for _ in range(m)}); m = len(tab)
        def xs(c): return [rng.randrange(m) for _ in range(c)]
        style = k // 2
        ops = ["tab " + " ".join(f"{x:x}" for x in tab)]
        if style == 0: ops += ["list " + " ".join(map(str, sorted(xs(n), reverse=k % 2 == 0)))]
        else: ops += ["pushq " + " ".join(map(str, xs(n)))]
        ops += ["pushq " + " ".join(map(str, xs(500))), f"popq {n // 3}", "pushq " + " ".join(map(str, xs(n // 3))),
                "raw " + " ".join(f"{rng.randint(1, n)} {rng.randrange(m)}" for _ in range(50)), f"popq {n // 2}", "all", "copy", "drain"]
        hs.append((f"g{k}", [k % 2], ops))
    return hs

# ------------------------------------------------------------------ C13
def heapsort(rng, tier):
    hs = []
    for k in range(scale(tier, 6, 14)):
        n = scale(tier, 140000 if k in (1, 3, 4) else 70000, 300000)
        ty = [5, 0, 2, 6, 0, 5, 3][k % 7]; cont = k % 4
        cmp = ["default", "greater", "less", "mod"][k % 4]
        if k % 3 == 0:
            l = list(range(n)) if ty != 6 else [rng.randint(0, 90) for _ in range(n)]
            if k % 2: l.reverse()
            else: rng.shuffle(l)
        else: l = [rng.randint(0, 60) * (1 if ty in (1, 5, 6) else 30000) for _ in range(n)]
        a, b = (0, n) if k % 2 == 0 else (rng.randint(0, 20), n - rng.randint(0, 2000))
        hs.append((f"g{k}", [], [f"sort {ty} {cont} {cmp} {rng.choice([3, 10])} {a} {b} " + " ".join(map(str, l))]))
    return hs

# ------------------------------------------------------------------ C17
def trie(rng, tier):
    hs = []
    for k, ty in enumerate([1, 0, 5, 3][:scale(tier, 3, 4)]):
        n = scale(tier, 69000 if ty == 1 else 24000, 80000)     # more items than 65536
        ks = set()
        while len(ks) < n:
            r = rng.random()
            if r < .6: w = bytes(rng.randint(0, 255) for _ in range(3))
            elif r < .9: w = bytes(rng.choice([0, 97, 98, 255]) for _ in range(rng.randint(0, 9)))
            else: w = bytes([rng.randint(0, 255)] * rng.randint(1, 6))
            ks.add(w)
        ks = list(ks); rng.shuffle(ks)
        def ins(l): return "insq " + " ".join(f"{H8(w)} {rng.randint(0, 60000)}" for w in l)
        def look(l): return "lookq " + " ".join(H8(w) for w in l)
        c = n // 3
        qs = rng.sample(ks, 3000) + [w + b"\0" for w in rng.sample(ks, 300)] + [w[:-1] for w in rng.sample(ks, 600)] + [w[:-1] + bytes([rng.randint(0, 255)]) for w in rng.sample(ks, 600) if w]
        ops = [ins(ks[:c]), look(qs), ins(ks[c:2 * c]), "nodes", ins(ks[:200] + ks[2 * c:]), look(ks), look(qs), "nodes"]
        hs.append((f"g{k}", [ty], ops))
    return hs

def trie_deep(rng, tier):
    """keys of more than 65536 letters"""
    hs = []
    for k, ty in enumerate([0, 3, 1, 5, 0, 2][:scale(tier, 4, 6)]):
        top = scale(tier, 150000, 900000)
        keys = []; ops = []
        def key():
            al = rng.choice([[0, 97, 255], [97, 98], [128, 127, 0]]); r = rng.random()
            if keys and r < .5:      # shares a beginning with an earlier one
                b = [list(x) for x in rng.choice(keys)]
                b = b[:rng.randint(0, len(b))]
                if b and rng.random() < .6: b[-1][1] = max(1, b[-1][1] + rng.choice([-70000, -1, 1, 2, 300, -300]))
            else: b = []
            for _ in range(rng.randint(1, 4)):
                c = rng.choice([x for x in al if not b or x != b[-1][0]])
                b.append([c, rng.choice([1, 2, 255, 256, 65534, 65535, 65536, 65537, rng.randint(1, 300), rng.randint(1, 80000)])])
            while sum(n for _, n in b) > top: b[-1][1] -= 1 if len(b) == 1 else 0; b = b if len(b) == 1 else b[:-1]
            return b
        def runs(b): return " ".join(f"{c} {n}" for c, n in b)
        def near(b):
            b = [list(x) for x in b]; r = rng.random()
            if not b: return b
            if r < .4: b[-1][1] += rng.choice([1, -1, 65536, -65536])
            elif r < .7: b[rng.randrange(len(b))][1] += rng.choice([1, 65536])
            else: b.append([(b[-1][0] + 1) % 256, 1])
            return b if all(n > 0 for _, n in b) else []
        for j in range(scale(tier, 14, 24)):
            b = key() if rng.random() < .9 or not keys else rng.choice(keys)
            keys.append(b); ops.append(f"dins {rng.randint(0, 60000)} " + runs(b))
            if j % 3 == 2:
                for q in rng.sample(keys, min(4, len(keys))): ops.append("dlook " + runs(q)); ops.append("dlook " + runs(near(q)))
            if j % 6 == 5 or j == 13:
                ds = {0, 1, 2, 255, 256, 257, 65535, 65536, 65537}
                for q in keys: l = sum(n for _, n in q); ds |= {l, l + 1, l + 2, rng.randint(0, l)}
                for q in keys:
                    s = 0
                    for _, n in q: s += n; ds |= {s, s + 1}
                ops.append("depths " + " ".join(map(str, sorted(ds))))
        hs.append((f"e{k}", [ty], ops))
    return hs

# ------------------------------------------------------------------ C18, C23
def samc(rng, tier, what):
    hs = []
    for k in range(scale(tier, 2, 4)):
        n = scale(tier, 60000, 150000)
        ks = set()
        while len(ks) < n:
            r = rng.random()
            if k % 2 == 0: w = bytes(rng.randint(1, 255) for _ in range(2 if r < .2 else 3 if r < .9 else 6))
            else: w = bytes(rng.choice(b"abcdefgh\xff\x01") for _ in range(rng.randint(0, 12)))
            ks.add(w)
        ks = sorted(ks)
        q = "acc " if what == "acc" else "look "
        def mut(w):
            w = bytearray(w); r = rng.random()
            if r < .3 and w: w[rng.randrange(len(w))] = rng.randint(0, 255)
            elif r < .5: w.append(rng.randint(0, 255))
            elif r < .7: w = w[:-1]
            elif r < .85 and w: w[-1] = rng.randint(0, 255)
            else: w = w[1:]
            return bytes(w)
        qs = sorted({mut(rng.choice(ks)) for _ in range(6000)})
        ops = ["keys " + " ".join(H8(w) for w in ks)] + (["ids"] if what == "look" else [q + " ".join(f"#{j}" for j in range(n))]) + [q + " ".join(H8(w) for w in qs)]
        if k == 0: # keys longer than 65536
            m = 65600; ks = sorted({bytes([97] * m), bytes([97] * 65535), bytes([97] * 65536) + b"b", bytes(rng.randint(1, 255) for _ in range(m)), b"a", b""})
            qs = [bytes([97] * x) for x in (0, 1, 2, 64, 65534, 65535, 65536, 65537, m - 1, m)] + [ks[-1][:-1], bytes([97] * 65536) + b"c"]
            hs.append(("long", [what, 0], ["keys " + " ".join(H8(w) for w in ks)] + (["ids"] if what == "look" else []) + [q + " ".join(f"#{j}" for j in range(len(ks))), q + " ".join(H8(w) for w in qs)]))
        hs.append((f"g{k}", [what, [0, 2, 4, 7][k % 4] if what == "acc" else [0, 2, 3, 2][k % 4]], ops))
    return hs

# ------------------------------------------------------------------ C19
def suffix(rng, tier):
    hs = []
    n = scale(tier, 70000, 150000)
    al = list(range(1, 256))
    ts = [[rng.choice(al) for _ in range(n)], blocks(rng, n, [97, 98, 200], 20, 2, 30)]
    if tier != "quick": ts += [[rng.choice([97, 98]) for _ in range(n)], blocks(rng, n, al, 200, 3, 300), [rng.choice([1, 2, 254, 255]) for _ in range(n)]]
    # one letter more often than 65536 times; more than 65536 substrings of the recursion, all different
    ts += [[97 if rng.random() < .95 else rng.randint(1, 120) for _ in range(scale(tier, 72000, 150000))]]
    us = [(p, q) for p in range(2, 256) for q in range(2, 256)] + [(p, p, q) for p in range(3, 30) for q in range(2, 256) if q != p]
    rng.shuffle(us); ts += [[c for u in us for c in (1,) + u]]
    # suffixes that share more than 65535 letters
    w = [rng.choice(al[:4]) for _ in range(66000)]
    ts += [[99] + [97] * 66000 + [98, 97, 97]]
    if tier != "quick": ts += [w + w, [97, 98] * 40000 + [97], w[:700] * 150]
    for k, t in enumerate(ts): hs.append((f"g{k}", [], ["text " + H8(t), f"suf 65535 3 65536 3 65537 -1 0 5 3 {len(t) - 5} 2 -1", "again"]))
    return hs

def widths(rng, tier):
    """C22: lists of more than 2^31 and of more than 2^32 numbers (runs; the container of the harness keeps no elements)"""
    hs = []
    for j in range(6 if tier == "thorough" else 2):
        total = [(1 << 31) + 12345, (1 << 32) + 54321][j % 2]
        few = [(0xffffffffffffffff, 3), (rng.getrandbits(50), rng.randint(1, 9999)), (3, rng.randint(1, 70000)), (1 << 20, 100000)]
        rng.shuffle(few)
        cut = rng.randint(1, 4)
        rest = total - sum(c for _, c in few)
        a = rng.randint(0, rest // 3)
        runs = few[:cut] + [(1, rest - a)] + few[cut:] + ([(0, a)] if a else [])
        hs.append((f"w{j}", [], ["longlist " + ["8,3 ", "8 "][j % 2] + " ".join(f"{v:x}:{c}" for v, c in runs)]))
    return hs

def serial(rng, tier):
    """C20: every kind of object with contents of more than 65536 elements (dictionaries: more than 65536 letters, and long keys), over one that holds something"""
    from gens import SER_KINDS, POKEABLE, ser_content
    hs = []
    lst = lambda l: ",".join(f"{x:x}" for x in l)
    bit = lambda l: "".join(map(str, l))
    for j, kd in enumerate(SER_KINDS):
        if kd in ("dac0", "v8", "v32", "v64"): continue
        for k in range(scale(tier, 1, 4)):
            n = rng.randint(65536, 72000); probes = "-"
            if kd in ("bv", "sbv", "sbv0"): c = bit(rng.choices([0, 1], [1, rng.choice([1, 8, .02])], k=n))
            elif kd[:3] == "mbv": c = bit(rng.randint(0, 2 ** int(kd[3]) - 1) for _ in range(n))
            elif kd == "wt": c = lst(rng.choice([0, 1, 5, 200]) for _ in range(n))
            elif kd == "fit": c = lst(rng.getrandbits(17) for _ in range(n))
            elif kd == "fitw": c = "33 " + lst(rng.getrandbits(33) for _ in range(n))
            elif kd in ("dac", "dacs"): c = ["- ", "4,12 "][rng.randint(0, 1)] + lst(rng.getrandbits(rng.choice([1, 3, 9, 16])) for _ in range(n))
            elif kd == "mul": c = "1,3 " + lst(rng.getrandbits(8) if i % 2 == 0 else rng.getrandbits(24) for i in range(2 * n))
            elif kd == "sa": c = H8([rng.choice([1, 97, 255]) for _ in range(n)])
            elif kd == "str": c = H8([rng.randint(0, 255) for _ in range(n)])
            elif kd[:3] == "vec": w = 64 if kd == "veca" else int(kd[3:]); c = lst(rng.getrandbits(w) for _ in range(n))
            else:
                m = 9000 if kd != "acc16" else 2000
                ks = sorted({bytes(rng.randint(1, 255) for _ in range(rng.choice([2, 9]))) for _ in range(m)} | {bytes([98]) * x for x in (3, 65535, 65536, 66000)} if kd != "acc16" else {bytes(rng.randint(1, 255) for _ in range(3)) for _ in range(m)})
                c = ",".join(x.hex() for x in ks)
                ps = sorted(set(rng.sample(ks, 500)) | {x[:-1] for x in rng.sample(ks, 200) if x[:-1]} | {x[:-1] + b"c" for x in rng.sample(ks, 200)} | {x for x in ks if len(x) > 60000})
                probes = ",".join(x.hex() for x in ps)
            small = "-" if kd[:3] in ("acc", "dic") else ser_content(rng, kd, tier, 0)
            ops = ["probes " + probes, f"put 0 {kd} {c}", f"put 1 {kd} {small}".strip(), "write 0", "write 1", "write 0", "read 1", "read 2", "view 1", "read 2"]
            if kd in POKEABLE: ops += ["poke 0 1"] * 2 + ["write 1", "write 0", "read 2", "read 0", "view 1"]
            hs.append((f"l{j}_{k}", [], ops))
    return hs
