"""The models TLC checks for each property, and how the behaviours TLC prints become histories for the real code."""
from tours import tours
from gens import scale

def model(module, cfg=None, **kw):
    return dict(module=module, cfg=cfg or module + ".cfg", **kw)

# ---- C01: transitions of BitVecImpl (2 bits per word) on the real 64 bits per word: position 2q+r becomes 64q+{0,off}
def bitvec_tours(beh, rng, tier):
    hs = []
    ws, done, total = tours(beh, rng, maxlen=45, budget=scale(tier, 6000, None))
    for k, w in enumerate(ws):
        off = rng.choice([1, 31, 32, 62, 63, 63, 64 - 63, rng.randint(1, 63)])
        p = lambda x: 64 * (x // 2) + (off if x % 2 else 0)
        ops = []
        for l in w:
            o = l[0]
            if o in ("newf", "resb", "asn"): ops.append(f"{o} 0 {p(l[1])} {l[2]}")
            elif o == "push": ops.append(None)
            elif o == "fill": ops.append(f"fill 0 {p(l[1])} {p(l[2])} {l[3]}")
            elif o == "set": ops.append(f"set 0 {p(l[1])} {l[2]}")
        # a push of the model is growth by one position of the model: resize to the next mapped length, the last bit pushed
        n = 0; out = []
        for l, op in zip(w, ops):
            if l[0] == "push":
                out.append(f"resb 0 {p(n + 1) - 1} {l[1]}") if p(n + 1) - 1 > p(n) else None
                out.append(f"push 0 {l[1]}"); n += 1
            else:
                out.append(op)
                if l[0] in ("newf", "resb", "asn"): n = l[1]
        hs.append((f"tlc{k}", [], out))
    return hs, f"{done} of {total} transitions"

# ---- C02, C03: every bit sequence of RankSelectImpl, one bit standing for 128 equal bits, so that a block of the model is a
# block of the code; the real length varies around the scaled one
def rank_seqs(want):
    def f(beh, rng, tier):
        seqs = sorted({tuple(b[1]) for b in beh})
        total = len(seqs)
        q = scale(tier, 260, 6000)
        if total > q: seqs = rng.sample(seqs, q)
        hs = []
        for k, s in enumerate(seqs):
            runs = [[128, b] for b in s]
            d = rng.choice([0, 0, 1, -1, 63, -63, 64, -64, 65, -65, 2, -2])
            if runs: runs[-1][0] = max(1, runs[-1][0] + d)
            if rng.random() < .5 and len(runs) > 2:     # shift a border inside a word
                j = rng.randrange(len(runs) - 1); e = rng.choice([1, 2, 31, 63]); runs[j][0] -= e; runs[j + 1][0] += e
            toks = " ".join(f"r{m}:{b}" for m, b in runs)
            sel = 1 if want == "select" else k % 2
            hs.append((f"tlc{len(s)}_{k}", [sel, k % 6], [("bits " + toks).strip(), "build", "ranks" if rng.random() < .3 else f"coarse {k}"] + (["selects"] if sel else [])))
        return hs, f"{len(hs)} of {total} sequences"
    return f

# ---- C04: transitions of MultiBitImpl (2 elements per word, 2 words per block); element 2w+r of a block of the model is the
# first or last element of the first or last word of the block of the code
def multibit_tours(beh, rng, tier):
    hs = []
    ws, done, total = tours(beh, rng, maxlen=60, budget=scale(tier, 3500, None))
    for k, w in enumerate(ws):
        u = k % 3 + 1; per = 64 // u; kw = 12 if u == 3 else 4 * u
        mid = rng.choice([1, per - 1, per - 1, per // 2]); mw = rng.choice([1, kw - 1, kw - 1, kw // 2])
        p = lambda x: x // 4 * per * kw + (mw * per if x // 2 % 2 else 0) + (mid if x % 2 else 0)
        ty = rng.randint(1, 2 ** u - 1); ops = []
        for l in w:
            if l[0] == "set": ops.append(f"sets {p(l[1])}:{ty if l[2] else 0}")
            elif l[0] == "grow": ops.append(f"grow {p(l[1])}")
            else: ops += ["build", "ranks"]
        ops += ["all", "build", "ranks"]
        hs.append((f"tlc{k}", [u], ops))
    return hs, f"{done} of {total} transitions"

# ---- C05: every sequence of WaveletImpl, its symbols spread over the heights, each repeated
def wavelet_seqs(beh, rng, tier):
    seqs = sorted({tuple(b) for b in beh}); total = len(seqs)
    q = scale(tier, 400, 10000)
    if total > q: seqs = rng.sample(seqs, q)
    hs = []
    for k, s in enumerate(seqs):
        f = rng.choice([lambda x: x, lambda x: x, lambda x: x * 36, lambda x: x << 5, lambda x: x * 2 + 1, lambda x: 255 - x])
        r = rng.choice([1, 1, 1, 3, 64, 100]); l = [f(x) for x in s for _ in range(r)]
        hs.append((f"tlc{k}", [rng.randint(0, 3)], ["build " + bytes(l).hex(), "all"]))
    return hs, f"{len(hs)} of {total} sequences"

# ---- C06: transitions of FitVecImpl (elements of 1..4 bits in words of 4 bits), widths scaled by 16
def fitvec_tours(beh, rng, tier):
    hs = []; D = T = 0
    for b in range(1, 5):
        es = [(s, l[1:], t) for s, l, t in beh if l[0] == b]
        ws, done, total = tours(es, rng, maxlen=60, budget=scale(tier, 1500, None), start=f"<<{b}, <<>>, 0>>")
        D += done; T += total
        for k, w in enumerate(ws):
            wd = min(64, max(1, 16 * b + rng.choice([0, 0, 0, -1, 1, -2, -7])))
            def v(x):
                if x == 0: return "0"
                if x == 2 ** b - 1: return f"{(1 << wd) - 1:x}"
                return f"{1 << (wd - 1):x}"
            ops = [f"new 0 {wd} 0"]
            for l in w:
                o = l[0]
                if o == "res": ops.append(f"res 0 {l[1]}")
                elif o == "new": ops.append(f"new 0 {wd} {l[1]}")
                elif o in ("resv", "asn"): ops.append(f"{o} 0 {l[1]} {v(l[2])}")
                elif o == "push": ops.append(f"push 0 {v(l[1])}")
                else: ops.append(f"set 0 {l[1]} {v(l[2])}")
            hs.append((f"tlc{b}_{k}", [], ops))
    return hs, f"{D} of {T} transitions"

# ---- C07: every list and every list of widths of DacImpl (values of 3 bits): widths scaled by k, a bit of the model standing for
# k bits of the code
def dac_lists(beh, rng, tier):
    beh = sorted(beh, key=repr); total = len(beh); q = scale(tier, 900, None)
    if q and total > q: beh = rng.sample(beh, q)
    hs = []
    for j, (un, vals) in enumerate(beh):
        tot = sum(un); k = rng.choice([c for c in (1, 2, 3, 5, 7, 8, 9, 13, 16, 21) if c * tot <= 64 and c * 3 <= 64])
        top = max(x.bit_length() for x in vals)
        def sc(x):      # bit b of the model becomes bits kb..kb+k-1, of which the highest and some others are set
            y = 0
            for b in range(3):
                if x >> b & 1: y |= rng.choice([1 << (k - 1), (1 << k) - 1, 1 << (k - 1) | rng.getrandbits(k)]) << (k * b)
            return y
        l = [sc(x) for x in vals for _ in range(rng.choice([1, 1, 1, 2]))]
        ty = rng.choice([t for t, m in ((0, 64), (1, 32), (2, 8), (3, 31), (4, 16)) if m >= k * top])
        ops = [f"build {','.join(str(k * u) for u in un)} " + " ".join(f"{x:x}" for x in l), "all"]
        if rng.random() < .3: ops += ["copy", "all"]
        hs.append((f"tlc{j}", [ty], ops))
    return hs, f"{len(hs)} of {total} lists and widths"

# ---- C08: transitions of MultiImpl for every layout; a byte of the model becomes a group of bytes of the code
def multi_tours(beh, rng, tier):
    hs = []; D = T = 0
    lays = sorted({tuple(e[1][0]) for e in beh})
    for lay in lays:
        es = [(s, l[1:], t) for s, l, t in beh if tuple(l[0]) == lay]
        init = next(s for s, l, t in es if s.endswith("<<>>>>") or s.endswith("<< >>>>"))
        ws, done, total = tours(es, rng, maxlen=60, budget=scale(tier, 2500, None), start=init)
        D += done; T += total
        for k, w in enumerate(ws):
            g = rng.choice([(0, 1, 2, 8), (0, 1, 4, 8), (0, 1, 2, 4), (0, 2, 4, 8)])     # bytes of a field of 1, 2, 3 of the model
            def v(x):
                y = 0
                for b in range(3):
                    if x >> b & 1:
                        for p in range(g[b], g[b + 1]): y |= rng.choice([255, 255, 128, 1, rng.randint(1, 255)]) << (8 * p)
                return y
            ops = ["layout " + " ".join(str(g[f]) for f in lay)]
            for l in w:
                o = l[0]
                if o == "push": ops.append("push " + " ".join(f"{v(x):x}" for x in l[1]))
                elif o == "resl": ops.append(f"resl {l[1]} " + " ".join(f"{v(x):x}" for x in l[2]))
                elif o == "set":
                    x = v(l[3]); how = rng.randint(0, 3)
                    if x >> (8 * g[lay[l[2]]]) and how == 0: how = rng.randint(1, 3)
                    ops.append(f"set {l[1]} {l[2]} {x:x} {how}")
                elif o == "setr": ops += [f"setr {l[1]} {l[2]} {v(l[3]):x} {g[l[4]]}", f"getr {l[1]} {l[2]} {rng.choice([1, 2, 4, 8])}"]
                else: ops.append(f"asn {l[1]} " + " ".join(f"{v(x):x}" for x in l[2]))
            hs.append((f"tlc{'_'.join(map(str, lay))}_{k}", [], [o.strip() for o in ops]))
    return hs, f"{D} of {T} transitions"

# ---- C09: transitions of HashMapImpl as they are, on the same sizes of the code (the hash is the identity there)
def cht_tours(kind, kb, name, keys=None):
    def f(beh, rng, tier):
        hs = []; D = T = 0
        beh = [(tuple(s), l, tuple(t)) for s, l, t in beh]
        starts = sorted({(s, s[0]) for s, l, t in beh if not any(s[1:])})
        for init, nb in starts:
            ws, done, total = tours(beh, rng, maxlen=100, budget=scale(tier, 7000, 250000) // len(starts), start=init)
            D += done; T = max(T, total)
            for k, w in enumerate(ws):
                knd = rng.choice(kind); vw = {5: rng.choice([1, 3, 20, 64]), 6: 8, 7: 32, 8: 64, 9: 16}[knd]
                ks = keys or list(range(2 ** kb))
                ops = ["keys " + " ".join(f"{x:x}" for x in ks)]
                v = {0: 0, 1: (1 << vw) - 1}; c = rng.randrange(1 << vw) if rng.random() < .5 else 0
                for j, l in enumerate(w):
                    if l[0] == "set": ops.append(f"set 0 {l[1]} {v[l[2]] ^ c:x}")
                    elif l[0] == "del": ops.append(f"del 0 {l[1]}")
                    else: ops.append(f"rsv 0 {l[1]}")
                    if j % 6 == 5 or rng.random() < .1: ops.append("all 0")
                    if rng.random() < .02: ops.append("cpy 1 0")
                ops += ["all 0", "all 1"]
                hs.append((f"tlc{name}_{nb}_{k}", [knd, kb, nb, vw, 0], ops))
        return hs, f"{D} of {T} transitions"
    return f

# ---- C10: transitions of RewritableImpl, its two widths standing for two widths of the code
def cdrw_tours(beh, rng, tier):
    hs = []
    ws, done, total = tours(beh, rng, maxlen=70, budget=scale(tier, 7000, None))
    for k, w in enumerate(ws):
        a, b = sorted(rng.sample([1, 2, 3, 7, 8, 31, 32, 33, 62, 63, 64], 2)); lo = rng.getrandbits(a) >> 1
        r1, r2 = rng.getrandbits(b) >> 1, rng.getrandbits(b) >> 1
        v = {0: 0, 1: 1 << (a - 1) | lo, 2: 1 << (b - 1) | r1, 3: 1 << (b - 1) | (r2 if r2 != r1 else r1 ^ (b > 1))}
        ops = []; dist = rng.choice([1, 1, 1, 2, 5])      # a step of the model is repeated on neighbours
        for l in w:
            o = l[0]
            if o in ("new", "res", "rsv"): ops.append(f"{o} 0 {l[1] * dist}")
            elif o == "set": ops += [f"set 0 {l[1] * dist + d} {v[l[2]]:x}" for d in range(dist)]
            elif o == "push": ops.append("push 0 " + " ".join([f"{v[l[1]]:x}"] * dist))
            elif o == "pop": ops.append(f"pop 0 {dist}")
            else: ops.append(f"{o} 0")
            ops.append("all 0")
            if rng.random() < .03: ops += ["cpy 1 0", "all 1"]
        hs.append((f"tlc{k}", [1], ops))
    return hs, f"{done} of {total} transitions"

# ---- C11: every number of the widest domain of BijHashImpl, a bit of it standing for a group of bits of every real width
def hash_points(beh, rng, tier):
    m = max(w for w, x in beh); xs = sorted(x for w, x in beh if w == m); hs = []
    for kind in range(7):
        for w in range(1, 65):
            cuts = [j * w // m for j in range(m + 1)]; pts = set()
            for x in xs:
                y = 0
                for j in range(m):
                    if x >> j & 1: y |= ((1 << (cuts[j + 1] - cuts[j])) - 1) << cuts[j]
                pts.add(y)
            hs.append((f"tlc{kind}_{w}", [kind, w, 0], ["pts " + " ".join(f"{x:x}" for x in sorted(pts))]))
    return hs, f"all {len(xs)} numbers of width {m} at every real width"

# ---- C12: transitions of HeapImpl; the values are ranks in a table of increasing values
def heap_tours(beh, rng, tier):
    hs = []; D = T = 0
    for up in (0, 1):
        es = [b for b in beh if ("TRUE" in b[0]) == bool(up)]
        ws, done, total = tours(es, rng, maxlen=50, budget=scale(tier, 3000, None), start=f"<<<<>>, {'TRUE' if up else 'FALSE'}>>")
        D += done; T += total
        for k, w in enumerate(ws):
            tab = sorted(rng.sample([0, 1, 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, rng.getrandbits(63)], 3)); ops = ["tab " + " ".join(f"{x:x}" for x in tab)]; n = 0
            for l in w:
                if l[0] == "list": ops.append(("list " + " ".join(map(str, l[1]))).strip())
                elif l[0] == "push": ops.append(f"push {l[1]}")
                elif l[0] == "pop": ops.append("pop")
                else: ops.append(f"{l[0]} {l[1]} {l[2]}")      # raw, sift
                if rng.random() < .2: ops.append("all")
            hs.append((f"tlc{up}_{k}", [up], ops + ["all", "drain"]))
    return hs, f"{D} of {T} transitions"

# ---- C13: every sequence, range and order of SortImpl
def sort_inputs(beh, rng, tier):
    beh = sorted(beh, key=repr); total = len(beh); q = scale(tier, 3000, None)
    if q and total > q: beh = rng.sample(beh, q)
    hs = []; ops = []
    for l, lo, hi, o in beh:
        ty, cont = rng.randint(0, 6), rng.randint(0, 3)
        if o == "less" and ty != 4 and rng.random() < .5: o = "default"
        f = rng.choice([lambda x: x, lambda x: x * 100, lambda x: x * 2 + 20] + ([lambda x: (x - 1) * 120, lambda x: x - 2] if ty not in (1, 5) and o != "mod" else []))
        m = 2
        if o == "mod": f = lambda x: x
        ops.append(f"sort {ty} {cont} {o} {m} {lo} {hi} " + " ".join(str(f(x)) for x in l))
    for k in range(0, len(ops), 60): hs.append((f"tlc{k}", [], [x.strip() for x in ops[k:k+60]]))
    return hs, f"{len(ops)} of {total} inputs"

# ---- C14: transitions of InitArrImpl from many contents of the memory, of FolkloreImpl from its fresh state
def initarr_tours(size):
    def f(beh, rng, tier):
        hs = []; es = [(tuple(s), l, tuple(t)) for s, l, t in beh]
        starts = sorted({s for s, l, t in es if s[0] == 0}); rng.shuffle(starts)
        ws, done, total = tours(es, rng, maxlen=40, budget=scale(tier, 4000, 100000), start=starts)
        for k, (s0, w) in enumerate(ws):
            ty = rng.choice([0, 1, 2, 3, 4, 5]); nb = [1, 2, 4, 8, 1, 8][ty]; top = (1 << 8 * nb) - 1
            v = lambda x: top if x == 7 else x
            off = 16      # offset of the cells in the object, where the compiler puts them
            mem = b"\0" * off + b"".join(v(x).to_bytes(nb, "little") for x in s0[2:]) + b"\0" * 64
            ops = [f"mem {mem.hex()} {v(s0[1]):x}"] + [f"set {l[1]} {v(l[2]):x}" if l[0] == "set" else f"init {v(l[1]):x}" for l in w]
            if k % 4 == 1: ops.insert(rng.randint(1, len(ops)), "copy")
            hs.append((f"tlc{size}_{k}", [1, ty, size], ops))
        return hs, f"{done} of {total} transitions"
    return f
def folklore_tours(beh, rng, tier):
    hs = []; starts = [s for s, l, t in beh if s.startswith("<<(0 :> 0 @@ 1 :> 0 @@ 2 :> 0), (0 :> 0 @@ 1 :> 0 @@ 2 :> 0), <<>>")]
    ws, done, total = tours(beh, rng, maxlen=60, budget=scale(tier, 2500, None), start=sorted(set(starts)))
    for k, (s0, w) in enumerate(ws):
        i0 = int(s0.rstrip(">").split(",")[-1]); c = rng.choice([0, 0, 1, 250])
        ops = [f"mem 00 {i0 + c:x}"] + [f"set {l[1]} {l[2] + c:x}" if l[0] == "set" else f"init {l[1] + c:x}" for l in w]
        if k % 4 == 1: ops.insert(rng.randint(1, len(ops)), "copy")
        hs.append((f"tlcf{k}", [0, rng.choice([0, 1, 3]), 3], ops))
    return hs, f"{done} of {total} transitions"

# ---- C15: every text of OracleImpl; the two bits of a letter stand for disjoint groups of bits of the real character, so that
# XOR acts alike; some texts with every letter replaced by a word
def oracle_texts(beh, rng, tier):
    import itertools
    ts = sorted(tuple(b) for b in beh); total = len(ts); hs = []; hx = lambda q: bytes(q).hex() or "-"
    q = scale(tier, 400, None)
    if q and total > q: ts = rng.sample(ts, q)
    ops = []; al = sorted({c for t in ts for c in t})
    for k, t in enumerate(ts):
        a = rng.randint(1, 255); b = rng.choice([x for x in (255 ^ a, 128, 64, 1, 32, 2) if x and not x & a] or [0])
        if not b: a, b = 1, 128
        f = lambda c: (a if c & 1 else 0) ^ (b if c & 2 else 0)
        sub = {c: [f(c)] if k % 3 else [f(rng.choice(al)) for _ in range(rng.randint(1, 4))] for c in al}
        r = [x for c in t for x in sub[c]]
        qs = [q for m in range(0, 5) for q in itertools.product(al, repeat=m)]
        ops += ["text " + hx(r), "qs " + " ".join(hx([x for c in q for x in sub[c]]) for q in qs), "qs " + " ".join([hx(r)] + [hx(r + [f(c)]) for c in al])]
    for k in range(0, len(ops), 30): hs.append((f"tlc{k}", [], ops[k:k + 30]))
    return hs, f"{len(ts)} of {total} texts"

# ---- C16: every key and text of MatchImpl; letters become characters, or words
def match_pairs(beh, rng, tier):
    by = {}
    for k, t in beh: by.setdefault(tuple(k), []).append(tuple(t))
    hs = []; n = 0; hx = lambda q: bytes(q).hex() or "-"
    for k in sorted(by):
        for v in range(scale(tier, 3, 10)):
            al = rng.choice([(97, 98), (0, 255), (127, 128), (255, 254), (rng.randint(0, 255), rng.randint(0, 255))])
            sub = [[al[0]], [al[1]]] if v == 0 else [[rng.choice(al) for _ in range(rng.randint(1, 4))] for _ in range(2)]
            f = lambda q: [x for c in q for x in sub[c]]
            ts = by[k] if v == 0 or tier == "thorough" else rng.sample(by[k], 60); n += len(ts)
            hs.append((f"tlc{''.join(map(str, k))}_{v}", [], ["key " + hx(f(k)), "texts " + " ".join(hx(f(t)) for t in sorted(ts))]))
    return hs, f"all {len(beh)} pairs, {n} images"

# ---- C17: transitions of TrieImpl; letters stand for bytes (0 for the end mark itself or any other byte)
def trie_tours(beh, rng, tier):
    ws, done, total = tours(beh, rng, maxlen=30, budget=scale(tier, 4000, None), start="<<<<[item |-> -1, edges |-> <<>>]>>, <<>>>>")
    hs = []; hx = lambda q: bytes(q).hex() or "-"
    for k, w in enumerate(ws):
        a = rng.choice([0, 0, 0, 255]); b = rng.choice([c for c in (97, 1, 127, 128, 255) if c != a]); f = lambda q: [(a, b)[c] for c in q]
        if k % 4 == 3: sub = [[a] * rng.randint(1, 3), [b, a]]; f = lambda q: [x for c in q for x in sub[c]]
        qs = [[]] + [[x] for x in (0, 1)] + [[x, y] for x in (0, 1) for y in (0, 1)] + [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        ops = []
        for l in w:
            ops.append(f"ins {hx(f(l[1]))} {l[2] * 7}")
            if rng.random() < .5: ops.append("look " + " ".join(hx(f(q)) for q in qs))
            if rng.random() < .4: ops.append(rng.choice(["dfs", "bfs", "walk " + hx(f(rng.choice(qs)))]))
        ops += ["look " + " ".join(hx(f(q)) for q in qs), "dfs", "bfs"]
        hs.append((f"tlc{k}", [k % 6], ops))
    return hs, f"{done} of {total} transitions"

# ---- C18, C23: every key set of SamcImpl, every query one letter longer at most; letters become bytes or words
def samc_sets(what, tys):
    def f(beh, rng, tier):
        import itertools
        sets = sorted(tuple(sorted(tuple(k) for k in b)) for b in beh); total = len(sets); q = scale(tier, 700, None); hs = []
        if q and total > q: sets = rng.sample(sets, q)
        hx = lambda q: bytes(q).hex() or "-"
        for k, ks in enumerate(sets):
            al = [0] + sorted(rng.choice([[1, 255], [97, 255], [254, 255], [127, 128], [97, 98], [1, 2]]))
            sub = [[0], [al[1]], [al[2]]] if k % 3 else [[0], [al[1]] * rng.randint(1, 3), [al[2], rng.choice(al[1:])]]
            g = lambda w: [x for c in w for x in sub[c]]
            keys = sorted({bytes(g(w)) for w in ks})
            qs = {bytes(g(w)) for n in range(0, 5) for w in itertools.product((1, 2), repeat=n)} | {bytes(g(w)) for n in range(1, 4) for w in itertools.product((0, 1, 2), repeat=n)}
            qs = sorted(qs); op = "acc " if what == "acc" else "look "
            ops = [("keys " + " ".join(hx(x) for x in keys)).strip()] + (["ids"] if what == "look" else []) + [op + " ".join(hx(x) for x in qs)]
            hs.append((f"tlc{k}", [what, tys[k % len(tys)]], ops))
        return hs, f"{len(sets)} of {total} key sets"
    return f

# ---- C19: every text of SuffixImpl; letters become bytes in the same order, or words
def suffix_texts(tag):
    def f(beh, rng, tier):
        ts = sorted(tuple(b) for b in beh); total = len(ts); q = scale(tier, 1500, None); hs = []; ops = []
        if q and total > q: ts = rng.sample(ts, q)
        hx = lambda q: bytes(q).hex() or "-"
        for k, t in enumerate(ts):
            al = sorted(rng.choice([[1, 2, 3], [97, 98, 99], [1, 128, 255], [127, 128, 129], [253, 254, 255], rng.sample(range(1, 256), 3)]))
            sub = {c + 1: [al[c]] if k % 3 else [rng.choice(al) for _ in range(rng.randint(1, 3))] for c in range(3)}
            ops.append("text " + hx([x for c in t for x in sub[c]]))
        for k in range(0, len(ops), 60): hs.append((f"tlc{tag}{k}", [], ops[k:k + 60]))
        return hs, f"{len(ts)} of {total} texts"
    return f

# ---- C20: transitions of StreamImpl; the two kinds stand for every two kinds of the library, a value for one content
def stream_tours(beh, rng, tier):
    import gens
    ws, done, total = tours(beh, rng, maxlen=25, budget=scale(tier, 7000, 60000), start="<<<<>>, <<>>>>")
    hs = []
    for k, w in enumerate(ws):
        ks = {"a": gens.SER_KINDS[k % len(gens.SER_KINDS)], "b": rng.choice(gens.SER_KINDS)}; content = {}
        keys = gens.ser_keys(rng); other = gens.ser_keys(rng)
        pr = sorted({bytes(x) for x in keys + other if x})
        ops = ["probes " + (",".join(x.hex() for x in pr) or "-")]
        def c(kd, v):
            if (kd, repr(v)) not in content:
                kind = ks[kd]
                if kind in ("acc", "accl", "acc16", "dic", "dic64"): x = ",".join(y.hex() for y in rng.choice([keys, other, []]) if y) or "-"
                else: x = gens.ser_content(rng, kind, tier)
                content[kd, repr(v)] = x
            return content[kd, repr(v)]
        for l in w:
            ops.append(f"put {l[1]} {ks[l[2]]} {c(l[2], l[3])}".strip() if l[0] == "put" else f"{l[0]} {l[1]}")
        hs.append((f"tlc{k}", [], ops))
    return hs, f"{done} of {total} transitions"

# ---- C21: every byte of WordsImpl at every place of a word, and words made of several
def word_lanes(beh, rng, tier):
    bs = sorted(set(beh)); ws = set()
    for b in bs:
        for k in (range(8) if tier == "thorough" else rng.sample(range(8), 3)): ws.add(b << 8 * k); ws.add((2 ** 64 - 1) ^ (b << 8 * k))
        ws.add(b * 0x0101010101010101); ws.add(b | b << 32); ws.add(b << 24 | rng.choice(bs) << 56)
    ws = sorted(ws); rng.shuffle(ws)
    return [(f"tlc{c}", [], ["w " + " ".join(f"{w:x}" for w in ws[c:c + 25])]) for c in range(0, len(ws), 25)], f"all {len(bs)} bytes, {len(ws)} words"

# ---- C22: every distribution of WidthsImpl as a list of values, every allowed number of layers
def split_lists(beh, rng, tier):
    by = {}
    for cf, most in beh: by.setdefault(tuple(cf), set()).add(most)
    ks = sorted(by); total = len(ks); q = scale(tier, 300, None)
    if q and total > q: ks = rng.sample(ks, q)
    ops = []
    for k, cf in enumerate(ks):
        stretch = rng.choice([1, 1, 2, 5]); vc = []
        for j, n in enumerate(cf):
            c = n - (cf[j + 1] if j + 1 < len(cf) else 0)
            b = (j + 1) * stretch
            if c: vc.append(f"{(1 << b) - 1 if rng.random() < .5 else 1 << b >> 1:x}:{c}")
        ops.append(f"list {rng.choice([0, 3]) if len(cf) * stretch > 30 else rng.choice([0, 1, 3])} " + ",".join(map(str, sorted(by[cf]))) + " " + " ".join(vc))
    return [(f"tlc{c}", [], ops[c:c + 25]) for c in range(0, len(ops), 25)], f"{len(ks)} of {total} distributions"

# ---- C24: every tree of RecurseImpl, several times (in as many ways of calling)
def walk_trees(beh, rng, tier):
    ts = sorted(set(tuple(b) for b in beh))
    ops = [("walk " + " ".join(map(str, t))).strip() for t in ts for _ in range(scale(tier, 6, 40))]
    return [(f"tlc{c}", [], ops[c:c + 40]) for c in range(0, len(ops), 40)], f"{len(ts)} of {len(ts)} trees"

MODELS = {
    "C24": [model("RecurseImpl", behaviours=walk_trees), model("RecurseImpl", "RecurseImplThorough.cfg", thorough_only=True, workers=8)],
    "C20": [model("StreamImpl", behaviours=stream_tours), model("StreamImpl", "StreamImplDeep.cfg")],
    "C21": [model("WordsImpl", behaviours=word_lanes), model("WordsImpl", "WordsImplThorough.cfg", thorough_only=True, workers=8)],
    "C22": [model("WidthsImpl", behaviours=split_lists), model("WidthsImpl", "WidthsImplDeep.cfg", thorough_only=True, workers=8)],
    "C17": [model("TrieImpl", behaviours=trie_tours), model("TrieImpl", "TrieImplDeep.cfg"), model("TrieImpl", "TrieImplDeep3.cfg")],
    "C18": [model("SamcImpl", behaviours=samc_sets("acc", [0, 1, 2, 3, 4, 5, 6, 7])), model("SamcImpl", "SamcImplDeep.cfg")] + [model("SamcImpl", f"SamcImplThorough{x}.cfg", thorough_only=True, workers=8) for x in "ABCD"],
    "C23": [model("SamcImpl", behaviours=samc_sets("look", [0, 1, 2, 3, 4])), model("SamcImpl", "SamcImplDeep.cfg")] + [model("SamcImpl", f"SamcImplThorough{x}.cfg", thorough_only=True, workers=8) for x in "ABCD"],
    "C19": [model("SuffixImpl", behaviours=suffix_texts("a")), model("SuffixImpl", "SuffixImplDeep.cfg", behaviours=suffix_texts("b")), model("SuffixImpl", "SuffixImplThorough.cfg")] + [model("SuffixImpl", f"SuffixImplThorough{x}.cfg", thorough_only=True, workers=8) for x in "24"],
    "C15": [model("OracleImpl", behaviours=oracle_texts), model("OracleImpl", "OracleImplDeep.cfg"), model("OracleImpl", "OracleImplThorough.cfg", thorough_only=True, workers=8), model("OracleImpl", "OracleImplThorough2.cfg", thorough_only=True, workers=8), model("OracleImpl", "OracleImplThorough4.cfg", thorough_only=True, workers=8)],
    "C16": [model("MatchImpl", behaviours=match_pairs), model("MatchImpl", "MatchImplDeep.cfg"), model("MatchImpl", "MatchImplThorough.cfg", thorough_only=True, workers=8), model("MatchImpl", "MatchImplThorough3.cfg", thorough_only=True, workers=8)],
    "C12": [model("HeapImpl", behaviours=heap_tours), model("HeapImpl", "HeapImplDeep.cfg"), model("HeapImpl", "HeapImplThorough.cfg", thorough_only=True, workers=8)],
    "C13": [model("SortImpl", behaviours=sort_inputs), model("SortImpl", "SortImplDeep.cfg"), model("SortImpl", "SortImplThorough.cfg", thorough_only=True, workers=8)],
    "C14": [model("InitArrImpl", behaviours=initarr_tours(4)), model("InitArrImpl", "InitArrImpl5.cfg"), model("InitArrImpl", "InitArrImplDeep.cfg"), model("InitArrImpl", "InitArrImplThorough.cfg", thorough_only=True, workers=8),
            model("FolkloreImpl", behaviours=folklore_tours), model("FolkloreImpl", "FolkloreImplDeep.cfg")],
    "C10": [model("RewritableImpl", behaviours=cdrw_tours), model("RewritableImpl", "RewritableImplDeep.cfg")],
    "C11": [model("BijHashImpl", behaviours=hash_points), model("BijHashImpl", "BijHashImplDeep.cfg")],
    "C09": [model("HashMapImpl", behaviours=cht_tours((5, 7), 2, "a")), model("HashMapImpl", "HashMapImpl90.cfg", behaviours=cht_tours((6,), 2, "b")), model("HashMapImpl", "HashMapImpl25.cfg", behaviours=cht_tours((9,), 2, "c")),
            model("HashMapImpl", "HashMapImplWrap.cfg", behaviours=cht_tours((6,), 5, "w", [0, 8, 16, 7, 15, 1])), model("HashMapImpl", "HashMapImplDeep90.cfg", behaviours=cht_tours((6,), 3, "d")), model("HashMapImpl", "HashMapImplDeep50.cfg", behaviours=cht_tours((5, 7), 3, "e"), thorough_only=True),
            model("HashMapImpl", "HashMapImplDeep99.cfg", behaviours=cht_tours((8,), 3, "f"), thorough_only=True), model("HashMapImpl", "HashMapImplThorough.cfg", thorough_only=True, workers=8)],
    "C07": [model("DacImpl", behaviours=dac_lists), model("DacImpl", "DacImplDeep.cfg", thorough_only=True, workers=8)],
    "C08": [model("MultiImpl", behaviours=multi_tours), model("MultiImpl", "MultiImplDeep.cfg", workers=4)],
    "C06": [model("FitVecImpl", behaviours=fitvec_tours), model("FitVecImpl", "FitVecImplDeep.cfg", workers=4)],

    "C04": [model("MultiBitImpl", behaviours=multibit_tours), model("MultiBitImpl", "MultiBitImplDeep.cfg", workers=4)],
    "C05": [model("WaveletImpl", behaviours=wavelet_seqs), model("WaveletImpl", "WaveletImplDeep.cfg", workers=4)],

    "C02": [model("RankSelectImpl"), model("RankSelectImpl", "RankSelectImplDeep.cfg", thorough_cfg="RankSelectImplDeep.cfg", behaviours=rank_seqs("rank"), workers=4), model("RankSelectImpl", "RankSelectImplThorough.cfg", thorough_only=True, workers=8)],
    "C03": [model("RankSelectImpl"), model("RankSelectImpl", "RankSelectImplDeep.cfg", behaviours=rank_seqs("select"), workers=4), model("RankSelectImpl", "RankSelectImplThorough.cfg", thorough_only=True, workers=8)],

    "C01": [model("BitVecImpl", behaviours=bitvec_tours), model("BitVecImpl", "BitVecImplDeep.cfg", workers=4)],
}
# the specification of long sequences, against plain ones
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C20"):
    MODELS.setdefault(_p, []).append(model("RunSeqMC"))
for _p in ("C15", "C19"): MODELS.setdefault(_p, []).append(model("PagedMC"))
MODELS.setdefault("C17", []).extend([model("TrieBigMC"), model("TrieDeepMC")])
