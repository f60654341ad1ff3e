"""Behaviours of a specification out of the transitions TLC prints: [state, label, next state]."""
def tours(edges, rng, maxlen=40, budget=None, start=None):
    """Walks from the initial state that together take every transition (or as many as `budget` steps allow).
    Returns lists of labels (with the state they start from, if `start` is a list of states), and the number of
    transitions covered."""
    starts = start if isinstance(start, list) else [start if start is not None else edges[0][0]]
    out, seen = {}, set()
    for s, l, t in edges:
        k = (s, repr(l), t)
        if k in seen: continue
        seen.add(k)
        out.setdefault(s, []).append([l, t, False])
    for s in out: rng.shuffle(out[s])
    # distance to the nearest state that has transitions left is found by breadth-first search when needed
    left = {s: len(v) for s, v in out.items()}
    total = sum(left.values()); done = 0; steps = 0; walks = []
    def path(src):
        prev, q, k = {src: None}, [src], 0
        while k < len(q):
            s = q[k]; k += 1
            if left.get(s): 
                p = []
                while prev[s] is not None: s, e = prev[s]; p.append(e)
                return p[::-1]
            for e in out.get(s, []):
                if e[1] not in prev: prev[e[1]] = (s, e); q.append(e[1])
        return None
    while done < total and (budget is None or steps < budget):
        s0 = s = rng.choice(starts); w = []
        while len(w) < maxlen:
            if left.get(s): 
                es = out[s]; e = None
                c = [x for x in es if not x[2]]
                e = rng.choice(c) if len(c) < 50 else c[0]
                es_path = [e]
            else:
                es_path = path(s)
                if es_path is None or (w and len(w) + len(es_path) >= maxlen): break
            for e in es_path:
                if not e[2]: e[2] = True; left[s] -= 1; done += 1
                w.append(e[0]); s = e[1]
        if not w:       # nothing left to reach from here
            if len(starts) == 1: break
            starts = [x for x in starts if x != s0]; continue
        walks.append((s0, w) if isinstance(start, list) else w); steps += len(w)
    return walks, done, total
