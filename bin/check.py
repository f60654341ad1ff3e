#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current working tree.

1. TLC checks the component's specification (its invariants, and that the implementation-shaped
   specification refines the abstract one) at small constants.
2. Scripts are made from behaviours TLC generates from the specification and from a seeded generator.
3. The real code executes them, in several compiler configurations, and records traces.
4. TLC validates every recorded trace against the specification.
Exit 0: everything explored conforms. Exit 1 + VIOLATION line: a trace is no behaviour of the specification.
Exit 2: the check could not give an answer.
"""
import json, os, sys, time, random, threading, concurrent.futures as cf, shutil, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from vlib import CheckError, BUILD, SEED
import props

def load_known():
    """KNOWN_FINDINGS: 'KNOWN property=<id> match=<substring of the rejected event> :: <text>' entries suppress exactly that
    finding; 'fixed: ...' lines are a record only."""
    known = []
    p = os.path.join(vlib.VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN "):
                known.append(l.strip())
    return known

def write_evidence(pid, tier, ev):
    d = os.path.join(vlib.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))

def shorten(x, n=700):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + " ..."

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    P = props.PROPS[pid]
    work = os.path.join(BUILD, "work", f"{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    log = lambda *a: print(f"[{pid} {time.time()-t0:6.1f}s]", *a, flush=True)

    models = [m for m in P["models"] if tier == "thorough" or not m.get("thorough_only")]
    # the main part, whose histories the specification generates too, and further parts with their own harness
    parts = [dict(harness=P["harness"], module=P["module"], cfg="Trace.cfg", gen=P["gen"], configs=P["configs"], cpu=P.get("cpu", 20), tag="")]
    for n, x in enumerate(P.get("parts", [])):
        parts.append(dict(dict(cfg="Trace.cfg", cpu=60, tag=f"p{n + 1}-"), **x))
    for p in parts:
        p["configs"] = vlib.usable(p["configs"])
    configs = sorted({c for p in parts for c in p["configs"]})
    states = trans = 0
    samples = []
    model_info = []
    with cf.ThreadPoolExecutor(8) as ex:
        need = {}
        for p in parts:
            need.setdefault(p["harness"], []).extend(c for c in p["configs"] if c not in need.get(p["harness"], []))
        fbs = {x: ex.submit(vlib.build, x, c) for x, c in need.items()}
        def one_model(m):
            kw = dict(m.get("kw", {}))
            if tier == "thorough":
                kw.update(m.get("thorough_kw", {}))
            cfg = m.get("thorough_cfg") if tier == "thorough" and m.get("thorough_cfg") else m.get("cfg")
            r = vlib.model_check(m["module"], cfg, workers=m.get("workers", 4), deadlock_ok=m.get("deadlock_ok", True), **kw)
            beh = []
            if m.get("behaviours"):
                for l in r["out"].split("\n"):
                    if l.startswith(('"@@', "@@")):
                        l = l.strip()
                        if l.startswith('"'):
                            l = l[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                        beh.append(json.loads(l[2:]))
                # TLC's workers print in no fixed order: the same seed is to give the same histories (the first one starts in Init)
                beh[1:] = sorted(beh[1:], key=json.dumps)
            return m, cfg, r, beh
        fms = [ex.submit(one_model, m) for m in models]
        histories = []
        for f in fms:
            m, cfg, r, beh = f.result()
            states += r["distinct"]; trans += r["generated"]
            model_info.append(dict(module=m["module"], cfg=cfg or m["module"] + ".cfg", distinct=r["distinct"], generated=r["generated"], behaviours=len(beh)))
            log("model", m["module"], f"{r['distinct']} states", f"{len(beh)} behaviours printed" if beh else "")
            if m.get("behaviours"):
                if not beh:
                    raise CheckError(f"model {m['module']} generated no behaviours")
                hs, note = m["behaviours"](beh, random.Random(SEED * 7919 + 17), tier)
                histories += hs
                model_info[-1].update(histories=len(hs), replayed=note)
        for p in list(parts):   # a part that needs more than a container of the standard library offers is left out where it does not compile
            if p.get("optional"):
                try: fbs[p["harness"]].result()
                except (vlib.DoesNotCompile, vlib.CheckError): log("left out:", p["harness"], "does not compile"); parts.remove(p)
        try:
            bins = [fbs[p["harness"]].result() for p in parts]
        except vlib.DoesNotCompile as e:
            rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
            rf = os.path.join(rp, f"{pid}-compile.txt")
            open(rf, "w").write(str(e))
            print(str(e)[:3000])
            write_evidence(pid, tier, dict(property=pid, tier=tier, seed=SEED, level=P.get("level", "model_checking"),
                coverage=dict(states=max(1, states), transitions=max(1, trans), traces_validated_against_impl=0, samples=[str(e)[:600]]),
                wall_s=round(time.time() - t0, 1), violations=1))
            print(f"VIOLATION property={pid} replay={rf}", flush=True)
            shutil.rmtree(work, ignore_errors=True)
            return 1
    log("built", ",".join(sorted({p["harness"] for p in parts})), "for", ",".join(configs))

    nb = len(histories)
    ids = set()
    for n, p in enumerate(parts):
        hs = p["gen"](random.Random(SEED * 1000003 + int(pid[1:]) + 977 * n), tier)
        p["h"] = (histories if n == 0 else []) + [(p["tag"] + str(a), b, c) for a, b, c in hs]
        for x in p["h"]:
            if x[0] in ids:
                raise CheckError("duplicate history id " + x[0])
            ids.add(x[0])
        p["script"] = os.path.join(work, f"script{n}.txt")
        open(p["script"], "w").write(vlib.script_text(p["h"]))
    def in_room(l, p):   # at these sizes more memory or time than the check has is no verdict: what was recorded before counts
        t = json.loads(l)
        e = t["ev"][-1] if t["ev"] else {}
        if e.get("op") != "hang" and e.get("what") != "bad_alloc": return l
        log("left out: the rest of huge history", t["id"], "of", p["harness"], f"({e['op']} at {e['at']})")
        return json.dumps(dict(t, ev=t["ev"][:-1]), separators=(",", ":"))
    hung = threading.Event()
    def rec(a):
        n, c = a
        p = parts[n]
        large = p["cpu"] >= 150
        if large and vlib.free_memory() < 14 << 30:     # no room here for structures past 2^32: leave them out
            log("left out: huge structures of", p["harness"], "(too little memory)")
            return a, []
        try:
            ls = vlib.record(bins[n].get(c) or bins[n]["portable"], c, p["script"], len(p["h"]), os.path.join(work, f"trace.{n}.{c}.ndjson"), cpu=p["cpu"], stop=None if large else hung)
            return a, [in_room(l, p) for l in ls] if large else ls
        except vlib.Killed:
            if not large: raise
            log("left out: huge structures of", p["harness"], "(ended from outside)")
            return a, []
    for p in parts[:1]: # and two histories at a time, in turn: no object may see those of another history
        p["configs"] = list(p["configs"]) + ["pairs"]
    jobs = [(n, c) for n, p in enumerate(parts) for c in p["configs"]]
    with cf.ThreadPoolExecutor(6) as ex:
        recs = dict(ex.map(rec, jobs))
    if hung.is_set(): log("an operation did not return: the histories behind it were not run")
    # traces of one specification are validated together; the same trace from several configurations once
    groups = {}
    for n, p in enumerate(parts):
        g = groups.setdefault((p["module"], p["cfg"]), dict(merged=[], origin=[], seen={}, module=p["module"], cfg=p["cfg"], file=os.path.join(work, f"validate{len(groups)}.ndjson")))
        for c in p["configs"]:
            for k, l in enumerate(recs[n, c]):
                if l in g["seen"]:
                    g["origin"][g["seen"][l]][2].append(c)
                else:
                    g["seen"][l] = len(g["merged"])
                    g["merged"].append(l); g["origin"].append((n, k, [c]))
    groups = list(groups.values())
    total = sum(len(v) for v in recs.values())
    nhist = sum(len(p["h"]) for p in parts)
    log(f"recorded {total} traces ({sum(len(g['merged']) for g in groups)} different) of {nhist} histories ({nb} from the specification)")

    known_hits = []
    known = [k for k in load_known() if f"property={pid} " in k]
    def val(g):
        open(g["file"], "w").write("\n".join(g["merged"]) + "\n")
        return vlib.validate(g["module"], g["file"], cfg=g["cfg"], timeout=P.get("tlc_timeout", 780))
    with cf.ThreadPoolExecutor(4) as ex:
        results = list(ex.map(val, groups))
    for gi, g in enumerate(groups):
      r = results[gi]
      while not r["ok"]:
        merged = g["merged"]
        tr = json.loads(merged[r["h"]])
        n, k, cs = g["origin"][r["h"]]
        part = parts[n]
        ev = tr["ev"][r["i"]] if r["i"] < len(tr["ev"]) else {"op": "<end of trace>"}
        hit = [x for x in known if x.split("match=", 1)[1].split(" :: ")[0] in json.dumps(ev)]
        if hit:   # a listed finding: report it and validate the rest without this history
            known_hits.append(hit[0].split(" :: ", 1)[1])
            merged[r["h"]] = json.dumps(dict(tr, ev=tr["ev"][:r["i"]]))
            r = results[gi] = val(g)
            continue
        # confirm: the same history alone, recorded again, has to be rejected again
        log(f"rejected: history {tr['id']} event {r['i'] + 1} in {cs}")
        one = os.path.join(work, "one.txt")
        both = [part["h"][k]]
        if cs[0] == "pairs": both = part["h"][k - k % 2:][:2]
        open(one, "w").write(vlib.script_text(both))
        again = vlib.record(bins[n].get(cs[0]) or bins[n]["portable"], cs[0], one, len(both), os.path.join(work, "one.ndjson"), cpu=part["cpu"])
        again = again[k % 2:] if len(both) == 2 else again
        open(os.path.join(work, "one.ndjson"), "w").write("\n".join(again) + "\n")
        r2 = vlib.validate(g["module"], os.path.join(work, "one.ndjson"), cfg=g["cfg"])
        if r2["ok"]:
            # recorded within the whole run only: keep the original trace if it is rejected again
            open(os.path.join(work, "one.ndjson"), "w").write(merged[r["h"]] + "\n")
            r2 = vlib.validate(g["module"], os.path.join(work, "one.ndjson"), cfg=g["cfg"])
            if r2["ok"]:
                raise CheckError("rejection of a trace did not repeat")
        tr2 = json.loads(open(os.path.join(work, "one.ndjson")).read().split("\n")[0])
        ev = tr2["ev"][r2["i"]] if r2["i"] < len(tr2["ev"]) else ev
        rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, f"{pid}-{SEED}-{tr['id']}.json")
        json.dump(dict(property=pid, config=cs[0], harness=part["harness"], module=g["module"], cfg=g["cfg"], cpu=part["cpu"], history=part["h"][k], **(dict(pair=both, index=k % 2) if len(both) == 2 else {}),
                       rejected_event=r2["i"] + 1, event=ev, trace=dict(tr2, ev=tr2["ev"][:r2["i"] + 1])), open(rf, "w"), indent=1)
        print(f"history {tr['id']} ({part['harness']}, {cs[0]}), event {r2['i'] + 1} is no step of the specification {g['module']}:")
        print("  script: " + shorten(part["h"][k][2][max(0, r2['i'] - 5): r2['i'] + 1]))
        print("  event:  " + shorten(ev, 1500))
        write_evidence(pid, tier, dict(property=pid, tier=tier, seed=SEED, level=P.get("level", "model_checking"),
            coverage=dict(states=states + sum(x["distinct"] for x in results), transitions=trans + sum(x["generated"] for x in results),
                          traces_validated_against_impl=max(0, r["h"]) + sum(len(x["merged"]) for x in groups[:gi]), samples=[shorten(ev)]),
            wall_s=round(time.time() - t0, 1), violations=1))
        print(f"VIOLATION property={pid} replay={rf}", flush=True)
        shutil.rmtree(work, ignore_errors=True)
        return 1
    for t in known_hits:
        print(f"KNOWN-FINDING: property={pid} {t}")
    different = sum(len(g["merged"]) for g in groups)
    events = sum(x["distinct"] for x in results) - different
    for g in groups:
        for k in sorted({0, len(g["merged"]) // 2, len(g["merged"]) - 1}):
            t = json.loads(g["merged"][k])
            samples.append(shorten(dict(id=t["id"], p=t["p"], specification=g["module"], events=len(t["ev"]), first_events=t["ev"][:3])))
    write_evidence(pid, tier, dict(property=pid, tier=tier, seed=SEED, level=P.get("level", "model_checking"),
        coverage=dict(states=states + sum(x["distinct"] for x in results), transitions=trans + sum(x["generated"] for x in results),
                      traces_validated_against_impl=total, samples=samples, distinct_traces=different, events_validated=events, histories=nhist,
                      parts=[dict(harness=p["harness"], specification=p["module"], configurations=p["configs"], histories=len(p["h"])) for p in parts],
                      histories_generated_by_tlc=nb, configurations=configs, models=model_info,
                      rule=P.get("rule", "")),
        assumptions=P.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=0))
    log(f"OK: {different} different traces, {events} events validated by TLC")
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR:", e, flush=True); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
