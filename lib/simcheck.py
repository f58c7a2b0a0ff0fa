"""Generic driver: scripts generated by TLC from a specification, run on the real code in the simulation, recorded
executions validated against the same specification."""
import json, random
import concurrent.futures as cf
from core import *

ASSUME = ["the Go runtime, net, sync and TCP are modelled by testing/synctest and an in-memory network with bounded buffers",
          "schedules are sampled (delays before every statement of pkg/server), not enumerated"]


class Kind:
    """What is specific to one specification."""
    name = ""        # kind of job of the harness
    gen = ""         # generator module
    trace = ""       # trace module
    design_heap = "6g"

    def gen_cfg(self, kw):
        raise NotImplementedError

    def design_cfg(self, kw):
        raise NotImplementedError

    def trace_cfg(self, on, kws):
        raise NotImplementedError

    def trace_of(self, run):
        """The recorded events as they are given to TLC (a dict with ev)."""
        return {"ev": [e for e in run["ev"] if e["e"] != "Init"]}

    def nontrivial(self, t):
        return len(t["ev"]) > 3

    def signature(self, ev, t, l):
        if ev["e"] == "Panic":
            return "Panic:" + re.sub(r"0x[0-9a-f]+|\d+", "#", ev["what"])[:120].replace(" ", "_") + ":" + (ev["where"][0].split("/")[-1] if ev["where"] else "?")
        return ev["e"]

    def depth(self, kw):
        return kw["maxops"] * 6


def design(kind, kw, timeout=900):
    rc, text = tlc(kind.gen, kind.design_cfg(kw), timeout, workers=4, heap=kind.design_heap)
    if "No error has been found" not in text:
        raise CheckError("the design does not satisfy its own properties\n" + text[-4000:])
    return tlc_stats(text)


def scripts(kind, kw, num, shards=2, salt=0):
    return gen_scripts(kind.gen, kind.gen_cfg(kw), num, kind.depth(kw), shards=shards, salt=salt)


def judge(chk, kind, on, kws, runs, jobtab):
    ts = []
    for r in runs:
        t = kind.trace_of(r)
        t["run"] = r
        ts.append(t)
    strip = lambda t: {k: v for k, v in t.items() if k != "run"}
    uniq = dedupe(ts, strip)
    rej, states = validate(kind.trace, kind.trace_cfg(on, kws), [strip(t) for t in uniq])
    chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq), evaluations=len(runs),
            distinct_nontrivial=sum(1 for t in uniq if kind.nontrivial(t)))
    for i, l in sorted(rej.items()):
        t = uniq[i]
        ev = t["ev"][l - 1]
        j = jobtab[t["run"]["job"]]
        chk.violation(kind.signature(ev, t, l), "event %d of the recorded execution is not a behaviour of the specification: %s" % (l, json.dumps(ev)),
                      {"job": {**j, "seeds": [t["run"]["seed"]]}, "accepted": l - 1, "trace": t["ev"][:l + 3]})
    return uniq


def explore(chk, kind, on, profs, des, fbin, salt=0, nscripts=900, nseeds=12, budget=9, end=22, ex=None):
    """One technique applied to one specification; several may be combined in a check."""
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + salt * 31 + int(chk.prop[1:]))
    fdes = ex.submit(design, kind, des) if des else None
    rounds = 0
    samples = []
    limit = time.time() + (0 if quick else end)
    while True:
        tot = sum(p[0] for p in profs)
        n = nscripts if quick else nscripts * 2

        def gen(i):
            w, kw, opt = profs[i]
            return [(s, opt) for s in scripts(kind, kw, max(8, n * w // tot), salt=rounds * 100 + i + salt * 1000)]
        sc = [x for l in pmap(gen, range(len(profs)), 4) for x in l]
        rng.shuffle(sc)
        jb = []
        for i, (s, opt) in enumerate(sc):
            o = dict(opt)
            o.update({k: v for k, v in s.items() if k != "ops"})
            jb.append({"kind": kind.name, "id": i, "ops": s["ops"], "opt": o, "seeds": [rng.getrandbits(40) for _ in range(nseeds)]})
        b, sites = fbin.result()
        jb2 = [dict(j, seeds=[j["seeds"][k]]) for k in range(nseeds) for j in jb]
        runs = run_jobs(b, jb2, len(sites), budget if quick else 5 * budget)
        chk.add(scripts=len(jb))
        uniq = judge(chk, kind, on, [p[1] for p in profs], runs, {j["id"]: j for j in jb})
        if not samples and uniq:
            samples = [{"script": jb[t["run"]["job"]]["ops"], "schedule": t["run"]["plan"], "seed": t["run"]["seed"], "trace": t["ev"][:40]}
                       for t in sorted(uniq, key=lambda t: -len({e["e"] for e in t["ev"]}))[:1]]
        rounds += 1
        if quick or chk.viol or time.time() > limit:
            break
    chk.cov["samples"] = chk.cov["samples"] + samples
    if fdes:
        g, d = fdes.result()
        chk.add(states=d, transitions=g, design_distinct_states=d)
        chk.cov.setdefault("design_instances", []).append({kind.gen: {k: v for k, v in des.items()}})
        if not quick and "maxops" in des:
            big = dict(des, maxops=des["maxops"] + 1)
            g, d = design(kind, big, 1500)
            chk.add(states=d, transitions=g, design_distinct_states=d)
            chk.cov["design_instances"].append({kind.gen: big})
