"""Checks decided with Proxy.tla: C01-C06, C10, C16, C17 (and the session part of C09)."""
import json, random
from core import *

ALL = ["relay", "iso", "stall", "close", "gate", "shake", "cfg", "fault", "srv"]


def tset(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def consts(on, env, sess, amts, dbs=("d1",), addrs=("h1:5432",), maxcfg=1, maxmsg=40, maxssl=1, maxops=20, hist=True):
    return ("CONSTANTS Sess = {%s} On = %s Env = %s Amts = {%s} Dbs = %s Addrs = %s MaxCfg = %d MaxMsg = %d MaxSsl = %d "
            "MaxOps = %d Hist = %s\n" % (", ".join(map(str, range(1, sess + 1))), tset(on), tset(env), ", ".join(map(str, amts)),
                                         tset(dbs), tset(addrs), maxcfg, maxmsg, maxssl, maxops, "TRUE" if hist else "FALSE"))


def design(**kw):
    """Exhaustive check of the design on a small instance; returns (generated, distinct)."""
    cfg = "SPECIFICATION FairSpec\n" + consts(ALL, hist=False, **kw) + "INVARIANT Invs\nPROPERTY Rests\nCHECK_DEADLOCK FALSE\n"
    rc, text = tlc("ProxyGen", cfg, 900, workers=4, heap="6g")
    if "No error has been found" not in text:
        raise CheckError("the design does not satisfy its own properties\n" + text[-4000:])
    return tlc_stats(text)


# SessionImpl: per property an instance on which the design refines Proxy, and parts of the design without which it must not
PARTS = ["check", "flush", "hangup", "drain", "split", "cancel", "wait"]
IMPL = {
    "C01": (dict(env=["stall"], amts=[1, 2], maxmsg=3, ops=4), []),
    "C03": (dict(env=["stall"], amts=[7], damts=[1, 2], maxmsg=7, maxd=2, ops=4),
            [("split", dict(env=["stall"], amts=[7], damts=[1], maxmsg=7, maxd=1, ops=4))]),
    "C04": (dict(env=["closed", "half", "reset", "junk"], amts=[1, 2], maxmsg=2, ops=4),
            [("flush", dict(env=["closed"], amts=[2], maxmsg=2, ops=4)), ("hangup", dict(env=["closed"], amts=[1], maxmsg=1, ops=4)),
             ("drain", dict(env=["closed"], amts=[7], maxmsg=7, ops=4))]),
    "C05": (dict(env=["gate", "dial", "closed", "reset"], amts=[1], maxmsg=1, ops=4), [("check", dict(env=["gate"], amts=[1], maxmsg=1, ops=3))]),
    "C10": (dict(env=["srv", "dial", "closed", "half", "gate"], amts=[1], maxmsg=1, ops=4),
            [("cancel", dict(env=["srv", "dial"], amts=[1], maxmsg=1, ops=3)), ("wait", dict(env=["srv"], amts=[1], maxmsg=1, ops=3))]),
}


def session_design(prop):
    """The design of a session refines Proxy; returns (generated, distinct, instances)."""
    if prop not in IMPL:
        return 0, 0, []
    des, mutants = IMPL[prop]

    def cfg(env, amts, maxmsg, ops, off=None, damts=None, maxd=None):
        return ("SPECIFICATION Spec\nCONSTANTS CAmts = {%s} DAmts = {%s} MaxC = %d MaxD = %d MaxSsl = 1 MaxOps = %d K = 1 B = 1 Env = %s Parts = %s\n"
                "INVARIANT Sane Quiet Forgotten\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
                % (", ".join(map(str, amts)), ", ".join(map(str, damts or amts)), maxmsg, maxd or maxmsg, ops, tset(env), tset([x for x in PARTS if x != off])))
    des = dict(des, ops=des["ops"] + (TIER != "quick"))
    rc, text = tlc("SessionImpl", cfg(**des), 900, workers=3, heap="6g")
    if "No error has been found" not in text:
        raise CheckError("the design of a session does not refine Proxy\n" + text[-4000:])
    for off, kw in mutants:
        rc, bad = tlc("SessionImpl", cfg(off=off, **kw), 300, workers=2, check=False)
        if not re.search(r"(is|was|were) violated", bad):
            raise CheckError("Proxy does not need " + off + " of SessionImpl\n" + bad[-2000:])
    g, d = tlc_stats(text)
    return g, d, [dict(des, SessionImpl=True, needs=[m[0] for m in mutants])]


def scripts(num, maxops, depth=None, shards=4, salt=0, **kw):
    cfg = "SPECIFICATION GSpec\n" + consts(ALL, maxops=maxops, **kw) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    return gen_scripts("ProxyGen", cfg, num, depth or maxops * 40, shards=shards, salt=salt)


def merge(evs):
    """Join adjacent message events into ranges; drop what the specification does not need."""
    out, dial = [], {}
    for e in evs:
        if e["e"] == "DStart":
            dial[e["n"]] = e["s"]
    for e in evs:
        k = e["e"]
        if k == "Init":
            continue
        if k in ("CSend", "DSend", "CRecv", "DRecv"):
            p = out[-1] if out else None
            if p and p["e"] == k and p["s"] == e["s"] and p.get("src") == e.get("src") and p["b"] + 1 == e["i"]:
                p["b"] = e["i"]
                continue
            n = {"e": k, "s": e["s"], "a": e["i"], "b": e["i"]}
            if "src" in e:
                n["src"] = e["src"]
            out.append(n)
            continue
        e = dict(e)
        if k == "Dial" and e["n"] in dial:
            e["s"] = dial[e["n"]]
        if k in ("DEof", "DTorn", "DBad", "DReset", "DClose", "DHalf") and e.get("s") == 0 and e.get("n") in dial:
            e["s"] = dial[e["n"]]
        out.append(e)
    return out


def jobs(scripts, rng, opts, seeds=1, kind="proxy"):
    out = []
    for i, s in enumerate(scripts):
        o = dict(opts)
        mode = s.get("mode", "direct")
        o["mode"] = rng.choice(["listen", "listen", "serve"]) if mode == "listen" else "direct"
        if "prof" not in o:
            o["prof"] = rng.choice(["small", "mixed", "mixed", "mixed", "big"])
        out.append({"kind": kind, "id": i, "ops": s["ops"], "opt": o, "seeds": [rng.getrandbits(40) for _ in range(seeds)]})
    return out


def traces_of(runs):
    ts = []
    for r in runs:
        init = next((e for e in r["ev"] if e["e"] == "Init"), None)
        if init is None:
            if any(e["e"] == "Panic" for e in r["ev"]):
                init = {"mode": "listen"}
            else:
                raise CheckError("a run without Init: %r" % (r,))
        ts.append({"mode": init["mode"], "ev": merge(r["ev"]), "run": r})
    return ts


def trace_cfg(on, sess):
    return ("SPECIFICATION TSpec\nCONSTANTS Sess = {%s} On = %s\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
            % (", ".join(map(str, range(1, sess + 1))), tset(on)))


def judge(chk, on, runs, sess, jobtab):
    """Validate the runs against Proxy with the groups on; record violations."""
    ts = traces_of(runs)
    uniq = dedupe(ts, lambda t: [t["mode"], t["ev"]])
    rej, states = validate("ProxyTrace", trace_cfg(on, sess), [{"mode": t["mode"], "ev": t["ev"]} for t in uniq])
    chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq),
            evaluations=len(runs))
    chk.add(distinct_nontrivial=sum(1 for t in uniq if nontrivial(t)))
    for i, l in sorted(rej.items()):
        t = uniq[i]
        ev = t["ev"][l - 1]
        j = jobtab[t["run"]["job"]]
        chk.violation(signature(t, l), "event %d of the recorded execution is not a behaviour of Proxy: %s" % (l, json.dumps(ev)),
                      {"job": {**j, "seeds": [t["run"]["seed"]]}, "accepted": l - 1, "trace": t["ev"][:l + 3]})
    return uniq


def nontrivial(t):
    k = {e["e"] for e in t["ev"]}
    return "DStart" in k and ("CRecv" in k or "DRecv" in k) or "CEof" in k


def signature(t, l):
    e = t["ev"][l - 1]
    if e["e"] == "Panic":
        return "Panic:" + re.sub(r"0x[0-9a-f]+|\d+", "#", e["what"])[:120].replace(" ", "_") + ":" + (e["where"][0].split("/")[-1] if e["where"] else "?")
    return e["e"]


# ---------------------------------------------------------------- the checks

BASE = dict(sess=3, amts=[1, 3, 10], dbs=["d1", "d2"], addrs=["h1:5432"], maxcfg=1, maxssl=1, maxops=20)
ALLENV = ["cut", "gate", "cfg", "stall", "close", "reset", "early", "part", "badcfg", "mode", "temp", "junk", "half"]


def prof(w, env, opt=None, **kw):
    d = dict(BASE)
    d.update(kw, env=env)
    return (w, d, opt or {})


# per property: clauses enforced, script profiles (weight, constants, options), instance for the design check
PROFILES = {
    "C01": (["relay"], [
        prof(3, ["part"], amts=[1, 2, 5, 20], maxmsg=80),
        prof(2, ["part", "stall"], amts=[1, 20, 90], maxmsg=260, maxops=16),
        prof(2, ["part"], sess=1, amts=[1, 7, 40], maxmsg=200),
        prof(1, ["part"], {"prof": "big"}, sess=1, amts=[1, 3], maxops=12),
        prof(2, ["part", "close", "half", "gate", "cfg"]), prof(1, ["part"], {"crowd": 24}, sess=2, maxops=8),
        prof(1, ["part"], {"prof": "huge", "few": 6}, sess=1, amts=[1, 4], maxmsg=8, maxops=8),
        prof(1, ["part"], {"prof": "haul", "few": 2}, sess=1, amts=[33000, 70000], maxmsg=70000, maxops=8)],
        dict(env=["stall", "part"], sess=1, amts=[1, 2], maxmsg=3, maxops=9)),
    "C02": (["iso"], [
        prof(3, ["part", "close", "reset"], sess=4, maxops=26),
        prof(2, ["part", "stall", "close", "half", "junk"], sess=4, amts=[1, 20, 90], maxmsg=200, maxops=26),
        prof(2, ["part", "cfg", "close", "reset", "gate"], sess=4, addrs=["h1:5432", "h2:5432"], maxcfg=3, maxops=26),
        prof(1, ["part", "mode", "cut", "temp"], sess=5, maxops=28),
        prof(2, ["part", "close", "mode"], {"crowd": 150}, sess=2, maxops=8)],
        dict(env=["close"], sess=2, amts=[1], maxmsg=1, maxops=7, dbs=("d1",))),
    "C03": (["stall"], [
        prof(4, ["stall"], {"prof": "big"}, sess=2, amts=[1, 30, 120], maxmsg=400, maxops=18),
        prof(3, ["stall"], sess=3, amts=[1, 10, 140], maxmsg=900, maxops=22),
        prof(2, ["stall", "close", "half", "part"], sess=3, amts=[1, 200], maxmsg=900, maxops=22),
        prof(1, ["stall", "reset", "junk", "mode", "cut"], sess=4, amts=[1, 100], maxmsg=400, maxops=24),
        prof(1, ["stall"], {"crowd": 40}, sess=2, maxops=8)],
        dict(env=["stall"], sess=1, amts=[1, 2], maxmsg=3, maxops=10)),
    "C04": (["close"], [
        prof(4, ["close"], amts=[1, 4, 30, 100], maxmsg=300, maxops=14),
        prof(3, ["close", "reset", "stall"], amts=[1, 5, 100], maxmsg=300, maxops=18),
        prof(2, ["close", "reset", "part", "junk", "cut", "gate"], maxops=16),
        prof(2, ["close", "half", "stall", "part"], {"cut": True}, sess=2, amts=[5, 100], maxmsg=300, maxops=14),
        prof(2, ["half", "close"], amts=[1, 4, 30], maxmsg=100, maxops=14),
        prof(2, ["close", "reset", "mode"], sess=4, addrs=["h1:5432"], maxops=18)],
        dict(env=["close", "reset", "half", "junk"], sess=1, amts=[1, 2], maxmsg=2, maxops=8)),
    "C05": (["gate"], [
        prof(4, ["gate", "cut"], sess=4, maxssl=2, maxops=14),
        prof(2, ["gate", "cfg", "badcfg", "early"], sess=4, addrs=["h1:5432", "h2:5432"], maxcfg=4, maxops=16),
        prof(1, ["gate", "cfg"], sess=4, dbs=["a b", "a+b", "a%20b"], maxcfg=3, maxops=14),
        prof(1, ["gate", "close", "reset", "part"], sess=4, maxops=18)],
        dict(env=["gate", "cfg"], sess=1, amts=[1], maxmsg=1, maxops=6, dbs=("d1", "d2"), maxcfg=2)),
    "C06": (["shake"], [
        prof(4, ["gate"], sess=3, maxssl=6, maxops=16),
        prof(2, ["gate", "cut", "close", "reset", "half", "stall"], sess=3, maxssl=4, maxops=18),
        prof(2, ["cfg", "mode", "early"], sess=4, addrs=["h1:5432", "h2:5433", "10.0.0.7:6543"], maxcfg=3, maxssl=2, maxops=16),
        prof(1, ["part"], sess=2, maxssl=3, amts=[1, 4])],
        dict(env=["gate", "close"], sess=1, amts=[1], maxmsg=1, maxssl=2, maxops=7, dbs=("d1",))),
    "C09": (["fault"], [
        prof(4, ["junk", "cut", "gate", "part"], {"wild": True}, sess=5, maxssl=3, maxops=24),
        prof(3, ["junk", "cut", "reset", "close"], {"wild": True}, sess=4, amts=[1, 5], maxops=20),
        prof(2, ["junk", "stall", "cfg"], {"wild": True}, sess=4, amts=[1, 90], maxmsg=200, maxcfg=3, maxops=22),
        prof(2, ["junk", "cut", "gate"], sess=5, maxops=20)],
        dict(env=["junk", "cut"], sess=1, amts=[1], maxmsg=1, maxops=7)),
    "C10": (["srv"], [
        prof(3, ["srv", "part", "early", "mode", "close", "reset", "stall"], {"srv": True}, amts=[1, 5, 90], maxmsg=200, maxops=16),
        prof(2, ["srv", "early", "cfg", "badcfg"], {"srv": True}, sess=4, maxcfg=3, maxops=10),
        prof(3, ["srv", "half", "stall", "close"], {"srv": True}, sess=2, amts=[1, 5, 90], maxmsg=200, maxops=12),
        prof(4, ["srv", "late", "half", "stall", "close", "reset"], {"srv": True}, sess=1, amts=[1, 90, 200], maxmsg=700, maxops=12),
        prof(2, ["srv", "mode", "temp", "cut"], {"srv": True}, sess=4, maxops=9, maxssl=2),
        prof(2, ["srv"], {"srv": True}, sess=4, amts=[1, 20, 200], maxmsg=500, maxops=16),
        prof(1, ["srv", "close"], {"srv": True, "crowd": 60}, sess=2, maxops=8)],
        dict(env=["srv", "close", "half", "early"], sess=1, amts=[1], maxmsg=1, maxops=7)),
    "C16": (["cfg"], [
        prof(3, ["cfg", "early"], sess=4, addrs=["h1:5432", "h2:5433"], maxcfg=5, maxops=16),
        prof(2, ["cfg", "gate", "badcfg", "early"], sess=4, addrs=["h1:5432", "h2:5432", "h1:5433"], dbs=["d1", "d2", "d3"], maxcfg=6, maxops=18),
        prof(2, ["cfg", "part", "close"], sess=4, addrs=["h1:5432", "h2:5432"], maxcfg=6, maxops=24),
        prof(1, ["cfg", "mode"], sess=4, addrs=["h1:5432", "h2:5432"], maxcfg=4, maxops=18),
        prof(1, ["cfg"], {"crowd": 40}, sess=3, addrs=["h1:5432", "h2:5432"], maxcfg=4, maxops=12)],
        dict(env=["cfg", "badcfg"], sess=1, amts=[1], maxmsg=1, maxops=7, dbs=("d1", "d2"), addrs=("h1:5432", "h2:5432"), maxcfg=3)),
    "C17": (["fault"], [
        prof(4, ["junk", "cut", "gate", "mode", "temp", "reset", "close", "half"], sess=5, maxops=26),
        prof(2, ["mode", "cfg", "badcfg"], sess=5, addrs=["h1:5432", "h2:5432"], maxcfg=4, maxops=24),
        prof(2, ["temp", "cut", "early"], sess=5, maxops=18),
        prof(2, ["mode", "junk", "reset"], {"crowd": 300}, sess=3, maxops=8),
        prof(2, ["stall", "junk", "reset", "part"], sess=4, amts=[1, 100], maxmsg=300, maxops=24)],
        dict(env=["junk", "cut", "mode", "reset"], sess=1, amts=[1], maxmsg=1, maxops=7)),
}

# what the specification and the harness take for granted
ASSUME = ["the Go runtime, net, sync and TCP are modelled by testing/synctest and an in-memory network with bounded buffers",
          "schedules are sampled (delays before every statement of pkg/server), not enumerated",
          "peers are well-behaved TCP endpoints: close, half-close or reset"]
RULE = ("one case = one script generated by TLC from Proxy.tla, run on the real code under one schedule; distinct = distinct "
        "recorded executions; non-trivial = at least one client was served or refused by the proxy")


def check(prop):
    from report import Check
    import concurrent.futures as cf
    on, profs, des = PROFILES[prop]
    chk = Check(prop)
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    with cf.ThreadPoolExecutor(4) as ex:
        fdes = ex.submit(design, **{k: v for k, v in des.items()})
        fbin = ex.submit(build_sim)
        fses = ex.submit(session_design, prop)
        rounds, end = 0, T0 + (22 if quick else 600)
        sess = max(p[1]["sess"] for p in profs)
        samples = []
        while True:
            tot = sum(p[0] for p in profs)
            n = 900 if quick else 2400

            def gen(i):
                w, kw, opt = profs[i]
                return [(s, opt) for s in scripts(max(8, n * w // tot), shards=2, salt=rounds * 100 + i, **kw)]
            sc = [x for l in pmap(gen, range(len(profs)), 4) for x in l]
            rng.shuffle(sc)
            jb, seen = [], {}
            for s, opt in sc:
                # heavy runs are few
                few = opt.get("few", 40 if "crowd" in opt else 1 << 30) * (1 if quick else 5)
                k = json.dumps(opt)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > few:
                    continue
                jb += jobs([s], rng, opt, seeds=1, kind="proxy")
            for i, j in enumerate(jb):
                j["id"] = i
                j["seeds"] = [rng.getrandbits(40) for _ in range(24)]
            b, sites = fbin.result()
            # breadth first: every script under one schedule, then again under others
            jb2 = [dict(j, seeds=[j["seeds"][k]]) for k in range(24) for j in jb if k < 2 or "crowd" not in j["opt"] and "few" not in j["opt"]]
            budget = 20 if quick else 60
            runs = run_jobs(b, jb2, len(sites), budget)
            chk.add(scripts=len(jb))
            uniq = judge(chk, on, runs, sess, {j["id"]: j for j in jb})
            if not samples and uniq:
                samples = [{"script": jb[t["run"]["job"]]["ops"], "schedule": t["run"]["plan"], "seed": t["run"]["seed"], "trace": t["ev"][:40]}
                           for t in sorted(uniq, key=lambda t: -len({e["e"] for e in t["ev"]}))[:1]]
            rounds += 1
            if quick or chk.viol or time.time() > end:
                break
        if not quick:
            des = dict(des, maxops=des["maxops"] + 2)
            g2 = design(**des)
            chk.add(states=g2[1], transitions=g2[0])
        if prop == "C09":
            import wire
            wire.add(chk, ex)
        if prop == "C10":
            import life
            life.add(chk, fbin, ex, salt=5, end=200)
        g, d = fdes.result()
        sg, sd, inst = fses.result()
    chk.add(states=sd, transitions=sg, design_distinct_states=sd)
    chk.cov["session_design_instances"] = inst
    chk.add(states=d, transitions=g, rule=RULE, samples=samples + chk.cov["samples"], design_instance=des, design_distinct_states=d)
    chk.assume = ASSUME
    return chk.finish()
