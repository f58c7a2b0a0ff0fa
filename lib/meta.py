"""C20: Inspector.tla; a database made by the harness, spoken to by the real driver."""
import json, random
import concurrent.futures as cf
from core import *

RULE = ("one case = one script generated by TLC (a database, calls, failures), run against the real inspector; distinct = distinct recorded "
        "executions; non-trivial = a query was answered")
ASSUME = ["the database is the harness; of SQL it understands what plain queries on pg_class and pg_namespace need (a query it does not understand is "
          "answered with the tables there are)", "real time and loopback sockets; interleavings are whatever the runtime gives"]
GEN = "SPECIFICATION GSpec\nCONSTANTS Th = {1} Cn = {1} Hist = TRUE MaxFaults = 0 MaxCalls = 0\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def trace_cfg():
    s = lambda n: ", ".join(map(str, range(1, n + 1)))
    return "SPECIFICATION TSpec\nCONSTANTS Th = {%s} Cn = {%s}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % (s(5), s(60))


def design(chk):
    f, c, th = (2, 3, 2) if TIER == "quick" else (2, 4, 2)
    rc, text = tlc("InspectorGen", "SPECIFICATION DSpec\nCONSTANTS Th = {%s} Cn = {1, 2, 3, 4} Hist = FALSE MaxFaults = %d MaxCalls = %d\n"
                   "INVARIANT NeverStuck\nPROPERTY Returns AtRest Clean\nCHECK_DEADLOCK FALSE\n" % (", ".join(map(str, range(1, th + 1))), f, c), 800, workers=3, heap="5g", check=False)
    if rc != 0 or "No error has been found" not in text:
        raise CheckError("the design does not satisfy its own properties\n" + text[-4000:])
    g, d = tlc_stats(text)
    chk.add(states=d, transitions=g, design_distinct_states=d)
    chk.cov.setdefault("design_instances", []).append({"InspectorGen": {"MaxFaults": f, "MaxCalls": c, "Th": th, "Cn": 4}})


def build():
    d = harness_copy()
    b = os.path.join(scratch(), "meta.test")
    run([GO, "test", "-c", "-o", b, "./meta"], 600, env=goenv(), cwd=d)
    log("built the harness")
    return b


def run_scripts(b, scripts, budget=200):
    fin, fout = os.path.join(scratch(), "meta-in"), os.path.join(scratch(), "meta-out")
    with open(fin, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    rc, text = run(limited([b, "-test.run", "^TestMeta$", "-test.timeout", "0"]), budget, env=goenv(META_IN=fin, META_OUT=fout), cwd=scratch(), check=False)
    out, done = {}, False
    if os.path.exists(fout):
        for line in open(fout):
            o = json.loads(line)
            if "X" in o:
                done = True
            else:
                out[o["id"]] = o["ev"]
    if rc != 0 or not done:
        if "harness:" not in text and re.search(r"^(panic: |fatal error: )", text, re.M):      # the code under test, outside of a call
            return out, text[-3000:]
        raise CheckError("the harness failed (exit %s)\n%s" % (rc, text[-4000:]))
    return out, ""


def check(prop):
    from report import Check
    chk = Check(prop)
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + 20)
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build)
        fd = ex.submit(design, chk)
        end = T0 + (0 if quick else 420)
        while True:
            n = 1200 if quick else 3000
            sc = gen_scripts("InspectorGen", GEN, n // 40, 45, shards=4, salt=rng.randrange(1000))
            rng.shuffle(sc)
            for i, s in enumerate(sc):
                s.update(id=i, seed=rng.getrandbits(31))
            res, died = run_scripts(fb.result(), sc)
            if died:
                chk.violation("Panic", "the inspector panics: " + died, {"text": died})
            ts = []
            for s in sc:
                if s["id"] in res:
                    rels = [{"oid": str(r["oid"]), "name": r["name"], "schema": r["schema"], "kind": r["kind"], "sys": r["sys"]} for r in s["rels"]]
                    ts.append({"cat": {"db": s["db"], "rels": rels}, "ev": res[s["id"]], "script": s})
            strip = lambda t: {k: v for k, v in t.items() if k != "script"}
            uniq = dedupe(ts, strip)
            rej, states = validate("InspectorTrace", trace_cfg(), [strip(t) for t in uniq])
            chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq), evaluations=len(ts), scripts=len(sc),
                    distinct_nontrivial=sum(1 for t in uniq if any(e["e"] == "Row" or e.get("op") == "db" for e in t["ev"])))
            for i, l in sorted(rej.items()):
                t = uniq[i]
                ev = t["ev"][l - 1]
                chk.violation("%s:%s:%s" % (ev["e"], ev.get("op", ""), ev.get("r", "") if isinstance(ev.get("r"), str) else ""),
                              "event %d of the recorded execution is not a behaviour of Inspector: %s" % (l, json.dumps(ev)[:800]),
                              {"script": t["script"], "accepted": l - 1, "trace": t["ev"][:l + 2]})
            if not chk.cov["samples"] and uniq:
                t = sorted(uniq, key=lambda t: abs(len(t["ev"]) - 30))[0]
                chk.cov["samples"] = [{"cat": t["cat"], "trace": t["ev"]}]
            if quick or chk.viol or time.time() > end:
                break
        fd.result()
    chk.cov["rule"] = RULE
    chk.assume = ASSUME
    return chk.finish()
