"""C07, C08, C19, C22 and part of C09: Framing.tla, Codec.tla, Buffer.tla."""
import json, random
import concurrent.futures as cf
from core import *

RULE = ("one case = one input generated by TLC from the specification (or at random over the same fields), given to the real code; "
        "distinct = distinct recorded traces; non-trivial = something was decoded, encoded, read or refused")
ASSUME = ["inputs are sampled; the specification itself is checked exhaustively for short inputs only"]


def build_wire():
    d = harness_copy()
    b = os.path.join(scratch(), "wire.test")
    ov = os.path.join(scratch(), "wire-overlay")
    os.makedirs(ov, exist_ok=True)
    run([GO, "run", "./instr", "-repo", REPO, "-out", ov, "-noyield", "", "-skip", "pkg/cli,pkg/pgmeta", "-fn", "Mix", "-redirect=false"], 300, env=goenv(), cwd=d)
    run([GO, "test", "-c", "-overlay", os.path.join(ov, "overlay.json"), "-o", b, "./wire"], 600, env=goenv(), cwd=d)
    log("built the wire harness")
    return b


def run_wire(binary, groups, shards=CORES, budget=120):
    """Run groups on the real code; returns {group id: traces}; a death of the process is a panic of its group."""
    parts = [groups[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]

    def one(i):
        fin, fout = os.path.join(scratch(), "wire-in-%d" % i), os.path.join(scratch(), "wire-out-%d" % i)
        with open(fin, "w") as f:
            for g in parts[i]:
                f.write(json.dumps(g) + "\n")
        if os.path.exists(fout):
            os.unlink(fout)
        skip, res = 0, {}
        for _ in range(20):
            env = goenv(WIRE_IN=fin, WIRE_OUT=fout, WIRE_SKIP=skip, GOMAXPROCS=1 if i % 2 else 8)
            rc, text = run(limited([binary, "-test.run", "^TestWire$", "-test.timeout", "0"]), budget, env=env, cwd=scratch(), check=False)
            last, done = 0, False
            for line in open(fout):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if "B" in o:
                    last = o["B"]
                elif "X" in o:
                    done = True
                elif "id" in o:
                    res[o["id"]] = o["traces"]
            if done and rc == 0:
                break
            g = parts[i][last - 1] if last else None
            if g is None or g["id"] in res or "harness:" in text:
                raise CheckError("the wire harness failed (exit %s)\n%s" % (rc, text[-4000:]))
            what = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
            res[g["id"]] = [{"stream": [], "ev": [{"e": "Panic", "what": what.group(1)[:200] if what else "exit %s" % rc}]}]
            skip = last
        return res
    out = {}
    for r in pmap(one, range(len(parts)), len(parts)):
        out.update(r)
    return out


def design(chk, module, cfg, what, timeout=900):
    rc, text = tlc(module, cfg, timeout, workers=3, heap="5g", check=False)
    if rc != 0 or "No error has been found" not in text:
        raise CheckError("the design does not satisfy its own properties\n" + text[-4000:])
    g, d = tlc_stats(text)
    chk.add(states=d, transitions=g, design_distinct_states=d)
    chk.cov.setdefault("design_instances", []).append({module: what})


# ---------------------------------------------------------------- inputs

def rbytes(rng, n):
    return [rng.randrange(256) for _ in range(n)]


def rstr(rng, n):
    return [rng.randrange(1, 256) for _ in range(n)]


EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 252, 255, 256, 257, 300, 507, 508, 511, 512, 513]
I32 = [-2**31, -2**31 + 1, -65537, -65536, -32769, -256, -129, -128, -2, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**24, 2**31 - 1]
I16 = [-32768, -257, -256, -129, -128, -2, -1, 0, 1, 127, 128, 255, 256, 257, 32767]
KINDS = ["Auth", "BackendKeyData", "CommandComplete", "DataRow", "EmptyQuery", "ErrorResponse", "NoticeResponse", "NegotiateVersion",
         "ParameterStatus", "Password", "Query", "ReadyForQuery", "RowDescription", "Terminate", "Startup"]
TYPES = dict(zip(KINDS, [82, 75, 67, 68, 73, 69, 78, 118, 83, 112, 81, 90, 84, 88, 0]))


def rvals(rng, k):
    i32 = lambda: rng.choice(I32) if rng.random() < .6 else rng.randrange(-2**31, 2**31)
    i16 = lambda: rng.choice(I16) if rng.random() < .6 else rng.randrange(-2**15, 2**15)
    s = lambda: rstr(rng, rng.choice(EDGE) if rng.random() < .3 else rng.randrange(12))
    b = lambda: rbytes(rng, rng.choice(EDGE) if rng.random() < .3 else rng.randrange(12))
    many = rng.random() < .1
    cnt = lambda: rng.choice([63, 127, 128, 129, 255, 256, 257]) if many else rng.randrange(7)
    sm = (lambda: rstr(rng, rng.randrange(2))) if many else s
    if k == "Auth":
        c = rng.choice([0, 2, 3, 5, 6, 7, 8, 9])
        return {"code": c, "data": rbytes(rng, 4) if c == 5 else b() if c == 8 else []}
    if k == "BackendKeyData":
        return {"pid": i32(), "key": i32()}
    if k in ("CommandComplete", "Password", "Query"):
        return {"s": s()}
    if k == "DataRow":
        return {"vals": [{"null": True, "b": []} if rng.random() < .3 else {"null": False, "b": sm() if many else b()} for _ in range(cnt())]}
    if k in ("EmptyQuery", "Terminate"):
        return {"z": 0}
    if k in ("ErrorResponse", "NoticeResponse"):
        return {"fields": [{"t": rng.randrange(1, 256), "v": sm()} for _ in range(cnt())]}
    if k == "NegotiateVersion":
        return {"ver": i32(), "opts": [sm() for _ in range(cnt())]}
    if k == "ParameterStatus":
        return {"n": s(), "v": s()}
    if k == "ReadyForQuery":
        return {"b": rng.randrange(256)}
    if k == "RowDescription":
        return {"fields": [{"name": sm(), "toid": i32(), "col": i16(), "doid": i32(), "dsz": i16(), "dmod": i32(), "fmt": i16()} for _ in range(min(cnt(), 60))]}
    return {"ver": rng.choice([196608, 196608, 80877103, 80877102, 0, -1]), "ps": [{"n": rstr(rng, 1 + rng.randrange(3)), "v": sm()} for _ in range(cnt())]}


def e16(n): return list((n % 65536).to_bytes(2, "big"))
def e32(n): return list((n % 2**32).to_bytes(4, "big"))


def enc(k, v):
    z = lambda s: s + [0]
    cat = lambda ls: [x for l in ls for x in l]
    if k == "Auth": return e32(v["code"]) + v["data"]
    if k == "BackendKeyData": return e32(v["pid"]) + e32(v["key"])
    if k in ("CommandComplete", "Password", "Query"): return z(v["s"])
    if k == "DataRow": return e16(len(v["vals"])) + cat(e32(-1) if x["null"] else e32(len(x["b"])) + x["b"] for x in v["vals"])
    if k in ("EmptyQuery", "Terminate"): return []
    if k in ("ErrorResponse", "NoticeResponse"): return cat([f["t"]] + z(f["v"]) for f in v["fields"]) + [0]
    if k == "NegotiateVersion": return e32(v["ver"]) + e32(len(v["opts"])) + cat(z(o) for o in v["opts"])
    if k == "ParameterStatus": return z(v["n"]) + z(v["v"])
    if k == "ReadyForQuery": return [v["b"]]
    if k == "RowDescription":
        return e16(len(v["fields"])) + cat(z(f["name"]) + e32(f["toid"]) + e16(f["col"]) + e32(f["doid"]) + e16(f["dsz"]) + e32(f["dmod"]) + e16(f["fmt"]) for f in v["fields"])
    return e32(v["ver"]) + ([] if v["ver"] == 80877103 and not v["ps"] else cat(z(p["n"]) + z(p["v"]) for p in v["ps"]) + [0])


def damage(rng, k, b):
    x = rng.random()
    if x < .4 or not b:
        return b
    if x < .6:
        return b[:rng.randrange(len(b))]
    if x < .7:
        return b + rbytes(rng, rng.choice([1, 2, 4, 8]))
    b = list(b)
    if x < .85:
        b[rng.randrange(len(b))] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
        return b
    w = 4 if k in ("NegotiateVersion", "Auth", "Startup") else 2
    p = 4 if k == "NegotiateVersion" else 0
    n = rng.choice(I32 if w == 4 else I16)
    b[p:p + w] = e32(n) if w == 4 else e16(n)
    return b


def random_case(rng):
    k = rng.choice(KINDS)
    v = rvals(rng, k)
    x = rng.random()
    if x < .1:
        return {"c": "dec", "kind": k, "t": TYPES[k], "b": rbytes(rng, rng.randrange(40))}
    if x < .5:
        return {"c": "dec", "kind": k, "t": TYPES[k] if rng.random() < .95 else rng.randrange(256), "b": damage(rng, k, enc(k, v))}
    if x < .75:
        return {"c": "enc", "kind": k, "v": v}
    if x < .8:
        v = rvals(rng, "Startup")
        n = rng.choice(v["ps"])["n"] if v["ps"] and rng.random() < .7 else rstr(rng, rng.randrange(4))
        return {"c": "param", "ps": v["ps"] + [{"n": n, "v": rstr(rng, 3)}] * rng.randrange(2), "n": n}
    return {"c": "msg", "t": TYPES[k] if rng.random() < .9 else rng.randrange(256), "b": damage(rng, k, enc(k, v))}


def codec_groups(rng, n, res=False):
    tl = gen_scripts("CodecGen", "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", max(4, n // 100), 55, shards=4, salt=rng.randrange(1000))
    cases = tl + [random_case(rng) for _ in range(n)]
    rng.shuffle(cases)
    out = []
    while cases:
        k = rng.choice([1, 2, 4, 8, 12])
        out.append({"kind": "codec", "conc": not res and rng.random() < .5, "res": res, "cases": cases[:k]})
        cases = cases[k:]
    return out


# counts and lengths that promise far more than there is
def greedy(rng):
    out = []
    for n in I16:
        for k, tail in (("DataRow", []), ("DataRow", e32(-1)), ("RowDescription", []), ("RowDescription", [65, 0] + [0] * 18)):
            out.append((k, e16(n) + tail))
    for n in I32:
        out.append(("NegotiateVersion", e32(0) + e32(n)))
        out.append(("NegotiateVersion", e32(0) + e32(n) + [65, 0]))
        out.append(("DataRow", e16(1) + e32(n)))
        out.append(("DataRow", e16(2) + e32(n) + [1, 2, 3]))
        out.append(("Auth", e32(n)))
        out.append(("Startup", e32(n)))
    out = [{"c": c, "kind": k, "t": TYPES[k], "b": b} for k, b in out for c in ("dec", "msg") if c == "dec" or k != "Startup"]
    return [{"kind": "codec", "conc": False, "res": True, "cases": out[i:i + 4]} for i in range(0, len(out), 4)]


def framing_groups(rng, n):
    sc = gen_scripts("FramingGen", framing_gen_cfg(), max(4, n // 80), 45, shards=4, salt=rng.randrange(1000))
    for _ in range(n // 2):
        sc.append(random_stream(rng))
    rng.shuffle(sc)
    out = []
    while sc:
        k = rng.choice([1, 2, 4, 6])
        out.append({"kind": "framing", "conc": rng.random() < .6, "seed": rng.getrandbits(31), "scripts": sc[:k]})
        sc = sc[k:]
    return out


def framing_gen_cfg():
    return "SPECIFICATION GSpec\nCONSTANTS Alphabet = {0} MaxLen = 0 Hist = TRUE\nCalls <- NoCalls\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def random_stream(rng):
    """Packets of all sizes around the readers' buffer sizes."""
    sizes = [0, 1, 3, 200, 246, 247, 248, 251, 252, 253, 255, 256, 257, 500, 503, 504, 506, 507, 508, 509, 511, 512, 513, 516, 600, 760, 1019, 1024, 1100, 1535, 1600]
    calls, s = [], []
    for _ in range(rng.randrange(1, 5)):
        w = rng.choice(["std", "std", "start"])
        n = rng.choice(sizes) if rng.random() < .6 else rng.randrange(40)
        calls.append(w)
        s += ([rng.randrange(256)] if w == "std" else []) + e32(n + 4) + rbytes(rng, n)
    if rng.random() < .3:
        s = s[:rng.randrange(len(s) + 1)]
    return {"stream": s, "calls": calls, "style": rng.choice(["all", "all", "half", "few", "mix", "mix", "zero"]), "eof": rng.choice(["after", "with", "broken"])}


def hungry(rng):
    """Lengths that promise gigabytes."""
    out = []
    for n in [2**20, 2**24, 2**26, 2**28, 2**30, 2**31 - 1, -1, -2**31, 3, 0]:
        for w in ("std", "start", "cmsg", "cstart"):
            for have in (0, 3, 600):
                out.append({"stream": ([81] if w in ("std", "cmsg") else []) + e32(n) + rbytes(rng, have), "calls": [w], "style": "all", "eof": "after"})
    return [{"kind": "framing", "conc": False, "res": True, "seed": 1, "scripts": out[i:i + 4]} for i in range(0, len(out), 4)]


def buffer_cfg(hist, maxops, bs="{0, 1, 65, 127, 128, 255}", i32=None, i16=None):
    return ("SPECIFICATION %s\nCONSTANTS MaxOps = %d Hist = %s Bytes = %s\n" % ("GSpec" if hist else "DSpec", maxops, str(hist).upper(), bs)
            + "Ints32 <- %s\nInts16 <- %s\n" % (i32 or "AllInts32", i16 or "AllInts16")
            + "INVARIANT %s\nCHECK_DEADLOCK FALSE\n" % ("Emit" if hist else "Mirror"))


def buffer_groups(rng, n):
    sc = []
    for mo in (6, 12, 24):
        sc += gen_scripts("BufferGen", buffer_cfg(True, mo), n // 3, mo + 3, shards=3, salt=rng.randrange(1000))
    for s in sc:
        for o in s["ops"]:
            if o["w"] == 0 and o["op"] in ("bytes", "int32s", "int16s") and rng.random() < .08:
                o["kk"] = str(rng.choice([2**62, 2**61, 2**63 - 1, -2**63, 2**62 + 1, 2**31, 2**32, -2**62, 2**30, -2**31 - 1, 2**32 + 1, 2**63 - 4]))
            elif o["w"] == 1 and rng.random() < .1:
                k = o["op"]
                if k == "bytes":
                    o["v"] = rbytes(rng, rng.choice(EDGE))
                elif k == "string":
                    o["v"] = rstr(rng, rng.choice(EDGE))
                elif k == "int32s":
                    o["v"] = [rng.choice(I32) for _ in range(rng.choice([7, 31, 64, 65]))]
                elif k == "int16s":
                    o["v"] = [rng.choice(I16) for _ in range(rng.choice([7, 31, 64, 65]))]
    rng.shuffle(sc)
    out = []
    while sc:
        k = rng.choice([1, 3, 6])
        out.append({"kind": "buffer", "conc": rng.random() < .5, "scripts": sc[:k]})
        sc = sc[k:]
    return out


def dsn_groups(rng, n):
    us = [s["u"] for s in gen_scripts("DsnGen", "SPECIFICATION GSpec\nCONSTANTS Hist = TRUE\nVals_ <- Few\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", n // 40, 45, shards=4, salt=rng.randrange(1000))]
    rng.shuffle(us)
    out = []
    while us:
        k = rng.choice([1, 2, 4, 8])
        out.append({"kind": "dsn", "conc": rng.random() < .5, "urls": us[:k]})
        us = us[k:]
    return out


# ---------------------------------------------------------------- verdicts

SPECS = {"codec": "CodecTrace", "framing": "FramingTrace", "buffer": "BufferTrace", "dsn": "DsnTrace"}


def trace_cfg(kind, on):
    return ("SPECIFICATION TSpec\n" + ("" if kind in ("buffer", "dsn") else "CONSTANTS On = {%s}\n" % ", ".join('"%s"' % x for x in on))
            + "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")


def sig(ev):
    if ev["e"] in ("dec", "enc"):
        return "%s:%s:%s" % (ev["e"], ev["kind"], ev["r"])
    if ev["e"] == "msg":
        return "msg:%s:%s" % (ev["f"][0], ev["r"])
    if ev["e"] == "Parse":
        return "Parse:" + ev["r"] + ":" + bytes(ev["u"]).decode("latin-1").encode("unicode_escape").decode().replace(" ", "_")
    if ev["e"] in ("Read", "Write"):
        return "%s:%s" % (ev["e"], ev.get("op", ""))
    return ev["e"] + (":" + ev["what"] if "what" in ev else "")


def explore(chk, on, groups, fbin):
    for i, g in enumerate(groups):
        g["id"] = i
    res = run_wire(fbin.result(), groups)
    by = {}
    for g in groups:
        if g["id"] not in res:
            raise CheckError("a group was not run")
        for j, t in enumerate(res[g["id"]]):
            t = dict(t)
            if g["kind"] == "framing":
                t["stream"] = g["scripts"][j]["stream"]
            else:
                t.pop("stream", None)
            t["run"] = (g, j)
            by.setdefault(g["kind"], []).append(t)
    strip = lambda t: {k: v for k, v in t.items() if k != "run"}
    for kind, ts in by.items():
        uniq = dedupe(ts, strip)
        rej, states = validate(SPECS[kind], trace_cfg(kind, on), [strip(t) for t in uniq])
        chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq), evaluations=sum(len(t["ev"]) for t in ts),
                distinct_nontrivial=sum(1 for t in uniq if t["ev"]))
        for i, l in sorted(rej.items()):
            t = uniq[i]
            ev = t["ev"][l - 1]
            g, j = t["run"]
            chk.violation(sig(ev), "event %d is not what the specification %s says: %s" % (l, SPECS[kind], json.dumps(ev)),
                          {"group": g, "trace": j, "accepted": l - 1, "event": ev})
        if len(chk.cov["samples"]) < 3 and uniq:
            chk.cov["samples"].append({"kind": kind, "events": min(uniq, key=lambda t: abs(len(t["ev"]) - 6))["ev"][:6]})


def designs(prop):
    if prop == "C08":
        a = "{0, 1, 65, 255}"
        n = 5 if TIER == "quick" else 7
        return [("CodecDesign", "SPECIFICATION DSpec\nCONSTANTS Alphabet = %s MaxLen = %d\nINVARIANTS RoundTrip Shorter Ints BigInts TypesDiffer\nCHECK_DEADLOCK FALSE\n" % (a, n), {"Alphabet": a, "MaxLen": n})]
    if prop == "C07":
        out = []
        for calls in ("TwoStd", "StartStd"):
            n = 12 if TIER == "quick" else 14
            out.append(("FramingGen", "SPECIFICATION DSpec\nCONSTANTS Alphabet = {0, 5} MaxLen = %d Hist = FALSE\nCalls <- %s\nINVARIANT SameWhateverTheCuts NothingTwice\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % (n, calls), {"Calls": calls, "MaxLen": n}))
        return out
    if prop == "C22":
        n = 3 if TIER == "quick" else 4
        return [("BufferGen", buffer_cfg(False, n, "{0, 255}", "FewInts32", "FewInts16"), {"MaxOps": n})]
    if prop == "C19":
        v = "Few" if TIER == "quick" else "More"
        return [("DsnGen", "SPECIFICATION DSpec\nCONSTANTS Hist = FALSE\nVals_ <- %s\nINVARIANT Means\nCHECK_DEADLOCK FALSE\n" % v, {"Vals_": v})]
    return []


FLOODS = [("ssl", 120000), ("relay", 30000)]


def add(chk, ex):
    """The part of C09 that needs no schedule: what is allocated, and what makes the process die."""
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + 9)
    fbin = ex.submit(build_wire)
    end = time.time() + (0 if quick else 200)
    while True:
        gs = greedy(rng) + hungry(rng) + codec_groups(rng, 1500 if quick else 6000, res=True)
        fl = [{"kind": "codec", "conc": False, "res": True, "cases": [{"c": c, "num": n * (1 if quick else 3)}]} for c, n in FLOODS]
        explore(chk, ["res"], fl + gs, fbin)
        if quick or chk.viol or time.time() > end:
            break


def check(prop):
    from report import Check
    chk = Check(prop)
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    with cf.ThreadPoolExecutor(4) as ex:
        fbin = ex.submit(build_wire)
        fd = [ex.submit(design, chk, *d) for d in designs(prop)]
        end = T0 + (0 if quick else 600)
        while True:
            if prop == "C08":
                explore(chk, ["codec"], codec_groups(rng, 8000 if quick else 20000), fbin)
            elif prop == "C07":
                explore(chk, ["framing"], framing_groups(rng, 2400 if quick else 8000), fbin)
            elif prop == "C22":
                explore(chk, [], buffer_groups(rng, 1500 if quick else 5000), fbin)
            elif prop == "C19":
                explore(chk, [], dsn_groups(rng, 8000 if quick else 20000), fbin)
            if quick or chk.viol or time.time() > end:
                break
        for f in fd:
            f.result()
    chk.cov["rule"] = RULE
    chk.assume = ASSUME
    return chk.finish()
