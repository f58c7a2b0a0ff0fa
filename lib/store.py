"""C13, C14, C15: ConfigStore.tla."""
from core import *
import simcheck


class Store(simcheck.Kind):
    name, gen, trace = "store", "ConfigStoreGen", "ConfigStoreTrace"

    def consts(self, kw, hist):
        d = dict(th=3, ch=3, ls=["a", "b"], ds=["x", "y"], maxcfg=6, maxops=20, stalls=True, closes=True, shared=False)
        d.update(kw)
        return ('CONSTANTS Th = {%s} Ch = {%s} On = {"sub", "get", "live"} Ls = {%s} Ds = {%s} MaxCfg = %d MaxOps = %d Hist = %s '
                'Stalls = %s Closes = %s Shared = %s PredLists <- %s\n' % (
                    ", ".join(map(str, range(1, d["th"] + 1))), ", ".join(map(str, range(1, d["ch"] + 1))),
                    ", ".join('"%s"' % x for x in d["ls"]), ", ".join('"%s"' % x for x in d["ds"]), d["maxcfg"], d["maxops"],
                    str(hist).upper(), str(d["stalls"]).upper(), str(d["closes"]).upper(),
                    str(d["shared"]).upper(), d.get("pl", "AllPreds")))

    def gen_cfg(self, kw):
        return "SPECIFICATION GSpec\n" + self.consts(kw, True) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"

    def design_cfg(self, kw):
        return "SPECIFICATION FairSpec\n" + self.consts(kw, False) + "INVARIANT Ordered Bounded\nPROPERTY Monotone Rests\nCHECK_DEADLOCK FALSE\n"

    def trace_cfg(self, on, kws):
        return ("SPECIFICATION TSpec\nCONSTANTS Th = {1, 2, 3, 4} Ch = {1, 2, 3} On = {%s}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
                % ", ".join('"%s"' % x for x in on))

    def trace_of(self, run):
        # the predicates of a subscriber tell which configuration it starts from
        ev = [dict(e) for e in run["ev"]]
        calls = {}
        for e in ev:
            if e["e"] == "SubCall":
                e["hint"] = 0
                calls[e["t"]] = e
            elif e["e"] == "Pred" and e["old"] == 0 and e["new"] > 1:
                mine = [x for x in calls.values() if x["c"] == e["c"]]
                if len(mine) == 1:  # of two at a time the predicates do not tell which one they belong to
                    mine[0]["hint"] = e["new"]
            elif e["e"] == "SubRet":
                calls.pop(e["t"], None)
        return {"ev": ev}

    def nontrivial(self, t):
        k = {e["e"] for e in t["ev"]}
        return "Pushed" in k and ("Recv" in k or "GetRet" in k)


P = [(3, dict(maxops=18), {}), (3, dict(maxops=18, stalls=False), {}), (2, dict(maxops=26, closes=False), {}),
     (2, dict(th=4, ch=2, maxops=20, closes=False, stalls=False, maxcfg=10), {}),
     (2, dict(th=2, ch=1, maxops=12), {}), (2, dict(th=3, ch=1, maxops=9, shared=True, ls=["a"], ds=["x"]), {"gap": 0}),
     (2, dict(th=3, ch=1, maxops=14, shared=True, stalls=False, closes=False, maxcfg=10), {"gap": 0})]
PG = [(3, dict(th=4, ch=1, maxops=16, stalls=False), {}), (2, dict(th=4, ch=2, maxops=18, stalls=False, closes=False), {}), (1, dict(maxops=18), {})]
DES = dict(th=2, ch=1, ls=["a", "b"], ds=["x"], maxcfg=2, maxops=5, pl="FewPreds")
PARTS = ["wait", "order", "recheck", "hold", "select", "outside", "own", "again"]
# StoreImpl, the algorithm of the store, implements ConfigStore; without any of these parts it does not
IMPL = {"C13": (dict(ops=3), [("wait", 3, 2), ("hold", 3, 2), ("own", 3, 2), ("again", 3, 2), ("order", 4, 1)]),
        "C14": (dict(ops=3, th=3), [("recheck", 3, 2)]),
        "C15": (dict(ops=3, ch=2), [("select", 4, 1), ("outside", 4, 1)])}


def store_design(prop):
    import re

    def cfg(ops, maxcfg, off=None, th=2, ch=1):
        return ("SPECIFICATION Spec\nCONSTANTS Th = {%s} Ch = {%s} On = {\"sub\", \"get\", \"live\"} Ls = {\"a\", \"b\"} Ds = {\"x\"} MaxCfg = %d "
                "MaxOps = %d Closes = TRUE Stalls = TRUE PredLists <- FewPreds Parts = {%s}\nINVARIANT Allowed AtRest Sane\nCHECK_DEADLOCK FALSE\n"
                % (", ".join(map(str, range(1, th + 1))), ", ".join(map(str, range(1, ch + 1))), maxcfg, ops,
                   ", ".join('"%s"' % x for x in PARTS if x != off)))
    des, mutants = IMPL[prop]
    des = dict(des, maxcfg=2)
    if TIER != "quick" and prop != "C14":
        des = dict(ops=4, maxcfg=2)
    rc, text = tlc("StoreImpl", cfg(**des), 1500, workers=3, heap="6g")
    if "No error has been found" not in text:
        raise CheckError("the design of the store does not implement ConfigStore\n" + text[-4000:])
    outs = pmap(lambda m: tlc("StoreImpl", cfg(m[1], m[2], m[0]), 600, workers=2, check=False), mutants, 3)
    for (off, _, _), (rc, bad) in zip(mutants, outs):
        if not re.search(r"(is|was|were) violated", bad):
            raise CheckError("ConfigStore does not need " + off + " of StoreImpl\n" + bad[-2000:])
    g, d = tlc_stats(text)
    return g, d, dict(des, StoreImpl=True, needs=[m[0] for m in mutants])


RULE = ("one case = one script generated by TLC from ConfigStore.tla, run on the real store under one schedule; distinct = distinct recorded "
        "histories; non-trivial = a configuration was taken and read or received")


def check(prop):
    from report import Check
    import concurrent.futures as cf
    chk = Check(prop)
    on, profs = {"C13": (["sub"], P), "C14": (["get"], PG), "C15": (["live"], P)}[prop]
    with cf.ThreadPoolExecutor(4) as ex:
        fbin = ex.submit(build_sim)
        fimpl = ex.submit(store_design, prop)
        simcheck.explore(chk, Store(), on, profs, DES, fbin, ex=ex)
        g, d, inst = fimpl.result()
        chk.add(states=d, transitions=g, design_distinct_states=d)
        chk.cov.setdefault("design_instances", []).append(inst)
    chk.cov["rule"] = RULE
    chk.assume = simcheck.ASSUME
    return chk.finish()
