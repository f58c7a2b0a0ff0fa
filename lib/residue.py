"""C23: Residue.tla."""
from core import *
import simcheck

KINDS = ["silent", "cut", "early", "refused", "garbage", "nodb", "ssl", "served", "half", "reset", "bye", "rst", "flood", "junk", "terminate",
         "slow", "slowno", "rude", "mute", "blurt"]
THINGS = ["client", "db", "listener", "server", "config", "sub", "go", "memory"]


class Residue(simcheck.Kind):
    name, gen, trace = "residue", "ResidueGen", "ResidueTrace"

    def consts(self, kw, hist, leaks=()):
        d = dict(kinds=KINDS, n=14, maxops=14)
        d.update(kw)
        return "CONSTANTS Slack = 5 Kinds = {%s} N = %d MaxOps = %d Hist = %s Leaks = {%s}\n" % (
            ", ".join('"%s"' % x for x in d["kinds"]), d["n"], d["maxops"], str(hist).upper(), ", ".join('"%s"' % x for x in leaks))

    def gen_cfg(self, kw):
        return "SPECIFICATION GSpec\n" + self.consts(kw, True) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"

    def design_cfg(self, kw, leaks=()):
        return "SPECIFICATION GSpec\n" + self.consts(kw, False, leaks) + "INVARIANT Within\nCHECK_DEADLOCK FALSE\n"

    def trace_cfg(self, on, kws):
        return "SPECIFICATION TSpec\nCONSTANTS Slack = 5\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def depth(self, kw):
        return kw["maxops"] * 12

    def nontrivial(self, t):
        return sum(1 for e in t["ev"] if e["e"] == "Measure") > 1 and any(e["e"] in ("Visit", "Leave", "Unsub", "Servers") for e in t["ev"])

    def trace_of(self, run):
        ev = [e for e in run["ev"] if e["e"] != "Init"]
        # goroutines and memory are counted from the first count of the run
        g, b = next(((e["g"], e["b"]) for e in ev if e["e"] == "Measure"), (0, 0))
        return {"ev": [dict(e, g=e["g"] - g, b=(e["b"] - b) >> 16) if e["e"] == "Measure" else e for e in ev]}


K = Residue()
PROFS = [(3, dict(maxops=14), {}), (2, dict(maxops=9), {}), (1, dict(maxops=22), {}), (1, dict(maxops=12, n=70), {})]
DES = dict(kinds=["served"], n=7, maxops=6)


def counting(chk):
    """The counts find whatever is kept: with any one kind of thing kept the design is out of bounds."""
    outs = pmap(lambda th: tlc("ResidueGen", K.design_cfg(DES, [th]), 300, workers=1, check=False), THINGS, 4)
    for th, (rc, text) in zip(THINGS, outs):
        if "Invariant Within is violated" not in text:
            raise CheckError("Residue does not notice that things are kept: " + th + "\n" + text[-1500:])
    chk.cov.setdefault("design_instances", []).append({"ResidueGen": "out of bounds when any of these is kept: " + ", ".join(THINGS)})


def check(prop):
    from report import Check
    import concurrent.futures as cf
    chk = Check(prop)
    with cf.ThreadPoolExecutor(4) as ex:
        fbin = ex.submit(build_sim)
        fc = ex.submit(counting, chk)
        simcheck.explore(chk, K, [], PROFS, DES, fbin, ex=ex, nscripts=400, nseeds=6, budget=20, end=500)
        fc.result()
    chk.cov["rule"] = ("one case = one script generated by TLC from Residue.tla, run on the real code under one schedule; distinct = distinct "
                       "recorded histories of counts; non-trivial = something came and went between two counts")
    chk.assume = simcheck.ASSUME + ["what is kept is what the garbage collector finds reachable, and running goroutines; memory is measured in units of 64 kB",
                                    "up to %d things of a kind may be kept whatever has happened" % 5]
    return chk.finish()
