"""C11, C12 and part of C10: Server.tla."""
from core import *
import simcheck

ALL = ["push", "avail", "start", "serve", "close", "serveconn", "sess", "dist"]


class Life(simcheck.Kind):
    name, gen, trace = "life", "ServerGen", "ServerTrace"

    def consts(self, kw, hist):
        d = dict(th=8, ss=5, As=["a", "b", "c"], maxcfg=6, maxping=4, maxops=20, ops=ALL)
        d.update(kw)
        return ('CONSTANTS Th = {%s} Ss = {%s} On = {"addr", "life", "rel"} As = {%s} MaxCfg = %d MaxPing = %d MaxOps = %d Hist = %s Ops = {%s}\n' % (
            ", ".join(map(str, range(1, d["th"] + 1))), ", ".join(map(str, range(1, d["ss"] + 1))), ", ".join('"%s"' % x for x in d["As"]),
            d["maxcfg"], d["maxping"], d["maxops"], str(hist).upper(), ", ".join('"%s"' % x for x in d["ops"])))

    def gen_cfg(self, kw):
        return "SPECIFICATION GSpec\n" + self.consts(kw, True) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"

    def design_cfg(self, kw):
        return "SPECIFICATION FairSpec\n" + self.consts(kw, False) + "INVARIANT Sane\nPROPERTY Final Rests\nCHECK_DEADLOCK FALSE\n"

    def trace_cfg(self, on, kws):
        return ("SPECIFICATION TSpec\nCONSTANTS Th = {%s} Ss = {%s} On = {%s}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
                % (", ".join(map(str, range(1, 14))), ", ".join(map(str, range(1, 9))), ", ".join('"%s"' % x for x in on)))

    def nontrivial(self, t):
        k = {e["e"] for e in t["ev"]}
        return len(t["ev"]) > 8 and bool(k & {"Listen", "DStart", "Ret"})

    def signature(self, ev, t, l):
        s = super().signature(ev, t, l)
        return s + ":" + ev["op"] + ":" + ev["r"] if ev["e"] == "Ret" else s


class Event(simcheck.Kind):
    name, gen, trace = "event", "OneTimeEventGen", "OneTimeEventTrace"

    def consts(self, kw, hist):
        return "CONSTANTS Th = {%s} MaxOps = %d Hist = %s\n" % (", ".join(map(str, range(1, kw["th"] + 1))), kw["maxops"], str(hist).upper())

    def gen_cfg(self, kw):
        return "SPECIFICATION GSpec\n" + self.consts(kw, True) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"

    def design_cfg(self, kw):
        return "SPECIFICATION FairSpec\n" + self.consts(kw, False) + "INVARIANT Once\nPROPERTY Final Rests\nCHECK_DEADLOCK FALSE\n"

    def trace_cfg(self, on, kws):
        return "SPECIFICATION TSpec\nCONSTANTS Th = {1, 2, 3, 4, 5}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def nontrivial(self, t):
        return sum(1 for e in t["ev"] if e["e"] == "Call" and e["op"] == "fire") > 1


MIX = [(2, dict(maxops=22), {}), (1, dict(maxops=22, As=["c", "d", "e"]), {}),
       (2, dict(maxops=16, ops=["start", "serve", "close", "serveconn", "sess", "push"]), {}),
       (2, dict(maxops=12, ops=["start", "close", "push", "serve"]), {})]
ADDR = [(3, dict(maxops=20, maxcfg=10, ops=["push", "avail", "start"]), {}),
        (3, dict(maxops=24, maxcfg=12, As=["a", "b"], ops=["push", "avail", "start"]), {}),
        (3, dict(maxops=24, maxcfg=10, As=["d", "e"], ops=["push", "avail", "start"]), {}),
        (2, dict(maxops=24, maxcfg=10, As=["a", "d", "e"], ops=["push", "avail", "start"]), {}),
        (2, dict(maxops=24, maxcfg=8, ops=["push", "avail", "start", "serve"]), {}),
        (1, dict(maxops=22), {})]
DES = dict(th=2, ss=1, As=["a", "b"], maxcfg=2, maxping=1, maxops=5, ops=ALL)
PROFILES = {"C11": (["life"], MIX), "C12": (["addr"], ADDR), "C10": (["rel"], MIX)}
RULE = ("one case = one script generated by TLC from Server.tla, run on the real server under one schedule; distinct = distinct recorded "
        "executions; non-trivial = something was bound, served or returned")


# The algorithm of the server (ServerImpl) implements Server; the decisions it depends on are each needed.
SPARTS = ["once", "look", "reg", "old", "turn", "first", "rest", "goon"]
IMPL = {"C11": (dict(n=4, ops=["push", "start", "serve", "close", "serveconn"]), [("once", 3), ("look", 3), ("reg", 3), ("first", 3)]),
        "C12": (dict(n=4, ops=["push", "start", "serve", "avail"]), [("old", 3), ("turn", 3), ("goon", 4)]),
        "C10": (dict(n=3, ops=["push", "start", "serve", "close", "serveconn", "dist"]), [("rest", 3)])}
EVERY = ["push", "start", "serve", "close", "serveconn", "avail", "dist"]


def server_design(chk):
    def cfg(n, ops, off=None):
        return ("SPECIFICATION Spec\nCONSTANTS Th = {1, 2, 3} Ss = {1} On = {\"addr\", \"life\", \"rel\"} As = {\"a\", \"b\"} MaxCfg = 2 MaxOps = %d "
                "MaxPing = 1 Ops = {%s} Parts = {%s}\nINVARIANT Allowed AtRest %s\nCHECK_DEADLOCK FALSE\n"
                % (n, ", ".join('"%s"' % x for x in ops), ", ".join('"%s"' % x for x in SPARTS if x != off), "" if off else "Sane"))
    des, mutants = IMPL[chk.prop]
    if TIER != "quick":
        des = dict(n=5, ops=EVERY)
    rc, text = tlc("ServerImpl", cfg(**des), 800, workers=3, heap="6g")
    if "No error has been found" not in text:
        raise CheckError("the design of the server does not implement Server\n" + text[-4000:])
    outs = pmap(lambda m: tlc("ServerImpl", cfg(m[1], EVERY, m[0]), 600, workers=2, check=False), mutants, 3)
    for (off, _), (rc, bad) in zip(mutants, outs):
        if "is violated" not in bad:
            raise CheckError("Server does not need " + off + " of ServerImpl\n" + bad[-2000:])
    g, d = tlc_stats(text)
    return g, d, dict(des, needs=[m[0] for m in mutants])


def add(chk, fbin, ex, **kw):
    fimpl = ex.submit(server_design, chk)
    on, profs = PROFILES[chk.prop]
    simcheck.explore(chk, Life(), on, profs, DES, fbin, ex=ex, **kw)
    g, d, what = fimpl.result()
    chk.add(states=d, transitions=g, design_distinct_states=d)
    chk.cov.setdefault("design_instances", []).append({"ServerImpl": what})


def check(prop):
    from report import Check
    import concurrent.futures as cf
    chk = Check(prop)
    with cf.ThreadPoolExecutor(3) as ex:
        fbin = ex.submit(build_sim)
        add(chk, fbin, ex)
        if prop == "C11":
            simcheck.explore(chk, Event(), [], [(1, dict(th=4, maxops=10), {}), (1, dict(th=3, maxops=6), {}), (1, dict(th=2, maxops=4), {})],
                             dict(th=3, maxops=6), fbin, salt=1, nscripts=300, nseeds=20, budget=2, end=5, ex=ex)
    chk.cov["rule"] = RULE
    chk.assume = simcheck.ASSUME
    return chk.finish()
