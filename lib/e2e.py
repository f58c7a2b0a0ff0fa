"""C18, C21: the built program with its configuration files and command lines (Reload.tla, Cli.tla)."""
import json, random
import concurrent.futures as cf
from core import *

RULE = {"C18": "one case = one history of the configuration file generated by TLC, run on the built program; distinct = distinct recorded executions; "
               "non-trivial = a later content came into force",
        "C21": "one case = one list of arguments with the states of the configuration files, generated by TLC; distinct = distinct cases with their recorded outcomes; "
               "non-trivial = with arguments"}
ASSUME = {"C18": ["real files, inotify and loopback sockets; real time: what must happen is waited for up to 20 s",
                  "saves begin after the program listens for the first time; several hard-linked or remounted directories are not explored"],
          "C21": ["the outcome of the server is that of a stand-in, given to the command line as the existing tests do; the built program is run as well",
                  "arguments given twice, and forms kingpin understands beyond the documented ones, are not specified"]}
CGEN = "SPECIFICATION GSpec\nCONSTANTS Hist = TRUE\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
CTRACE = "SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
RGEN = "SPECIFICATION GSpec\nCONSTANTS Busy = 4 Hist = TRUE MaxSaves = 0 MaxOpens = 0\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
RTRACE = "SPECIFICATION TSpec\nCONSTANTS Busy = 4\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def expect_ok(module, cfg, chk, name, timeout=800, workers=3, heap="5g"):
    rc, text = tlc(module, cfg, timeout, workers=workers, heap=heap, check=False)
    if rc != 0 or "No error has been found" not in text:
        raise CheckError("the design %s does not satisfy its own properties\n%s" % (module, text[-4000:]))
    g, d = tlc_stats(text)
    chk.add(states=d, transitions=g, design_distinct_states=d)
    chk.cov.setdefault("design_instances", []).append({module: name})


def build():
    d = harness_copy()
    t, b = os.path.join(scratch(), "e2e.test"), os.path.join(scratch(), "gevulot")
    run([GO, "test", "-c", "-o", t, "./e2e"], 600, env=goenv(), cwd=d)
    x = "github.com/hired/gevulot/pkg/cli."
    run([GO, "build", "-o", b, "-ldflags", "-X %sversion=1.2.3-vv -X %scommitHash=c0ffee42 -X %sbuildDate=2001-02-03T04:05:06" % (x, x, x), "."], 600,
        env=goenv(GOFLAGS="-mod=readonly"), cwd=REPO)
    log("built the program and the harness")
    return t, b


def build_stub():
    """The command line of the current tree with a server that only notes what it is given."""
    ov = os.path.join(scratch(), "cli-overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "pkg/cli/zz_verif_test.go"): os.path.join(HARNESS, "overlay/cli/cli_verif_test.go")}}, open(ov, "w"))
    b = os.path.join(scratch(), "cli.test")
    x = "github.com/hired/gevulot/pkg/cli."
    run([GO, "test", "-c", "-overlay", ov, "-o", b, "-ldflags", "-X %sversion=1.2.3-vv -X %scommitHash=c0ffee42 -X %sbuildDate=2001-02-03T04:05:06" % (x, x, x), "./pkg/cli"], 600,
        env=goenv(GOFLAGS="-mod=readonly"), cwd=REPO)
    return b


def run_e2e(bins, scripts, budget, par=12, slow=20, stub=""):
    fin, fout, fd = (os.path.join(scratch(), x) for x in ("e2e-in", "e2e-out", "e2e-dir"))
    os.makedirs(fd, exist_ok=True)
    with open(fin, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    if os.path.exists(fout):
        os.unlink(fout)
    rc, text = run(limited([bins[0], "-test.run", "^TestE2E$", "-test.timeout", "0"], 16), budget + 240, check=False, cwd=scratch(),
                   env=goenv(E2E_IN=fin, E2E_OUT=fout, E2E_DIR=fd, E2E_BIN=bins[1], E2E_PAR=par, E2E_BUDGET=budget, E2E_SLOW=slow, E2E_STUB=stub))
    out, done = {}, False
    if os.path.exists(fout):
        for line in open(fout):
            o = json.loads(line)
            if "X" in o:
                done = True
            else:
                out[o["id"]] = o
    if rc != 0 or not done:
        raise CheckError("the harness failed (exit %s)\n%s" % (rc, text[-4000:]))
    return out


def reload_design(chk):
    def watcher(flags, ops, qmax, good):
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxOps = %d QMax = %d WatchDir = %s WatchAgain = %s WatchGone = %s OnError = %s Link = %s\n"
               "INVARIANT OnlyValid UpToDate\nPROPERTY Forward Rests Refines\nCHECK_DEADLOCK FALSE\n") % ((ops, qmax) + flags)
        if good:
            return expect_ok("Watcher", cfg, chk, {"MaxOps": ops, "QMax": qmax, "Link": flags[4]})
        rc, text = tlc("Watcher", cfg, 300, workers=2, check=False)
        if not re.search(r"is violated|was violated|were violated", text):
            raise CheckError("Watcher is not sensitive to " + str(flags) + text[-2000:])
    q = TIER == "quick"
    T, F = "TRUE", "FALSE"
    watcher((T, T, T, T, F), 4 if q else 5, 3, True)
    watcher((T, T, T, T, T), 3 if q else 5, 3, True)
    watcher((F, T, T, T, F), 3, 2, False)
    watcher((T, T, T, F, F), 3, 2, False)
    watcher((T, F, T, T, T), 3, 2, False)
    watcher((T, T, F, T, T), 3, 2, False)
    n, o = (3, 1) if TIER == "quick" else (4, 1)
    expect_ok("ReloadGen", "SPECIFICATION DSpec\nCONSTANTS Busy = 4 Hist = FALSE MaxSaves = %d MaxOpens = %d\nINVARIANT OnlyValid Exact\n"
              "PROPERTY Settles Steady Listens\nCHECK_DEADLOCK FALSE\n" % (n, o), chk, {"MaxSaves": n, "MaxOpens": o})


def check_reload(chk):
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + 18)
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build)
        fd = ex.submit(reload_design, chk)
        end = T0 + (0 if quick else 480)
        base = rng.randrange(1000000)
        while True:
            n = 600 if quick else 3000
            sc = gen_scripts("ReloadGen", RGEN, n, 25, shards=4, salt=rng.randrange(1000))
            rng.shuffle(sc)
            for i, s in enumerate(sc):
                base += 1
                s.update(id=i, n=base, seed=rng.getrandbits(31), kind="reload")
            res = run_e2e(fb.result(), sc, 28 if quick else 240)
            ts = [{"c0": s["c0"], "ev": res[s["id"]]["ev"], "script": s, "log": res[s["id"]]["log"]} for s in sc if s["id"] in res]
            strip = lambda t: {"c0": t["c0"], "ev": t["ev"]}
            uniq = dedupe(ts, strip)
            rej, states = validate("ReloadTrace", RTRACE, [strip(t) for t in uniq])
            chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq), evaluations=len(ts), scripts=len(ts),
                    saves=sum(1 for t in ts for e in t["ev"] if e["e"] == "Save"),
                    distinct_nontrivial=sum(1 for t in uniq if len({e["d"] for e in t["ev"] if e["e"] == "OpenRet"}) > 2))
            for i, l in sorted(rej.items()):
                t = uniq[i]
                ev = t["ev"][l - 1]
                last = [e["e"] for e in t["ev"][:l] if e["e"] in ("Save", "Remove", "Deadline")][-1:]
                chk.violation("%s:%s" % (ev["e"], "".join(last)), "event %d of the recorded execution is not a behaviour of Reload: %s" % (l, json.dumps(ev)[:800]),
                              {"script": t["script"], "accepted": l - 1, "trace": t["ev"][:l + 2], "log": t["log"]})
            if not chk.cov["samples"] and uniq:
                t = sorted(uniq, key=lambda t: abs(len(t["ev"]) - 60))[0]
                chk.cov["samples"] = [{"c0": t["c0"], "trace": t["ev"]}]
            if quick or chk.viol or time.time() > end:
                break
        fd.result()


def check_cli(chk):
    quick = TIER == "quick"
    rng = random.Random(SEED * 7919 + 21)
    with cf.ThreadPoolExecutor(3) as ex:
        fb, fs = ex.submit(build), ex.submit(build_stub)
        fd = ex.submit(expect_ok, "CliGen", "SPECIFICATION DSpec\nCONSTANTS Hist = FALSE\nINVARIANT Quiet Codes\nPROPERTY Ends_\nCHECK_DEADLOCK FALSE\n", chk,
                       "all lists of up to 3 distinct arguments, 6 states of 2 files")
        end = T0 + (0 if quick else 300)
        base = rng.randrange(1000000)
        while True:
            sc = gen_scripts("CliGen", CGEN, 72 if quick else 400, 42, shards=4, salt=rng.randrange(1000))
            rng.shuffle(sc)
            for i, s in enumerate(sc):
                base += 1
                s.update(id=i, n=base, seed=rng.getrandbits(31), kind="cli", stub=rng.random() < 0.6)
            res = run_e2e(fb.result(), sc, 30 if quick else 200, stub=fs.result())
            ts = [{"args": s["args"], "files": s["files"], "ev": res[s["id"]]["ev"], "script": s, "run": res[s["id"]]} for s in sc if s["id"] in res]
            strip = lambda t: {"args": t["args"], "files": t["files"], "ev": t["ev"]}
            uniq = dedupe(ts, strip)
            rej, states = validate("CliTrace", CTRACE, [strip(t) for t in uniq])
            chk.add(traces_validated_against_impl=len(uniq), states=states, transitions=sum(len(t["ev"]) for t in uniq), evaluations=len(ts), scripts=len(ts),
                    distinct_nontrivial=sum(1 for t in uniq if t["args"]), served=sum(1 for t in ts for e in t["ev"] if e["e"] == "Run"))
            for i, l in sorted(rej.items()):
                t = uniq[i]
                ev = t["ev"][l - 1]
                chk.violation("%s:%s:%s" % (ev["e"], ev.get("code", ""), "+".join(sorted({a["k"] for a in t["args"]}))),
                              "event %d of the recorded execution is not a behaviour of Cli: %s (arguments %s, standard error %s)"
                              % (l, json.dumps(ev)[:300], t["run"]["argv"], json.dumps(t["run"].get("stderr", ""))[-600:]),
                              {"script": t["script"], "accepted": l - 1, "trace": t["ev"][:l + 2], "run": t["run"]})
            if not chk.cov["samples"] and uniq:
                chk.cov["samples"] = [{k: t[k] for k in ("args", "files", "ev")} for t in uniq[:2]]
            if quick or chk.viol or time.time() > end:
                break
        fd.result()


def check(prop):
    from report import Check
    chk = Check(prop)
    {"C18": check_reload, "C21": check_cli}[prop](chk)
    chk.cov["rule"] = RULE[prop]
    chk.assume = ASSUME[prop]
    return chk.finish()
