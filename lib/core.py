"""Common machinery of the checks: scratch directory, building, TLC, the simulation, trace validation."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
CORES = min(8, os.cpu_count() or 1)
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"

T0 = time.time()


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict)."""


_scratch = None
_procs = set()


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="gevulot-verif-", dir=base)
        atexit.register(cleanup)
    return _scratch


def cleanup():
    global _scratch
    for p in list(_procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    if _scratch and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def _term(*a):
    cleanup()
    os._exit(3)


signal.signal(signal.SIGTERM, _term)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", CGO_ENABLED="0",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = os.path.dirname(GO) + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update({k: str(v) for k, v in kw.items()})
    return e


def limited(cmd, gb=10):
    """cmd with an address space of gb gigabytes, so that a decoder that asks for too much hurts only itself."""
    return ["bash", "-c", "ulimit -v %d; exec \"$@\"" % (gb << 20), "sh"] + cmd


def run(cmd, timeout, env=None, cwd=None, out=None, check=True):
    """Run a command in its own process group; returns (rc, output)."""
    f = open(out, "wb") if out else tempfile.TemporaryFile(dir=scratch())
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    _procs.add(p)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = -999
    finally:
        _procs.discard(p)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    if out:
        f.close()
        text = open(out, "rb").read().decode("utf8", "replace") if os.path.getsize(out) < 1 << 26 else ""
    else:
        f.seek(0)
        text = f.read().decode("utf8", "replace")
        f.close()
    if check and rc != 0:
        raise CheckError("%s: exit %s\n%s" % (" ".join(cmd[:6]), rc, text[-4000:]))
    return rc, text


# ---------------------------------------------------------------- building

def harness_copy():
    """A copy of the harness module (the build may touch go.mod/go.sum)."""
    d = os.path.join(scratch(), "harness")
    if not os.path.isdir(d):
        shutil.copytree(HARNESS, d)
        gm = open(os.path.join(d, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        req = requires()
        open(os.path.join(d, "go.mod"), "w").write(merge_mod(gm, req))
        sums = set(open(os.path.join(d, "go.sum")).read().splitlines())
        rs = os.path.join(REPO, "go.sum")
        if os.path.exists(rs):
            sums |= set(open(rs).read().splitlines())
        open(os.path.join(d, "go.sum"), "w").write("\n".join(sorted(x for x in sums if x)) + "\n")
    return d


def requires():
    t = open(os.path.join(REPO, "go.mod")).read()
    r = {}
    for blk in re.findall(r"require\s*\((.*?)\)", t, re.S) + re.findall(r"^require\s+([^\(\n]+)$", t, re.M):
        for m in re.finditer(r"^\s*(\S+)\s+(v\S+)", blk, re.M):
            r[m.group(1)] = m.group(2)
    return r


def merge_mod(mod, req):
    have = set(re.findall(r"^\s*(?:require\s+)?(\S+\.\S+)\s+v", mod, re.M))
    lines = ["\t%s %s" % kv for kv in sorted(req.items()) if kv[0] not in have]
    return mod + ("\nrequire (\n" + "\n".join(lines) + "\n)\n" if lines else "")


def build_sim():
    """Instrument the current tree and build the simulation; returns (binary, sites)."""
    d = harness_copy()
    ov = os.path.join(scratch(), "overlay")
    os.makedirs(ov, exist_ok=True)
    run([GO, "run", "./instr", "-repo", REPO, "-out", ov], 300, env=goenv(), cwd=d)
    sites = json.load(open(os.path.join(ov, "sites.json")))
    b = os.path.join(scratch(), "sim.test")
    run([GO, "test", "-c", "-overlay", os.path.join(ov, "overlay.json"), "-o", b, "./sim"], 600, env=goenv(), cwd=d)
    log("built the simulation:", len(sites), "yield points")
    return b, sites


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, timeout, args=(), env=None, heap="2g", check=True, workers=1, dfs=False):
    """Run TLC on SPEC/module with the configuration text cfg; returns its output."""
    h = hashlib.sha1((module + cfg + repr(args) + repr(sorted((env or {}).items()))).encode()).hexdigest()[:10]
    wd = os.path.join(scratch(), "tlc-%s-%s" % (module, h))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    c = os.path.join(wd, module + ".cfg")
    open(c, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%d" % (4 if timeout > 200 else 4),
           *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []), "-cp", JAR + ":" + CM, "tlc2.TLC", "-metadir", os.path.join(wd, "st"), "-noGenerateSpecTE",
           "-workers", str(workers), "-config", c] + list(args) + [os.path.join(wd, module + ".tla")]
    rc, text = run(cmd, timeout, env=e, cwd=wd, check=False, out=os.path.join(wd, "out.txt"))
    if rc == -999:
        raise CheckError("TLC timed out on " + module)
    if check and rc != 0:
        raise CheckError("TLC %s: exit %d\n%s" % (module, rc, text[-5000:]))
    shutil.rmtree(os.path.join(wd, "st"), ignore_errors=True)
    return rc, text


def tlc_stats(text):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", text)
    return (int(m[-1].replace(",", "")), 0) if m else (0, 0)


def pmap(f, xs, n=CORES):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def gen_scripts(module, cfg, num, depth, timeout=120, shards=4, salt=0):
    """Behaviours of a generator module: one JSON value per line printed as SCRIPT."""
    def one(i):
        rc, text = tlc(module, cfg, timeout, args=["-simulate", "num=%d" % max(1, num // shards), "-depth", str(depth), "-seed", str(SEED * 100003 + salt * 17 + i)], check=False)
        out = []
        for m in re.finditer(r'^<<"SCRIPT", "(.*)">>\s*$', text, re.M):
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if not out or "Error:" in text:
            raise CheckError("no scripts from %s:\n%s" % (module, text[-3000:]))
        return out
    res = []
    for r in pmap(one, range(shards)):
        res += r
    return res


# ---------------------------------------------------------------- simulation

def run_jobs(binary, jobs, nsites, budget, shards=CORES, mem="2500MiB", extra=None):
    """Run jobs (dicts) on the real code; returns a list of runs {job, seed, ev, ...}."""
    parts = [[] for _ in range(shards)]
    for i, j in enumerate(jobs):
        parts[i % shards].append(j)
    parts = [p for p in parts if p]

    def one(i):
        jf = os.path.join(scratch(), "jobs-%d.ndjson" % i)
        of = os.path.join(scratch(), "journal-%d.ndjson" % i)
        with open(jf, "w") as f:
            for j in parts[i]:
                f.write(json.dumps(j) + "\n")
        if os.path.exists(of):
            os.unlink(of)
        skip, crashes, end = 0, 0, time.time() + budget
        while True:
            left = max(1, end - time.time())
            env = goenv(SIM_JOBS=jf, SIM_OUT=of, SIM_SKIP=skip, SIM_SITES=nsites, SIM_BUDGET_MS=int(left * 1000),
                        GOMEMLIMIT=mem, GOTRACEBACK="all", GODEBUG="asyncpreemptoff=1", **(extra or {}))
            lf = os.path.join(scratch(), "sim-%d.log" % i)
            rc, text = run(limited([binary, "-test.run", "^TestSim$", "-test.timeout", "0"]), left + 240, env=env, cwd=scratch(), check=False, out=lf)
            last, fin = 0, False
            with open(of) as f:
                for line in f:
                    if line.startswith('{"B"') or '"B":' in line[:4000] and '"job"' in line:
                        o = json.loads(line)
                        if "B" in o:
                            last = o["B"]
                    elif '"X":' in line:
                        fin = True
            if fin:
                break
            if rc == 97 or rc == -999:
                raise CheckError("a run did not finish in real time (run %d)\n%s" % (last, text[-6000:]))
            m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
            if not m:
                raise CheckError("the simulation died (exit %s) in run %d\n%s" % (rc, last, text[-4000:]))
            if "concurrent map" in m.group(1) and "gevulotverif/sim" in text:
                raise CheckError("race in the harness\n" + text[-4000:])
            with open(of, "a") as f:
                f.write("\n" + json.dumps({"P": last, "panic": m.group(1)[:300], "where": panic_site(text)}) + "\n")
            crashes += 1
            if crashes > 25 or time.time() > end:
                break
            skip = last
        return parse_journal(of)
    res = []
    for r in pmap(one, range(len(parts)), len(parts)):
        res += r
    return res


def panic_site(text):
    m = re.search(r"^(?:panic|fatal error): .*?^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", text, re.S | re.M)
    st = m.group(1) if m else ""
    fr = re.findall(r"(github.com/hired/gevulot/\S+?)\(", st)
    return fr[:4]


def parse_journal(path):
    runs, cur = [], None
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                o = json.loads(line)
            except ValueError:
                continue  # cut off by a crash
            if "B" in o:
                cur = {"job": o["job"], "seed": o["seed"], "plan": o["plan"], "site": o["site"], "ev": [], "done": False}
                runs.append(cur)
            elif "Z" in o:
                cur["done"] = True
                if o.get("broken"):
                    raise CheckError("run failed in the harness: job %s seed %s: %s" % (cur["job"], cur["seed"], o["broken"]))
                if o.get("leak") and not cur.get("noleak"):
                    cur["ev"].append({"e": "Leak"})
                cur["yields"] = o["yields"]
                cur["hit"] = o["hit"]
            elif "P" in o:
                cur["done"] = True
                if not cur.get("stop"):
                    cur["ev"].append({"e": "Panic", "what": o["panic"], "where": o["where"]})
            elif "X" in o:
                pass
            elif "Stop" in o:
                cur["stop"] = True
            elif "NoLeak" in o:
                cur["noleak"] = True
            elif "e" in o and cur is not None:
                cur["ev"].append(o)
    if runs and not runs[-1]["done"]:
        runs.pop()
    return runs


# ---------------------------------------------------------------- trace validation

def validate(module, cfg, traces, timeout=600, shards=CORES, chunk=4000, heap="3g"):
    """traces: list of dicts {ev: [...], ...}. Returns ({index: longest accepted prefix}, states) of rejected ones."""
    n = max(1, min(shards, (len(traces) + 149) // 150))
    pieces = []
    per = min(chunk, (len(traces) + n - 1) // n)
    for k in range(0, len(traces), max(1, per)):
        pieces.append((k, traces[k:k + per]))
    states = [0]

    def one(p):
        base, ts = p
        f = os.path.join(scratch(), "traces-%s-%d-%d.ndjson" % (module, base, len(ts)))
        with open(f, "w") as o:
            for i, t in enumerate(ts):
                d = dict(t)
                d["id"] = base + i
                o.write(json.dumps(d) + "\n")
        rc, text = tlc(module, cfg, timeout, args=["-deadlock", "-checkpoint", "0"], env={"TRACES": f}, heap=heap, check=False, dfs=True)
        m = re.search(r'<<"CHECKED", (\d+)>>', text)
        if rc != 0 or not m or int(m.group(1)) != len(ts):
            raise CheckError("trace validation failed to run (exit %d)\n%s" % (rc, text[-4000:]))
        os.unlink(f)
        states[0] += tlc_stats(text)[1]
        return {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', text)}
    rej = {}
    for r in pmap(one, pieces, shards):
        rej.update(r)
    return rej, states[0]


def dedupe(traces, key):
    seen, out = {}, []
    for t in traces:
        k = hashlib.sha1(json.dumps(key(t), sort_keys=True).encode()).digest()
        if k not in seen:
            seen[k] = 1
            out.append(t)
    return out
