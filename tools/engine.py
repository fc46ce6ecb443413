"""Shared machinery of the checks: build drivers from /repo's working tree, run TLC, validate traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
MOD = "github.com/ahKevinXy/go-web-tools"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = 8


class CheckError(Exception):
    """Something other than the code under test went wrong: error exit, never a violation."""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "model_runs": [], "samples": []}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.level = "model_checking"

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
    e.pop("GOCOVERDIR", None)
    return e


def overlay(ctx, name, instrument=(), extra=None):
    """Overlay: harness packages under /repo/zzverif, plus instrumented copies of the named packages."""
    rep = {}
    for root, _, files in os.walk(HARN):
        for f in files:
            if f.endswith(".go") and "/instr" not in root:
                p = os.path.join(root, f)
                rep[os.path.join(REPO, "zzverif", os.path.relpath(p, HARN))] = p
    if instrument:
        tool = ctx.path("instr.bin")
        if not os.path.exists(tool):
            r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(HARN, "instr"), env=goenv(),
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError("instrumenter does not build:\n" + r.stderr)
        outd = ctx.path("instr-" + name)
        os.makedirs(outd, exist_ok=True)
        for pkg in instrument:
            d = os.path.join(REPO, pkg)
            for f in sorted(os.listdir(d)):
                if f.endswith(".go") and not f.endswith("_test.go"):
                    src = os.path.join(d, f)
                    dst = os.path.join(outd, pkg.replace("/", "_") + "_" + f)
                    r = subprocess.run([tool, src, dst], capture_output=True, text=True)
                    if r.returncode:
                        raise CheckError("instrumenting %s failed: %s" % (src, r.stderr))
                    rep[src] = dst
    rep.update(extra or {})
    p = ctx.path("overlay-%s.json" % name)
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def build(ctx, pkg, instrument=(), race=False, tags=""):
    """Compile the driver package harness/<pkg> against the current working tree; returns the binary."""
    name = pkg.replace("/", "_") + ("_i" if instrument else "") + ("_race" if race else "")
    out = ctx.path(name + ".test")
    if os.path.exists(out):
        return out
    ov = overlay(ctx, name, instrument)
    mod = ctx.path("go.mod")
    if not os.path.exists(mod):
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), ctx.path("go.sum"))
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./zzverif/" + pkg)
    t = time.time()
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise CheckError("driver %s does not build:\n%s%s" % (pkg, r.stdout, r.stderr))
    log("built %s in %.1fs" % (name, time.time() - t))
    return out


class Stop(Exception):
    """The verdict is known; nothing more to explore."""


def crashed(out):
    """The report of a panic (or fatal error) that nobody could catch in a goroutine running the code under test."""
    m = re.search(r"^(panic: |fatal error: )(?!test timed out).*", out, re.M)
    if not m or "deadlock: " in m.group(0) or "all goroutines are asleep" in m.group(0):
        return None
    g = out[m.start():]
    g = g[:g.find("\n\ngoroutine", g.find("[running") + 1) if g.find("[running") >= 0 else None]
    for line in g.split("\n"):
        if line.startswith("\t"):
            f = line.strip()
            if "/zzverif/" in f or HARN in f:
                return None
            if f.startswith(REPO + "/") or "/instr-" in f:
                return g[:6000]
    return None


class Driver:
    """Result of one driver process."""
    def __init__(self, out, rc, log_, traces, total, distinct):
        self.out, self.rc, self.log, self.traces, self.total, self.distinct = out, rc, log_, traces, total, distinct


def drive(ctx, binary, test, walks=None, n=None, ln=None, budget=None, seed=None, timeout=600, tag="", env=None,
          cwd=None, unpriv=False, allow_fail=False):
    out = ctx.path("tr-%s%s.ndjson" % (test, tag))
    e = goenv()
    e["VERIF_OUT"] = out
    e["VERIF_SEED"] = str(SEED if seed is None else seed)
    e["VERIF_TIER"] = ctx.tier
    if walks:
        e["VERIF_WALKS"] = walks
    for k, v in (("VERIF_N", n), ("VERIF_LEN", ln), ("VERIF_BUDGET", budget)):
        if v is not None:
            e[k] = str(v)
    e.update(env or {})
    cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout]
    wd = cwd or ctx.path("wd-%s%s" % (test, tag))
    os.makedirs(wd, exist_ok=True)
    if unpriv:
        # the unprivileged user may only write in its own scratch directory
        os.chmod(ctx.scratch, 0o755)
        out = os.path.join(wd, "out.ndjson")
        e["VERIF_OUT"] = out
        for root, ds, fs in os.walk(wd):
            for x in ds + fs:
                os.chown(os.path.join(root, x), 65534, 65534)
        os.chown(wd, 65534, 65534)
        e["HOME"] = wd
        e["TMPDIR"] = wd
        cmd = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--"] + cmd
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout + 30, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise CheckError("driver %s timed out\n%s" % (test, (x.stdout or b"")[-2000:]))
    m = re.search(r"DRIVER total=(\d+) distinct=(\d+)", p.stdout)
    log("drive %s%s: rc=%d %s %.1fs" % (test, tag, p.returncode, m.group(0) if m else "", time.time() - t))
    if p.returncode and not allow_fail:
        crash = crashed(p.stdout)
        if crash:
            direct_violation(ctx, "the code under test crashed the process (%s)" % test, {"output": crash})
            raise Stop()
        if p.returncode > 0 and not m and not re.search(r"FAIL|panic|fatal error|setpriv:|flag provided", p.stdout):
            # nothing of the harness ends the process without a word of its own
            direct_violation(ctx, "the code under test ended the process (%s, exit %d)" % (test, p.returncode), {"output": p.stdout[-2000:]})
            raise Stop()
    if (p.returncode or not m) and not allow_fail:
        raise CheckError("driver %s failed (rc=%d):\n%s" % (test, p.returncode, p.stdout[-4000:]))
    if "GENERATOR FAILED" in p.stdout:
        # an error of the check, unless what was recorded until then is a violation
        ctx.failed_later = "driver %s:\n%s" % (test, p.stdout[p.stdout.find("GENERATOR FAILED"):][:3000])
    n = sum(1 for _ in open(out)) if os.path.exists(out) else 0
    return Driver(out, p.returncode, p.stdout, n, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0)


def drives(ctx, binary, test, n, procs=6, **kw):
    """The same driver in several processes, each with its own seed, their histories in one file."""
    with ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(drive, ctx, binary, test, n=(n + procs - 1) // procs, seed=SEED * 1000 + i, tag="-%d" % i, **kw)
              for i in range(procs)]
        bad = [f.exception() for f in fs if f.exception()]
    if bad:
        raise next((x for x in bad if isinstance(x, Stop)), bad[0])
    ds = [f.result() for f in fs]
    out = ctx.path("tr-%s.ndjson" % test)
    with open(out, "wb") as o:
        for d in ds:
            with open(d.out, "rb") as i:
                shutil.copyfileobj(i, o)
            os.remove(d.out)
    return Driver(out, 0, "", sum(d.traces for d in ds), sum(d.total for d in ds), sum(d.distinct for d in ds))


def raced(ctx, test, secs=2):
    """Side condition: run the driver free under the race detector; a data race is a violation."""
    b = build(ctx, "racy", race=True)
    logp = ctx.path("race-" + test)
    t = time.time()
    try:
        p = subprocess.run([b, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % (secs * 3 + 20)],
                           cwd=ctx.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=dict(goenv(), VERIF_BUDGET=str(secs), VERIF_SEED=str(SEED),
                                    GORACE="halt_on_error=1 exitcode=66 log_path=" + logp), timeout=secs * 3 + 40)
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    reps = []
    for f in sorted(os.listdir(ctx.scratch)):
        if f.startswith("race-%s." % test):
            reps.append(open(os.path.join(ctx.scratch, f), errors="replace").read())
    m = re.search(r"RACY rounds=(\d+)", out)
    log("race detector %s: rounds=%s, %d report(s), %.1fs" % (test, m.group(1) if m else "?", len(reps), time.time() - t))
    ctx.cov.setdefault("race_detector_rounds", 0)
    ctx.cov["race_detector_rounds"] += int(m.group(1)) if m else 0
    for r in reps[:1]:
        if "DATA RACE" in r:
            direct_violation(ctx, "data race in " + test, {"report": r[:6000]})


# ---------------------------------------------------------------- TLC

def tlc_cmd(ctx, module, cfg, args=(), workers=1, heap="2g", jopts=()):
    meta = tempfile.mkdtemp(prefix="meta-", dir=ctx.scratch)
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", *jopts, "-cp", JARS,
            "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]


def tlc(ctx, module, cfg, env=None, args=(), workers=1, heap="2g", timeout=600, jopts=(), stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    cmd = tlc_cmd(ctx, os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, cfg), args, workers, heap, jopts)
    try:
        if stdout:
            with open(stdout, "w") as f:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            out = open(stdout).read()
        else:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            out = p.stdout
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    return p.returncode, out


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model(ctx, module, cfg, workers=4, heap="4g", timeout=600, env=None, args=(), emit=False):
    """Exhaustive model checking of a design; any error is an error of the check (the spec is wrong)."""
    t = time.time()
    so = ctx.path("mc-%s.out" % cfg.replace("/", "_"))
    rc, out = tlc(ctx, module, cfg, env=env, args=args, workers=1 if emit else workers, heap=heap, timeout=timeout,
                  stdout=so)
    g, d = stats(out)
    if rc != 0 and workers > 1 and not emit:
        # TLC's workers sometimes normalise one shared value at the same time ("Field name op occurs multiple
        # times in record"); what one worker alone finds is final
        log("model %s: TLC exit %d with %d workers, again with one" % (cfg, rc, workers))
        rc, out = tlc(ctx, module, cfg, env=env, args=args, workers=1, heap=heap, timeout=timeout, stdout=so)
        g, d = stats(out)
    if rc != 0:
        tail = "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-3000:]
        raise CheckError("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, tail))
    if d == 0:
        raise CheckError("model %s/%s explored nothing" % (module, cfg))
    ctx.cov["states"] += d
    ctx.cov["transitions"] += g
    ctx.cov["model_runs"].append({"module": module, "config": cfg, "distinct_states": d, "states_generated": g,
                                  "wall_s": round(time.time() - t, 1)})
    log("model %s: %d generated, %d distinct, %.1fs" % (cfg, g, d, time.time() - t))
    return so


def mistaken(ctx, module, cfg, heap="4g", timeout=600):
    """A model with a deliberate mistake, which TLC has to notice: shows that its properties are not vacuous."""
    rc, out = tlc(ctx, module, cfg, workers=4, heap=heap, timeout=timeout, stdout=ctx.path("mc-%s.out" % cfg))
    if rc not in (12, 13):
        raise CheckError("model %s/%s: the mistake went unnoticed (TLC exit %d)" % (module, cfg, rc))
    log("model %s: mistake noticed" % cfg)


def edges(outfile):
    """Edges printed by an Emit action constraint: (from, to, call)."""
    ids, es = {}, []
    for line in open(outfile):
        if not line.startswith('"{'):
            continue
        d = json.loads(json.loads(line))
        f = json.dumps(d["f"], sort_keys=True)
        t = json.dumps(d["t"], sort_keys=True)
        es.append((ids.setdefault(f, len(ids)), ids.setdefault(t, len(ids)), d["c"]))
    return ids, es


def cover_walks(nnodes, es, rng, maxlen=60, cap=None):
    """Walks from the initial node (0) that together take every edge (or `cap` of them)."""
    out = [[] for _ in range(nnodes)]
    for i, (f, t, c) in enumerate(es):
        out[f].append(i)
    for o in out:
        rng.shuffle(o)
    # BFS tree
    par = {0: None}
    q = [0]
    for n in q:
        for i in out[n]:
            t = es[i][1]
            if t not in par:
                par[t] = i
                q.append(t)
    todo = [list(o) for o in out]
    left = sum(len(o) for o in todo)
    target = left if cap is None else min(cap, left)
    done = 0
    walks = []
    order = [n for n in q]
    if cap is not None and cap < left:
        rng.shuffle(order)
    ptr = 0
    covered = [False] * len(es)

    def prefix(n):
        p = []
        while par[n] is not None:
            p.append(par[n])
            n = es[par[n]][0]
        return p[::-1]
    while done < target and ptr < len(order):
        n = order[ptr]
        while todo[n] and covered[todo[n][-1]]:
            todo[n].pop()
        if not todo[n]:
            ptr += 1
            continue
        w = prefix(n)
        for i in w:
            if not covered[i]:
                covered[i] = True
                done += 1
        cur = n
        while len(w) < maxlen:
            while todo[cur] and covered[todo[cur][-1]]:
                todo[cur].pop()
            if not todo[cur]:
                break
            i = todo[cur].pop()
            covered[i] = True
            done += 1
            w.append(i)
            cur = es[i][1]
        walks.append([es[i][2] for i in w])
    return walks, done


def gen_walks(ctx, module, cfg, cap=None, maxlen=60, timeout=600, env=None, reach_only=False):
    so = model(ctx, module, cfg, emit=True, timeout=timeout, env=env)
    ids, es = edges(so)
    os.unlink(so)
    if not es:
        raise CheckError("no edges emitted by %s" % cfg)
    rng = random.Random(SEED)
    ws, done = cover_walks(len(ids), es, rng, maxlen, cap)
    p = ctx.path("walks-%s.ndjson" % cfg)
    with open(p, "w") as f:
        for w in ws:
            f.write(json.dumps(w) + "\n")
    log("walks %s: %d nodes %d edges, %d covered by %d walks" % (cfg, len(ids), len(es), done, len(ws)))
    g = ctx.cov.setdefault("graph_edges", 0)
    ctx.cov["graph_edges"] = g + len(es)
    ctx.cov["graph_edges_replayed"] = ctx.cov.get("graph_edges_replayed", 0) + done
    if cap is None and done == len(es):
        ctx.cov.setdefault("graphs_fully_covered", []).append(cfg)
    return p


# ---------------------------------------------------------------- trace validation

REJECT = (12, 13, 75, 76)   # TLC: safety, liveness, evaluation of the next-state relation, of an invariant


def _validate_shard(ctx, module, cfg, path, n, timeout, dfs, heap):
    jopts = ("-Dtlc2.tool.queue.IStateQueue=StateDeque",) if dfs else ()
    rc, out = tlc(ctx, module, cfg, env={"TRACE": path}, args=("-deadlock",), workers=1, heap=heap, timeout=timeout,
                  jopts=jopts)
    ok = set(int(x) for x in re.findall(r'<<"TRACEOK", (\d+)>>', out))
    return rc, out, ok


def _canaries(ctx, module, cfg, path, lines, timeout, dfs, heap):
    """Negative control: recorded histories with one corrupted result must be rejected, or the
    specification is not bound to what was recorded."""
    rng = random.Random(SEED + 7)
    out = []
    for _ in range(50):
        t = json.loads(rng.choice(lines))
        k = [i for i, e in enumerate(t["ev"]) if "r" in e]
        if not k:
            continue
        t["ev"][rng.choice(k)]["r"] = ["corrupted"]
        out.append(json.dumps(t))
        if len(out) == 3:
            break
    if not out:
        raise CheckError("no result recorded for %s" % module)
    p = "%s.%s.canary" % (path, module)
    open(p, "w").write("\n".join(out) + "\n")
    rc, o, ok = _validate_shard(ctx, module, cfg, p, len(out), timeout, dfs, heap)
    if rc not in (0,) + REJECT:
        raise CheckError("TLC exit %d on corrupted histories of %s:\n%s" % (rc, module, tail_of(o)))
    if ok:
        raise CheckError("%s accepts corrupted histories" % module)
    ctx.cov["corrupted_histories_rejected"] = ctx.cov.get("corrupted_histories_rejected", 0) + len(out)


def validate(ctx, module, cfg, path, desc="", timeout=800, dfs=False, heap="2g", shards=None, max_report=3, repro=None):
    """Every history in `path` must be a behaviour of the specification.  Returns number of histories."""
    lines = open(path).read().splitlines()
    if not lines:
        raise CheckError("no histories recorded for %s" % module)
    nev = sum(x.count('"r"') or 1 for x in lines)
    if shards is None:
        shards = 1 if len(lines) < 40 and nev < 3000 else min(NCPU - 1, max(2, nev // 4000))
        shards = min(shards, len(lines))
    # deal the histories round robin after sorting by size, so that shards take equally long
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    groups = [order[k::shards] for k in range(shards)]
    t = time.time()

    def one(k):
        p = "%s.%s.%d" % (path, module, k)
        with open(p, "w") as f:
            for i in groups[k]:
                f.write(lines[i] + "\n")
        r = _validate_shard(ctx, module, cfg, p, len(groups[k]), timeout, dfs, heap)
        os.unlink(p)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        can = ex.submit(_canaries, ctx, module, cfg, path, lines, timeout, dfs, heap)
        res = list(ex.map(one, range(shards)))
        can.result()
    bad = []
    for k, (rc, out, ok) in enumerate(res):
        missing = [j for j in range(1, len(groups[k]) + 1) if j not in ok]
        if rc in REJECT:
            # TLC stopped at one history (invariant violated, or an event the specification cannot even be
            # evaluated on): that one is rejected, the ones not reached are not judged
            m = re.findall(r"^/\\ tr = (\d+)", out, re.M)
            if not m:
                raise CheckError("TLC exit %d validating %s:\n%s" % (rc, module, tail_of(out)))
            missing = [int(m[-1])]
        elif rc != 0:
            raise CheckError("TLC exit %d validating %s:\n%s" % (rc, module, tail_of(out)))
        bad += [groups[k][j - 1] for j in missing]
        g, d = stats(out)
        ctx.cov["states"] += d
        ctx.cov["transitions"] += g
    log("validate %s %s: %d histories, ~%d events, %d rejected, %d shards, %.1fs" %
        (module, desc, len(lines), nev, len(bad), shards, time.time() - t))
    ctx.cov["traces_validated_against_impl"] += len(lines) - len(bad)
    ctx.cov["events_validated"] += nev
    if len(ctx.cov["samples"]) < 3 and lines:
        s = min(lines[:200], key=lambda x: abs(len(x) - 600))
        ctx.cov["samples"].append({"spec": module, "history": json.loads(s) if len(s) < 6000 else s[:3000]})
    bad.sort(key=lambda i: len(lines[i]))
    for i in bad[:max_report]:
        p = ctx.path("one.ndjson")
        open(p, "w").write(lines[i] + "\n")
        rc, out, ok = _validate_shard(ctx, module, cfg, p, 1, timeout, dfs, heap)
        if ok and rc == 0:
            raise CheckError("history rejected in bulk but accepted alone (%s)" % module)
        if rc != 0 and rc not in REJECT:
            raise CheckError("TLC exit %d validating one history of %s:\n%s" % (rc, module, tail_of(out)))
        depth = re.findall(r"depth of the complete state graph search is (\d+)", out)
        reached = progress(ctx, module, cfg, p, timeout)
        violation(ctx, module, lines[i], reached, tail_of(out), repro)
    if len(bad) > max_report:
        log("%d more rejected histories not reported" % (len(bad) - max_report))
    return len(lines)


def progress(ctx, module, cfg, path, timeout):
    """Largest event index reached on the one history in `path` (by re-running with prefixes is costly:
    use the values of l in a dump)."""
    dump = ctx.path("dump")
    try:
        tlc(ctx, module, cfg, env={"TRACE": path}, args=("-deadlock", "-dump", dump), workers=1, timeout=timeout)
        ls = re.findall(r"/\\ l = (\d+)", open(dump + ".dump").read())
        return max(map(int, ls)) if ls else None
    except Exception:
        return None


def tail_of(out):
    keep = [x for x in out.splitlines() if "TRACEOK" not in x]
    return "\n".join(keep)[-2500:]


def violation(ctx, module, line, reached, detail, repro=None):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (ctx.pid, len(ctx.violations) + 1))
    t = json.loads(line)
    ev = t.get("ev", [])
    rec = {"property": ctx.pid, "spec": module, "seed": SEED, "tier": ctx.tier, "repro": repro,
           "explained_events": (reached - 1) if reached else None,
           "first_unexplained_event": ev[reached - 1] if reached and reached <= len(ev) else None,
           "before": ev[max(0, (reached or 1) - 4):(reached or 1) - 1], "cfg": t.get("cfg"), "history": ev, "tlc": detail}
    json.dump(rec, open(p, "w"), indent=1)
    ctx.violations.append(p)
    log("REJECTED by %s: event %s of %d: %s" % (module, reached, len(ev),
                                                json.dumps(rec["first_unexplained_event"])[:600]))
    log("  before: %s" % json.dumps(rec["before"])[:900])


def direct_violation(ctx, what, rec):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (ctx.pid, len(ctx.violations) + 1))
    rec = dict(rec, property=ctx.pid, what=what, seed=SEED, tier=ctx.tier)
    json.dump(rec, open(p, "w"), indent=1)
    ctx.violations.append(p)
    log("VIOLATION of %s: %s" % (ctx.pid, what))


def evidence(ctx, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rec = {"property": ctx.pid, "tier": ctx.tier, "seed": SEED, "level": ctx.level, "coverage": ctx.cov,
           "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    json.dump(rec, open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
