"""The checks, one per property.  Usage: check [--thorough|--quick] ID"""
import os, sys, traceback
import engine as E
from engine import *

CHECKS = {}
ASSUME = {}


def check(pid, assumptions=()):
    def deco(f):
        CHECKS[pid] = f
        ASSUME[pid] = list(assumptions)
        return f
    return deco


def known_findings():
    """known_findings.txt: 'finding: property=<id> match=<text> <what fails>' and 'fixed: property=<id> ...'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                out.append(line[8:].strip())
    return out


def main(argv):
    tier = os.environ.get("VERIF_TIER") or "quick"
    ids = []
    for a in argv:
        if a in ("--thorough", "--quick"):
            tier = a[2:]
        else:
            ids.append(a)
    rc = 0
    for pid in ids:
        rc = max(rc, run(pid, tier))
    return rc


def run(pid, tier):
    ctx = Ctx(pid, tier)
    d = os.path.join(VERIF, "replay")
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(d, f))
    try:
        try:
            CHECKS[pid](ctx)
        except Stop:
            pass
        if getattr(ctx, "failed_later", None) and not ctx.violations:
            raise CheckError(ctx.failed_later)
        evidence(ctx, ASSUME[pid])
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for p in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (pid, p))
        n = ctx.cov["traces_validated_against_impl"]
        print("%s %s: %d histories accepted, %d violation(s), %.1fs" %
              (pid, tier, n, len(ctx.violations), time.time() - ctx.t0), flush=True)
        if not ctx.violations and n == 0:
            print("nothing was checked", file=sys.stderr)
            return 2
        return 1 if ctx.violations else 0
    except CheckError as x:
        # a violation found before the trouble still stands
        for p in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (pid, p))
        print("ERROR %s: %s" % (pid, x), file=sys.stderr)
        return 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


# ------------------------------------------------------------------ containers

SEQ = "sequential use (the containers make no concurrency promise)"


def simple(pid, pkg, mod, quick, thorough, cap=(None, None), walks=True, mccfg=None, tmod=None, assume=()):
    """One model, one driver, one trace specification; quick/thorough: (histories, length)."""
    @check(pid, assume)
    def f(ctx):
        th = ctx.thorough()
        b = build(ctx, pkg)
        w = None
        if walks:
            c = mccfg or "MC%s.cfg" % mod
            if th and os.path.exists(os.path.join(SPEC, c.replace(".cfg", "_thorough.cfg"))):
                c = c.replace(".cfg", "_thorough.cfg")
            w = gen_walks(ctx, "MC" + mod, c, cap=cap[th])
        n, ln = thorough if th else quick
        d = drive(ctx, b, "Test" + pid, walks=w, n=n, ln=ln)
        validate(ctx, tmod or "Trace" + mod, (tmod or "Trace" + mod) + ".cfg", d.out)
    return f


simple("C01", "containers", "List", (300, 60), (6000, 120), assume=[SEQ])
simple("C02", "containers", "DequeStack", (300, 120), (5000, 200), assume=[SEQ])
simple("C03", "containers", "SetADT", (300, 100), (5000, 200), assume=[SEQ])
simple("C04", "containers", "Heap", (300, 150), (5000, 200), assume=[SEQ])
simple("C05", "containers", "Heap", (300, 150), (5000, 200), assume=[SEQ], cap=(1500, None))
simple("C06", "containers", "KeyedHeap", (300, 120), (5000, 200), assume=[SEQ])
simple("C07", "containers", "HandleHeap", (300, 90), (5000, 150), assume=[SEQ])


def rings(ctx, test, cfgs, n, ln):
    b = build(ctx, "containers")
    for i, (c, size) in enumerate(cfgs):
        w = gen_walks(ctx, "MCRing", "MCRing_%s.cfg" % c)
        d = drive(ctx, b, test, walks=w, n=n if i == 0 else 0, ln=ln, tag="-" + c, env={"VERIF_RING": str(size)})
        with open(ctx.path("ring.ndjson"), "a") as f:
            f.write(open(d.out).read())
    lines = sorted(set(open(ctx.path("ring.ndjson"))))
    open(ctx.path("ring.ndjson"), "w").writelines(lines)
    validate(ctx, "TraceRing", "TraceRing.cfg", ctx.path("ring.ndjson"))


@check("C08", [SEQ])
def c08(ctx):
    k = ([1, 2, 3, 4, 5] if ctx.thorough() else [1, 2, 3, 4])
    rings(ctx, "TestC08", [("fixed%d" % i, i) for i in k], *((5000, 200) if ctx.thorough() else (300, 120)))


@check("C09", [SEQ])
def c09(ctx):
    k = ([0, 1, 2, 3] if ctx.thorough() else [0, 1, 3])
    rings(ctx, "TestC09", [("grow%d" % i, i) for i in k], *((5000, 200) if ctx.thorough() else (300, 120)))


# ------------------------------------------------------------------ limiters

VT = "time is the Go runtime's virtual clock (testing/synctest): exact to the nanosecond, never backwards"


def limiter(pid, mod, tmod, mcs, extra=()):
    @check(pid, [SEQ.replace("the containers make no concurrency promise", "concurrency is L06"), VT])
    def f(ctx):
        th = ctx.thorough()
        b = build(ctx, "limiters")
        w = gen_walks(ctx, mod, mcs)
        for c in extra:
            model(ctx, mod, c)
        d = drive(ctx, b, "Test" + pid, walks=w, n=4000 if th else 300, ln=250 if th else 150)
        validate(ctx, tmod, tmod + ".cfg", d.out)


limiter("L01", "MCFixedWindow", "TraceFixedWindow", "MCFixedWindow.cfg")
limiter("L02", "MCLeakyBucket", "TraceLeakyBucket", "MCLeakyBucket.cfg", ["MCLeakyBucket_rate.cfg"])
limiter("L03", "MCTokenBucket", "TraceTokenBucket", "MCTokenBucket.cfg", ["MCTokenBucket_rate.cfg"])
limiter("L04", "MCSlidingLog", "TraceSlidingLog", "MCSlidingLog_win.cfg")
limiter("L05", "MCSlidingLog", "TraceSlidingLog", "MCSlidingLog_log.cfg")


# ------------------------------------------------------------------ filter and hash

@check("F01", [SEQ])
def f01(ctx):
    b = build(ctx, "filters")
    model(ctx, "BloomImpl", "BloomImpl.cfg")
    w = gen_walks(ctx, "MCBloom", "MCBloom.cfg")
    d = drive(ctx, b, "TestF01", walks=w, n=5000 if ctx.thorough() else 300, ln=200)
    validate(ctx, "TraceBloom", "TraceBloom.cfg", d.out)


@check("F03", [SEQ, "rates are measured on elements that are pairwise different and otherwise patternless"])
def f03(ctx):
    b = build(ctx, "filters")
    model(ctx, "BloomImpl", "BloomImpl.cfg")
    d = drive(ctx, b, "TestF03")
    validate(ctx, "TraceBloom", "TraceBloom.cfg", d.out)


simple("F02", "filters", "HashFn", (60, 300), (600, 400), assume=[SEQ])


# ------------------------------------------------------------------ numbers

simple("N01", "numbers", "Bits", (40, 400), (600, 400))


def helpers(pid, mod, quick, thorough, assume=()):
    @check(pid, assume)
    def f(ctx):
        b = build(ctx, "helpers")
        model(ctx, "MC" + mod, "MC%s.cfg" % mod)
        n, ln = thorough if ctx.thorough() else quick
        d = drive(ctx, b, "Test" + pid, n=n, ln=ln)
        validate(ctx, "Trace" + mod, "Trace%s.cfg" % mod, d.out)


helpers("N02", "Display", (60, 60), (1500, 100))
helpers("U09", "Guards", (60, 100), (1500, 200),
        assume=["a browser resolves references as the WHATWG URL standard says", "names are resolved as on a POSIX file system"])
helpers("U10", "Codec", (160, 80), (1500, 150))
helpers("U11", "Words", (60, 80), (1500, 150), assume=["what a day is follows the process's local time zone"])
helpers("U12", "Digests", (30, 20), (500, 40))


# ------------------------------------------------------------------ files

FS = "file system of the sandbox; the driver runs as an unprivileged user in a scratch directory"


@check("U01", [FS, "a store cut short is not a stored chunk: what an assembly makes of one is left open"])
def u01(ctx):
    th = ctx.thorough()
    b = build(ctx, "files")
    model(ctx, "MCUpload", "MCUpload_kept.cfg")
    w = gen_walks(ctx, "MCUpload", "MCUpload.cfg", cap=None if th else 3000)
    d = drive(ctx, b, "TestU01", walks=w, n=4000 if th else 250, ln=100 if th else 60, unpriv=True)
    validate(ctx, "TraceUpload", "TraceUpload.cfg", d.out)


@check("U02", [FS, "names that leave the destination and come back into it may be refused or followed"])
def u02(ctx):
    th = ctx.thorough()
    b = build(ctx, "files")
    w = gen_walks(ctx, "MCZip", "MCZip.cfg")
    d = drive(ctx, b, "TestU02", walks=w, n=4000 if th else 250, ln=60 if th else 40, unpriv=True)
    validate(ctx, "TraceZip", "TraceZip.cfg", d.out)


@check("U03", [FS])
def u03(ctx):
    th = ctx.thorough()
    b = build(ctx, "files")
    w = gen_walks(ctx, "MCFileTree", "MCFileTree.cfg", cap=None if th else 6000)
    d = drive(ctx, b, "TestU03", walks=w, n=1, tag="-plain", unpriv=True)
    validate(ctx, "TraceFileTree", "TraceFileTree.cfg", d.out)
    w = gen_walks(ctx, "MCFileTree", "MCFileTree_links.cfg", cap=None if th else 6000)
    d = drive(ctx, b, "TestU03", walks=w, n=4000 if th else 500, ln=120 if th else 80, unpriv=True)
    validate(ctx, "TraceFileTree", "TraceFileTree.cfg", d.out)


@check("U04", [FS, "rows are not empty and fields hold no carriage return, which the format does not keep"])
def u04(ctx):
    th = ctx.thorough()
    b = build(ctx, "files")
    w = gen_walks(ctx, "MCCsv", "MCCsv.cfg", cap=None if th else 4000)
    d = drive(ctx, b, "TestU04", walks=w, n=4000 if th else 300, ln=100 if th else 40, unpriv=True)
    validate(ctx, "TraceCsv", "TraceCsv.cfg", d.out)


@check("U14", [FS, "a file left open is closed by the garbage collector at some time after the call, not at once"])
def u14(ctx):
    th = ctx.thorough()
    b = build(ctx, "files")
    model(ctx, "MCHandles", "MCHandles.cfg")
    for pid, n in (("U01", 60), ("U02", 80), ("U03", 120), ("U04", 80)):
        d = drive(ctx, b, "Test" + pid, n=n * 10 if th else n, ln=60, env={"VERIF_HELD": "1"}, unpriv=True)
        validate(ctx, "TraceHandles", "TraceHandles.cfg", d.out, desc=pid)


# ------------------------------------------------------------------ texts

@check("U05", ["the block cipher and CBC mode of the Go library are right"])
def u05(ctx):
    th = ctx.thorough()
    b = build(ctx, "texts")
    model(ctx, "MCCipher", "MCCipher.cfg")
    d = drive(ctx, b, "TestU05", n=4000 if th else 150, ln=100 if th else 60)
    validate(ctx, "TraceCipher", "TraceCipher.cfg", d.out)


@check("U06", ["code points are what counts as a character"])
def u06(ctx):
    th = ctx.thorough()
    b = build(ctx, "texts")
    model(ctx, "MCMask", "MCMask.cfg")
    d = drive(ctx, b, "TestU06", n=3000 if th else 200, ln=80)
    validate(ctx, "TraceMask", "TraceMask.cfg", d.out)


@check("U07", ["a character of the class that 3000 draws at its place did not yield cannot occur there"])
def u07(ctx):
    th = ctx.thorough()
    b = build(ctx, "texts")
    model(ctx, "MCRandStr", "MCRandStr.cfg")
    d = drive(ctx, b, "TestU07", n=600 if th else 60, ln=60)
    validate(ctx, "TraceRandStr", "TraceRandStr.cfg", d.out)


@check("U08", ["the sandbox's sh, printf, yes and head do what POSIX says"])
def u08(ctx):
    th = ctx.thorough()
    b = build(ctx, "texts")
    model(ctx, "MCShell", "MCShell.cfg")
    d = drive(ctx, b, "TestU08", n=1500 if th else 60, ln=20, unpriv=True)
    validate(ctx, "TraceShell", "TraceShell.cfg", d.out)


@check("U13", ["signals are delivered within five seconds", "no other process signals the scratch processes meanwhile"])
def u13(ctx):
    th = ctx.thorough()
    b = build(ctx, "texts")
    model(ctx, "MCReload", "MCReload.cfg")
    d = drive(ctx, b, "TestU13", n=60 if th else 6, ln=12, unpriv=True)
    validate(ctx, "TraceReload", "TraceReload.cfg", d.out)


# ------------------------------------------------------------------ concurrency

CS = ("the controlled scheduler switches goroutines between statements (and inside read-modify-write statements and "
      "atomic operations) of the instrumented packages; memory-model effects beyond that are left to the race detector")
RINGS = ("common/container/ringbuffer/fix", "common/container/ringbuffer/round")


@check("C10", [CS, "exactly one producer and one consumer; reset is not used"])
def c10(ctx):
    th = ctx.thorough()
    model(ctx, "SpscRingImpl", "SpscRingImpl%s.cfg" % ("_big" if th else ""))
    raced(ctx, "TestC10", 60 if th else 2)
    b = build(ctx, "conc", instrument=RINGS)
    d = drives(ctx, b, "TestC10", n=16000 if th else 4000, ln=20 if th else 12)
    validate(ctx, "TraceSpscRing", "TraceSpscRing.cfg", d.out)


LIMITERS = tuple("common/limiter/" + x for x in
                 ("fixed_window", "leaky_bucket", "token_bucket", "sliding_window", "sliding_log"))


@check("L06", [CS, VT, "attempts of at most four goroutines"])
def l06(ctx):
    th = ctx.thorough()
    raced(ctx, "TestL06", 60 if th else 2)
    b = build(ctx, "conc", instrument=LIMITERS)
    for name, mod in (("Fixed", "FixedWindow"), ("Leaky", "LeakyBucket"), ("Token", "TokenBucket"),
                      ("Window", "SlidingLog"), ("Log", "SlidingLog")):
        d = drives(ctx, b, "TestL06" + name, n=20000 if th else 5000, ln=6 if th else 5)
        validate(ctx, "TraceLin" + mod, "TraceLin%s.cfg" % mod, d.out, shards=7)


@check("M01", [CS, "calls of at most four goroutines; no key differs from itself (NaN)"])
def m01(ctx):
    th = ctx.thorough()
    raced(ctx, "TestM01", 60 if th else 2)
    b = build(ctx, "conc", instrument=("help/utils",))
    d = drives(ctx, b, "TestM01", n=60000 if th else 12000, ln=8 if th else 7)
    validate(ctx, "TraceLinSharedMap", "TraceLinSharedMap.cfg", d.out, shards=7)


DQ = ("common/timer/delayqueue",)


def delayq(pid, cfg):
    @check(pid, [CS, VT, "at most five goroutines besides channel readers; delays from -1 s to 1000 h"])
    def f(ctx):
        th = ctx.thorough()
        raced(ctx, "TestT01", 60 if th else 2)
        model(ctx, "DelayQueueImpl", "DelayQueueImpl%s.cfg" % ("_big" if th else ""))
        b = build(ctx, "conc", instrument=DQ)
        w = gen_walks(ctx, "MCDelayQueue", "MCDelayQueue.cfg")
        d = drive(ctx, b, "TestT01Walks", walks=w)
        validate(ctx, "TraceLinDelayQueue", cfg, d.out)
        d = drives(ctx, b, "TestT01", n=20000 if th else 4000, ln=7 if th else 5)
        validate(ctx, "TraceLinDelayQueue", cfg, d.out, shards=7)


delayq("T01", "TraceLinDelayQueue.cfg")
delayq("T02", "TraceLinDelayQueue_live.cfg")


WHEEL = ("common/timer/timingwheel",)


def wheel(pid):
    @check(pid, [CS, VT, "one run loop at a time; wheels of at least two buckets; at most four goroutines besides the loop and the tasks"])
    def f(ctx):
        th = ctx.thorough()
        raced(ctx, "TestT03", 60 if th else 2)
        if pid in ("T03", "T04"):
            model(ctx, "WheelImpl", "WheelImpl%s.cfg" % ("_big" if th else ""), timeout=800)
        if th and pid == "T03":
            model(ctx, "WheelImpl", "WheelImpl_live.cfg")
        if th and pid == "T04":
            for m in ("clearfirst", "nolock", "nowake"):
                mistaken(ctx, "WheelImpl", "WheelImpl_%s.cfg" % m)
        b = build(ctx, "conc", instrument=WHEEL)
        d = drives(ctx, b, "Test" + pid, n=16000 if th else 4000, ln=8 if th else 6)
        validate(ctx, "TraceLinTimingWheel", "TraceLinTimingWheel.cfg", d.out, shards=7)


for _p in ("T03", "T04", "T05", "T06"):
    wheel(_p)


FAKE = "the SQL dialect and transactions of the in-memory database stand for those of a real one; a value is compared by its text"


def database(pid, kind, cap, quick, thorough):
    @check(pid, [FAKE])
    def f(ctx):
        th = ctx.thorough()
        b = build(ctx, "database")
        w = gen_walks(ctx, "MCDatabase", "MCDatabase_%s.cfg" % kind, cap=None if th else cap)
        n, ln = thorough if th else quick
        d = drive(ctx, b, "Test" + pid, walks=w, n=n, ln=ln)
        validate(ctx, "TraceDatabase", "TraceDatabase.cfg", d.out, heap="4g", shards=7)
    return f


database("D01", "ins", 15000, (300, 14), (8000, 20))
database("D02", "upd", None, (300, 14), (8000, 20))
database("D03", "one", None, (400, 25), (8000, 40))
