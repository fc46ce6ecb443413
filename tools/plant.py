"""Write planted bugs into /verif/seeded and confirm them.  Not used by any check.

plant(id, property, edits, demo, needs, breaks): edits = [(file, old, new)], demo = a Go test body (package zzdemo),
confirm: applies, builds, stable tests pass, demo fails with it and passes without.
usage: plant.py FILE.py...   (each file calls plant());  plant.py --check ID...  runs the property's check on each
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
DEMO = '''#!/bin/bash
# run in /repo: exit 0 when the property holds on the demonstrated history
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t/"
export TMPDIR="$t"
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
go test -c -vet=off -modfile "$t/go.mod" -overlay "$t/o.json" RACE -o "$t/demo.test" ./zzdemo || exit 1
cd "$t" && ./demo.test -test.timeout 200s
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    assert sh("git -C " + R + " status --porcelain").stdout.strip() == "", "repo not clean"


def confirm(d):
    """None when good, else what is wrong."""
    clean()
    base = sh("bash %s/demo.sh" % d, cwd=R)
    if base.returncode:
        return "demo fails on the unchanged tree\n" + base.stdout[-1500:] + base.stderr[-500:]
    if sh("git -C " + R + " apply %s/patch.diff" % d).returncode:
        return "patch does not apply"
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build\n" + b.stderr
        sh("bash /opt/vp/test.sh /tmp/plant-out.json")
        res = json.load(open("/tmp/plant-out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = res.get("passed") or [k for k, v in res.items() if v == "passed"]
        miss = [s for s in stable if s not in passed]
        if miss:
            return "stable tests fail: %s" % miss
        x = sh("bash %s/demo.sh" % d, cwd=R)
        if x.returncode == 0:
            return "demo passes with the change"
    finally:
        sh("git -C " + R + " checkout -- .")
    return None


def plant(id, prop, edits, demo, needs, breaks, race=False, imports=()):
    clean()
    d = os.path.join(V, "seeded", id)
    if os.path.exists(os.path.join(d, "meta.json")) and "--force" not in sys.argv:
        return
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("SKIP", id, f, "old text occurs", s.count(old)); shutil.rmtree(d); return
            open(p, "w").write(s.replace(old, new))
        sh("gofmt -l " + " ".join(os.path.join(R, f) for f, _, _ in edits))
        open(d + "/patch.diff", "w").write(sh("git -C " + R + " diff").stdout)
    finally:
        sh("git -C " + R + " checkout -- .")
    open(d + "/demo_test.go", "w").write("package zzdemo\n\n" + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO.replace(" RACE", " -race" if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    w = confirm(d)
    if w:
        print("DROPPED", id, w); shutil.rmtree(d)
    else:
        print("kept", id, flush=True)


def draft(id, prop, edits, demo, needs, breaks, race=False):
    only = [x[7:] for x in sys.argv if x.startswith("--only=")]
    if only and id not in only[0].split(","):
        return
    clean()
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("SKIP", id, f, "old text occurs", s.count(old)); return
            open(p, "w").write(s.replace(old, new))
        r = sh("go build ./... && go vet ./... 2>/dev/null; true", cwd=R)
        r = sh("timeout 900 ./check %s" % prop, cwd=V)
        ok = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
        print("%-28s %s %s rc=%d %s" % (id, prop, "CAUGHT" if ok else "MISSED", r.returncode,
                                        "" if ok else (r.stdout + r.stderr)[-600:]), flush=True)
    finally:
        sh("git -C " + R + " checkout -- .")


def run_check(id):
    d = os.path.join(V, "seeded", id)
    m = json.load(open(d + "/meta.json"))
    clean()
    if sh("git -C " + R + " apply %s/patch.diff" % d).returncode:
        print(id, "DOES NOT APPLY"); return
    try:
        r = sh("timeout 900 ./check %s" % m["property"], cwd=V)
        ok = r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout
        print("%-28s %s %s rc=%d %s" % (id, m["property"], "CAUGHT" if ok else "MISSED", r.returncode,
                                        "" if ok else (r.stdout + r.stderr)[-600:]), flush=True)
    finally:
        sh("git -C " + R + " checkout -- .")


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if "--check" in sys.argv:
        for i in a or sorted(os.listdir(os.path.join(V, "seeded"))):
            run_check(i)
    elif "--confirm" in sys.argv:
        for i in a or sorted(os.listdir(os.path.join(V, "seeded"))):
            print(i, confirm(os.path.join(V, "seeded", i)) or "ok", flush=True)
    elif "--draft" in sys.argv:
        # run the checks against drafted plants in a copy (VERIF_REPO)
        for f in a:
            exec(compile(open(f).read(), f, "exec"), {"plant": draft})
    else:
        for f in a:
            exec(compile(open(f).read(), f, "exec"), {"plant": plant})
