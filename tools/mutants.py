#!/usr/bin/env python3
"""mutants.py WORKERS PER_FILE SEED [FILE...]: sampled small changes to a copy of /repo, and which checks see them.

Prints one line per change that builds: CAUGHT/MISSED/ERROR file:line kind old -> new [check].
A change that is MISSED has to be read: it may change no behaviour."""
import json, os, random, shutil, subprocess, sys, queue, threading
V = "/verif"
SLOW = {"T03": 9, "T04": 8, "T06": 7, "T05": 6, "C10": 8, "L06": 9, "D01": 8, "T01": 8, "T02": 7, "U01": 6, "M01": 5, "D03": 4}
nw, per, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.go"], text=True).split()
files = [f for f in files if not f.endswith("_test.go")]
if sys.argv[4:]:
    files = [f for f in files if any(a in f for a in sys.argv[4:])]
by = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        by.setdefault(f, []).append(p["id"])
out = subprocess.check_output(["/tmp/mutate"] + files, cwd="/repo", text=True)
per_file = {}
for l in out.splitlines():
    m = json.loads(l)
    per_file.setdefault(m["file"], []).append(m)
r = random.Random(seed)
todo = []
for f, ms in per_file.items():
    r.shuffle(ms)
    todo += ms[:per * 3]
q = queue.Queue()
count = {}
r.shuffle(todo)
for m in todo:
    q.put(m)
lock = threading.Lock()
def work(i):
    d = "/tmp/mw%d" % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        f = m["file"]
        with lock:
            if count.get(f, 0) >= per:
                continue
        src = open("/repo/" + f, "rb").read()
        try:
            open(d + "/" + f, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
            if subprocess.run(["go", "build", "./..."], cwd=d, stdout=-3, stderr=-3).returncode:
                continue
            with lock:
                if count.get(f, 0) >= per:
                    continue
                count[f] = count.get(f, 0) + 1
            res, who = "MISSED", ""
            for c in sorted(by.get(f, []), key=lambda c: SLOW.get(c, 0)):
                p = subprocess.run(["timeout", "900", V + "/check", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=d))
                if p.returncode == 1:
                    res, who = "CAUGHT", c
                    break
                if p.returncode:
                    res, who = "ERROR", who + " %s rc=%d %s" % (c, p.returncode, p.stdout.strip().splitlines()[-1:])
            line = src.splitlines()[m["line"] - 1].decode().strip()
            with lock:
                print(res, "%s:%d" % (f, m["line"]), m["kind"], repr(m["old"][:50]), "->", repr(m["new"][:60]), "|", line[:90], "|", who, flush=True)
        finally:
            open(d + "/" + f, "wb").write(src)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", sum(count.values()))
