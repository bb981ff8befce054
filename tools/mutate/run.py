#!/usr/bin/env python3
"""Measures the checks' sensitivity: python3 run.py OUT.tsv [WORKERS [SCALE]]
Applies every mutant of mutate list /repo to a scratch copy, keeps those that
compile and pass the tests, and runs the checks on them until one objects."""
import os, subprocess, sys, shutil, queue, threading, re
V = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
OUT = sys.argv[1]; W = int(sys.argv[2]) if len(sys.argv) > 2 else 4
SCALE = sys.argv[3] if len(sys.argv) > 3 else "0.1"
ONLY = set(map(int, sys.argv[4].split(","))) if len(sys.argv) > 4 else None
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
D = "/tmp/mutants"; os.makedirs(D, exist_ok=True)
def run(cmd, cwd, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
rc, o = run(["go", "build", "-o", D + "/mutate", "."], V + "/tools/mutate"); assert rc == 0, o
rc, o = run([D + "/mutate", "list", "/repo"], "/"); assert rc == 0, o
muts = re.findall(r"^(\d+)\t(\S+)\t(.*)$", o, re.M)
FIRST = {"block/BuildM": ["C10", "C11"], "block/GetM": ["C11", "C10"], "block/": ["C10"], "crypto/E": ["C15", "C14"], "crypto": ["C01"], "script/OpP": ["C16", "C17"], "script/R": ["C08"],
  "script/address/B": ["C13"], "script/address": ["C12"], "script/Script": ["C16", "C18", "C17", "C12", "C06"], "script/U": ["C04"], "transaction/SignatureHash": ["C05", "C07"],
  "transaction/Transaction": ["C18", "C01", "C07"], "transaction/input": ["C03", "C18", "C02"], "transaction/output": ["C03", "C18", "C17", "C05"], "transaction/signature": ["C06", "C07", "C04"], "utils/V": ["C03", "C01"], "utils/B": ["C18", "C08"]}
ALL = ["C%02d" % i for i in range(1, 19)]
done = set()
if os.path.exists(OUT):
    done = {int(l.split("\t")[0]) for l in open(OUT)}
lock = threading.Lock(); q = queue.Queue()
for n, loc, what in muts:
    if int(n) not in done and (ONLY is None or int(n) in ONLY): q.put((int(n), loc, what))
def worker(k):
    w = "%s/w%d" % (D, k); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["cp", "-r", V + "/sim", w + "/src"]); subprocess.run(["cp", V + "/known-findings.txt", w])
    subprocess.run(["sed", "-i", "s#=> /repo#=> %s/repo#" % w, w + "/src/go.mod"])
    assert run(["go", "build", "-o", w + "/instr", "./cmd/instr"], w + "/src")[0] == 0
    while True:
        try: n, loc, what = q.get_nowait()
        except queue.Empty: return
        shutil.rmtree(w + "/repo", ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"])
        run([D + "/mutate", "apply", w + "/repo", str(n)], "/")
        res = None
        rc, o = run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], w + "/repo", 120)
        if rc != 0: res = "build" if "build failed" in o or "setup failed" in o else "tests"
        if res is None:
            rc, o = run([w + "/instr", "-repo", w + "/repo", "-out", w + "/i", "-mode", "full", "-base", V + "/tools/literals.json"], w)
            rc, o = run(["go", "build", "-overlay", w + "/i/overlay.json", "-ldflags=-checklinkname=0", "-o", w + "/sim", "./cmd/sim"], w + "/src")
            if rc != 0: res = "simbuild"
        if res is None:
            pri = []
            for p, ids in FIRST.items():
                if loc.startswith(p): pri = ids; break
            for id in pri + [i for i in ALL if i not in pri]:
                a = ["run", "-prop", id, "-dir", w, "-verif", w, "-sites", w + "/i/sites.json", "-novel", w + "/i/novel.json", "-scale", SCALE, "-workers", "2", "-fast"]
                if id == "C09": a += ["-norace"]
                rc, o = run([w + "/sim"] + a, w)
                if rc == 1: res = "caught " + o.split("CAUGHT ", 1)[-1].strip().replace("\n", " ")[:200]; break
                if rc != 0: res = "error %s %s" % (id, o[-200:].replace("\n", " ").replace("\t", " ")); break
            else: res = "SURVIVED"
        with lock:
            open(OUT, "a").write("%d\t%s\t%s\t%s\n" % (n, loc, what.replace("\n", " "), res))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(D, ignore_errors=True)
