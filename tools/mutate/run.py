#!/usr/bin/env python3
"""run.py OUT.jsonl WORKERS DEADLINE [FILTER]: which mutants of /repo that pass its
tests do the checks find? With GUARDS set: mutants that go wrong in rare states only; PICK=n takes n at random. Works on copies under /tmp/mutate, which it removes."""
import json, os, random, subprocess, sys, threading, shutil, queue
out, workers, deadline = sys.argv[1], int(sys.argv[2]), sys.argv[3]
flt = sys.argv[4] if len(sys.argv) > 4 else ""
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
FILES = {
 "keys.go": "C12 C15", "keyboard_mode.go": "C19 C12 C17", "tty_frontend.go": "C11 C15", "backend.go": "C16 C15",
 "grapheme_reader.go": "C16 C03 C20 C08 C01 C11", "style.go": "C07 C11 C20 C05", "region.go": "C05 C06 C11 C10 C18 C01",
 "terminal.go": "C13 C14 C17 C16 C18 C10 C15 C11 C02 C12", "escapes.go": "C09 C14 C17 C19 C05 C07 C16 C04 C06 C10 C15 C01 C08",
 "screen.go": "C05 C02 C20 C18 C17 C10 C03 C06 C04 C11 C07 C01", "screen_grid.go": "C20 C02 C10 C18 C01",
}
env0 = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
subprocess.check_call(["go", "build", "-o", "/tmp/mutate-bin", here + "/main.go"], env=env0, cwd="/tmp")
muts = []
for f in sorted(os.listdir("/repo")):
    if not f.endswith(".go") or f.endswith("_test.go") or f.startswith("debug"): continue
    l = json.loads(subprocess.check_output(["/tmp/mutate-bin"] + ["-guards"] * ("GUARDS" in os.environ) + ["/repo/" + f], env=env0, cwd="/tmp"))
    muts += l or []
muts = [m for m in muts if flt in os.path.basename(m["File"]) + ":" + m["Func"]]
seen = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); seen.add((os.path.basename(r["File"]), r["Off"], r["Len"], r["Text"]))
random.Random(7).shuffle(muts)
if "PICK" in os.environ: muts = muts[:int(os.environ["PICK"])]
q = queue.Queue()
for m in muts:
    if (os.path.basename(m["File"]), m["Off"], m["Len"], m["Text"]) not in seen: q.put(m)
print(len(muts), "mutants,", q.qsize(), "to do", flush=True)
lock = threading.Lock(); fo = open(out, "a")
def work(k):
    base = f"/tmp/mutate/{k}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    subprocess.check_call(["git", "clone", "-q", verif, base + "/verif"])
    rp = base + "/repo"
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = os.path.basename(m["File"]); p = rp + "/" + f
        src = open("/repo/" + f, "rb").read()
        open(p, "wb").write(src[:m["Off"]] + m["Text"].encode() + src[m["Off"] + m["Len"]:])
        r = dict(m, killed="")
        try:
            if subprocess.run(["go", "build", "./..."], cwd=rp, env=env0, capture_output=True).returncode: r["killed"] = "build"
            elif subprocess.run(["timeout", "60", "go", "test", "-count=1", "./..."], cwd=rp, env=env0, capture_output=True).returncode: r["killed"] = "tests"
            else:
                for c in FILES.get(f, "C05 C02 C20 C18 C10 C01 C11").split():
                    e = dict(env0, VERIF_REPO=rp, VERIF_DEADLINE=deadline)
                    x = subprocess.run(["timeout", "600", base + "/verif/run.sh", c, "quick"], env=e, capture_output=True, text=True)
                    if x.returncode == 1: r["killed"] = c; break
                    if x.returncode != 0: r.setdefault("odd", []).append([c, x.returncode, x.stderr[-600:]])
        finally:
            open(p, "wb").write(src)
        if r["killed"] != "build":
            with lock: fo.write(json.dumps(r) + "\n"); fo.flush()
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
