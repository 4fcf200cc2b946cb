#!/usr/bin/env python3
"""seed.py confirm ID...   in a scratch copy: patch applies, builds, stable tests pass, demo 0 before / !=0 after
   seed.py detect ID...    apply to /repo, run the property's quick check, undo
   seed.py new ID PROP     turn /repo's uncommitted diff into seeded/ID/patch.diff and undo it"""
import sys, os, subprocess, json, shutil, time, tempfile
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def confirm(i):
    d = f"{V}/seeded/{i}"
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = f"{w}/repo"
        sh(f"cp -a /repo {r} && rm -rf {r}/_build")
        demo = f"{w}/demo"; sh(f"mkdir {demo} && cp {d}/* {demo}/ && rm -f {demo}/*.diff {demo}/meta.json")
        r0 = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
        a = sh(f"git -C {r} apply {d}/patch.diff")
        if a.returncode: return f"{i}: patch does not apply {a.stdout}"
        for f in ("build.sh", "test.sh", "run_doctest.py", "results.py"):
            s = open(f"/opt/vp/{f}").read().replace("/repo", r).replace("/opt/vp/build.sh", f"{w}/build.sh").replace("/opt/vp/run_doctest.py", f"{w}/run_doctest.py")
            open(f"{w}/{f}", "w").write(s)
        t = sh(f"bash {w}/test.sh {w}/out.json")
        try: p = set(json.load(open(f"{w}/out.json"))["passed"])
        except Exception as e: return f"{i}: tests did not run {t.stdout[-2000:]}"
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in p]
        r1 = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
        good = not miss and r0.returncode == 0 and r1.returncode != 0
        return f"{i}: {'OK' if good else 'BAD'} demo {r0.returncode}->{r1.returncode} missing tests {len(miss)} {miss[:3]} {'' if r0.returncode==0 else r0.stdout[-500:]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)
def detect(i, prop=None):
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: return f"{i}: no apply {a.stdout}"
    try:
        t = time.time()
        r = sh(f"cd {V} && python3-vt engine/check.py {prop}")
        return f"{i}: {prop} exit {r.returncode} {time.time()-t:.0f}s " + " | ".join(l for l in r.stdout.split("\n") if l)[:500]
    finally:
        sh("git -C /repo checkout -- .")
if sys.argv[1] == "confirm":
    for i in sys.argv[2:]: print(confirm(i), flush=True)
elif sys.argv[1] == "detect":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: print(detect(i), flush=True)
elif sys.argv[1] == "new":
    i, prop = sys.argv[2:4]
    os.makedirs(f"{V}/seeded/{i}", exist_ok=True)
    open(f"{V}/seeded/{i}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    sh("git -C /repo checkout -- .")
    print(open(f"{V}/seeded/{i}/patch.diff").read())
