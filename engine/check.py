#!/usr/bin/env python3-vt
"""Driver of the checks.

  check.py PROPERTY [--tier quick|thorough]        decide a property on /repo's current tree
  check.py --unit FILE UNIT                        debug: verify one unit, verbose
  check.py --replay REPLAYFILE                     re-execute a recorded counterexample natively

Exit 0: every obligation discharged (or, for units outside the verifier's reach, the bounded stand-in
found nothing - reported as such).  Exit 1: VIOLATION.  Exit 2: the machinery itself could not run."""
import sys, os, json, time, subprocess, re, shutil, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OPT = "/usr/lib/llvm-18/bin/opt"
PY = "/opt/veriftools/pyvenv/bin/python3" if os.path.exists("/opt/veriftools/pyvenv/bin/python3") else "python3-vt"
PASSES = ("always-inline,cgscc(inline),function(sroa,simplifycfg,early-cse,loop-simplify,loop(indvars,"
          "loop-unroll-full),sroa,simplifycfg,early-cse),globaldce")
PASSES_NOUNROLL = "always-inline,cgscc(inline),function(sroa,simplifycfg,early-cse),globaldce"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def load_spec():
    return json.load(open(os.path.join(ROOT, "engine", "checks.json")))


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def compile_ir(src, flags, out):
    base = ["clang++", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-rtti",
            "-fsanitize=unreachable,return", "-fsanitize-trap=all", "-gline-tables-only", "-w",
            "-S", "-emit-llvm", "-I" + REPO + "/include", "-I" + ROOT + "/contracts", "-ftemplate-depth=2000"]
    r = sh(base + flags + [src, "-o", out + ".0.ll"], timeout=600)
    if r.returncode:
        return "clang: " + "\n".join([l for l in r.stderr.split("\n") if "error:" in l][:20])[:4000]
    passes = PASSES_NOUNROLL if "-DVC_NOUNROLL" in flags else PASSES
    r = sh([OPT, "-S", "-passes=" + passes, "-inline-threshold=2000", "-unroll-threshold=3000",
            "-unroll-full-max-count=32", out + ".0.ll", "-o", out], timeout=600)
    if r.returncode:
        return "opt: " + r.stderr[-4000:]
    os.unlink(out + ".0.ll")
    return None


def compile_native(src, flags, out):
    flags = [f for f in flags if f != "-DVC_NOUNROLL"]
    r = sh(["clang++", "-std=c++20", "-O1", "-g", "-fno-exceptions", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined", "-rdynamic", "-w", "-DVC_NATIVE", "-ftemplate-depth=2000",
            "-I" + REPO + "/include", "-I" + ROOT + "/contracts"] + flags +
           [src, os.path.join(ROOT, "engine", "native.cpp"), "-ldl", "-o", out], timeout=600)
    return None if r.returncode == 0 else r.stderr[-3000:]


def units_of(ll):
    return sorted(set(re.findall(r"^define [^@]*@(vu_\w+)\(", open(ll).read(), re.M)))


def run_worker(ll, unit, opts):
    try:
        r = sh([PY, os.path.join(ROOT, "engine", "worker.py"), ll, unit, json.dumps(opts)],
               timeout=opts.get("budget", 300) + 60)
    except subprocess.TimeoutExpired:
        return {"unit": unit, "status": "timeout", "reason": "worker killed", "wall": opts.get("budget", 300) + 60}
    try:
        return json.loads(r.stdout.strip().split("\n")[-1])
    except Exception:
        return {"unit": unit, "status": "unsupported", "reason": "worker died: " + r.stderr[-500:], "wall": 0}


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_segv=1",
           UBSAN_OPTIONS="print_stacktrace=0")


def native_run(exe, unit, runs, seed, trace, out, timeout=60):
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = sh([exe, unit, str(runs), str(seed), trace or "", out], timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return None, ""
    if os.path.exists(out):
        return True, r.stderr[-3000:]
    if r.returncode not in (0, 1, 3):
        with open(out, "w") as f:
            f.write(f"UNIT {unit}\nFAIL crash exit={r.returncode} seed={seed}\n{r.stderr[-3000:]}\n")
        return True, r.stderr[-3000:]
    return False, r.stdout


def write_trace(path, trace):
    with open(path, "w") as f:
        for t in trace:
            if t[0] == "nd":
                f.write(f"nd {t[1]} {t[2]}\n")
            elif t[0] == "uf":
                f.write(f"uf {t[1]} {len(t[2])} {' '.join(map(str, t[2]))} {t[3]}\n")
            elif t[0] == "arr":
                f.write(f"arr {t[1]} {len(t[2])} {' '.join(map(str, t[2]))}\n")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = load_spec()[prop]
        self.bd = os.path.join(ROOT, ".build", prop)
        shutil.rmtree(self.bd, ignore_errors=True)
        os.makedirs(self.bd)
        self.rd = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(self.rd, exist_ok=True)
        self.t0 = time.time()

    def files(self):
        for i, f in enumerate(self.spec["files"]):
            if isinstance(f, str):
                f = {"src": f}
            name = f.get("name", f["src"].rsplit(".", 1)[0])
            yield name, os.path.join(ROOT, "contracts", f["src"]), f.get("flags", []), f

    def run(self):
        files = list(self.files())
        errs = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {n: ex.submit(compile_ir, src, fl, os.path.join(self.bd, n + ".ll")) for n, src, fl, _ in files}
            for n, fu in futs.items():
                e = fu.result()
                if e:
                    errs[n] = e
        if errs:
            for n, e in errs.items():
                print(f"ERROR: contract file {n} does not compile against /repo's current tree\n{e}")
            return 2
        tasks = []
        for n, src, fl, f in files:
            ll = os.path.join(self.bd, n + ".ll")
            us = units_of(ll)
            if not us:
                print("ERROR: no units in", n)
                return 2
            for u in us:
                tasks.append((n, ll, u, f))
        budget = self.spec.get("budget", 420 if self.tier == "quick" else 1800)
        self.limit = 620 if self.tier == "quick" else 10 ** 6   # proofs stop here, counterexample search by +200 s
        opts = {"budget": budget, "seed": self.seed, "qtimeout": 60000}
        results = {}
        heavy = self.spec.get("heavy", [])
        tasks.sort(key=lambda t: 0 if t[2] in heavy else 1)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            def one(ll, u):
                left = self.limit - (time.time() - self.t0)
                if left < 5:
                    return {"unit": u, "status": "timeout", "reason": "time budget of the check exhausted", "wall": 0}
                return run_worker(ll, u, dict(opts, budget=min(budget, left)))
            fs = {ex.submit(one, ll, u): (n, u) for n, ll, u, f in tasks}
            for fu in cf.as_completed(fs):
                results[fs[fu]] = fu.result()
        self.results = results
        bad = {k: r for k, r in results.items() if r["status"] != "ok"}
        # vacuity: every unit must have reached its end and produced ensures obligations; covers must hold
        vac = []
        for k, r in results.items():
            if r["status"] != "ok":
                continue
            if not r["ended_ok"] or not any(o[0] == "ensures" for o in r["obl"]):
                vac.append((k, "no path reaches the end of the unit"))
            for l, c in r["covered"].items():
                if l.startswith("cover:") and not c:
                    vac.append((k, l))
        violations, notes = [], []
        known = []
        if bad or vac:
            fl = {n: (src, flg) for n, src, flg, _ in files}
            names = sorted({k[0] for k in bad} | {k[0][0] for k in vac})
            with cf.ThreadPoolExecutor(JOBS) as ex:
                nat = dict(zip(names, ex.map(lambda n: compile_native(fl[n][0], fl[n][1], os.path.join(self.bd, n + ".exe")), names)))
            for n, e in nat.items():
                if e:
                    print(f"note: native build of {n} failed: {e[-600:]}")
            self.found = False
            with cf.ThreadPoolExecutor(JOBS) as ex:
                cex = list(ex.map(lambda kr: self.search(kr[0], kr[1], nat), list(bad.items())))
            for (k, r), c in zip(bad.items(), cex):
                n, u = k
                if c is not None:
                    violations.append((k, r, c))
                elif r["status"] in ("failed", "unsupported", "undecided"):
                    violations.append((k, r, None))
                else:
                    notes.append((k, r))
            for k, what in vac:
                violations.append((k, dict(results[k], vacuous=what), None))
        self.native_cross = None
        if self.tier == "thorough" and not violations:
            cv = self.cross(files)
            violations.extend(cv)
        rc = 1 if violations else 0
        self.report(violations, notes, tasks)
        return rc

    def search(self, k, r, nat):
        """concrete counterexample for a unit whose proof did not go through -> replay path or None"""
        n, u = k
        if nat.get(n):
            return None
        exe = os.path.join(self.bd, n + ".exe")
        out = os.path.join(self.bd, f"{n}.{u}.cex")
        tr = os.path.join(self.bd, f"{n}.{u}.trace")
        left = lambda: self.limit + 200 - (time.time() - self.t0)
        tries = [f["trace"] for f in r.get("failures", []) if f.get("trace")]
        tries.sort(key=len)
        for t in tries[:12]:
            if left() < 0:
                return None
            write_trace(tr, t)
            ok, log = native_run(exe, u, 20, self.seed, tr, out)
            if ok:
                self.found = True
                return out, log
        ll = os.path.join(self.bd, n + ".ll")

        def steps():
            yield lambda: self.random(exe, u, out, 6)
            for depth, ln, bud in ((2, 3, 30), (5, 5, 60)):
                yield lambda: self.bounded(exe, ll, u, tr, out, depth, ln, min(bud, left()))
            yield lambda: self.random(exe, u, out, 30 if self.tier == "quick" else 120)
        for st in steps():
            # one replayable input is enough for a verdict: units after the first only get the cheap attempts
            if self.found or left() < 5:
                return None
            ok, log = st()
            if ok:
                self.found = True
                return out, log
        return None

    def bounded(self, exe, ll, u, tr, out, depth, ln, bud):
        """bounded symbolic execution, used only to find a concrete input for an obligation that already failed"""
        b = run_worker(ll, u, {"bmc": depth, "len_bound": ln, "budget": bud, "stop_on_fail": True, "seed": self.seed})
        for f in b.get("failures", [])[:12]:
            write_trace(tr, f["trace"])
            ok, log = native_run(exe, u, 20, self.seed, tr, out)
            if ok:
                return ok, log
        return False, ""

    def random(self, exe, u, out, secs):
        t = time.time()
        runs, seed = 2000, self.seed * 1000003
        while time.time() - t < secs:
            t1 = time.time()
            ok, log = native_run(exe, u, runs, seed, None, out, timeout=max(5, secs))
            if ok:
                return True, log
            seed += runs
            if time.time() - t1 < 1:
                runs *= 2
        return False, ""

    def cross(self, files):
        """thorough only: the native interpretation must agree with the proof (engine cross-validation)"""
        bad = []
        total = 0

        def one(f):
            n, src, fl, _ = f
            e = compile_native(src, fl, os.path.join(self.bd, n + ".exe"))
            res = []
            if e:
                return res
            for u in units_of(os.path.join(self.bd, n + ".ll")):
                out = os.path.join(self.bd, f"{n}.{u}.cex")
                ok, log = self.random(os.path.join(self.bd, n + ".exe"), u, out, 5)
                if ok:
                    res.append(((n, u), {"unit": u, "status": "failed", "reason": "native execution contradicts the proof",
                                         "failures": []}, (out, log)))
            return res
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, files):
                bad.extend(r)
        self.native_cross = True
        return bad

    def report(self, violations, notes, tasks):
        res = self.results
        tot = {"vcs": 0, "ok": 0, "trivial": 0, "fail": 0, "unknown": 0}
        bykind = {}
        fns = set()
        solver = 0.0
        queries = 0
        for r in res.values():
            for k, l, a, b, c, d, e in r.get("obl", []):
                for kk, x in zip(tot, (a, b, c, d, e)):
                    tot[kk] += x
                bk = bykind.setdefault(k, {"obligations": 0, "discharged": 0})
                bk["obligations"] += a
                bk["discharged"] += b
            fns |= set(r.get("functions", {}))
            solver += r.get("solver_s", 0)
            queries += r.get("queries", 0)
        lexyfns = set()
        names = sorted(f[1:] for f in fns)
        try:
            dem = sh(["c++filt"], input="\n".join(names)).stdout.split("\n")
        except Exception:
            dem = names
        proved = [f"{n}:{u}" for (n, u), r in sorted(res.items()) if r["status"] == "ok"]
        bounded = [{"unit": f"{n}:{u}", "why": r["status"] + ": " + r.get("reason", ""), "bound": "native search of the same contract"}
                   for (n, u), r in notes]
        ens = []
        for (n, u), r in sorted(res.items()):
            ens.append({"unit": f"{n}:{u}", "status": r["status"], "paths": r.get("paths", 0),
                        "ensures": [[l[:120], a, b] for k, l, a, b, c, d, e in r.get("obl", []) if k == "ensures"],
                        "other_obligations": sum(o[2] for o in r.get("obl", []) if o[0] != "ensures"),
                        "loops_with_inferred_invariants": len(r.get("invariants", {})), "wall_s": r.get("wall", 0)})
        cov = {"obligations": tot["vcs"], "discharged": tot["ok"],
               "checker_cmd": f"{PY} engine/check.py {self.prop} --tier {self.tier}",
               "trusted_base": [
                   "clang 18 front end and the LLVM inliner/SROA/simplifycfg/early-cse/full-unroll passes (C++ -> IR)",
                   "engine/ir.py + engine/vcg.py (VC generation from that IR)", "z3 (every obligation)",
                   "the contract text in contracts/*.cpp, contracts/*.hpp"],
               "closed_by_constant_folding": tot["trivial"], "by_kind": bykind, "solver": "z3 (python z3-solver)",
               "solver_s": round(solver, 1), "solver_queries": queries, "units_proved": len(proved),
               "units": ens, "functions_executed_symbolically": len(fns),
               "functions_under_contract": [d for d in dem if d][:400],
               "bounded_not_proved": bounded, "native_cross_validation": bool(self.native_cross)}
        nv = 0
        for (k, r, c) in violations:
            n, u = k
            path = os.path.join(self.rd, f"{self.prop}.{n}.{u}.txt")
            with open(path, "w") as f:
                f.write(f"property {self.prop}\nfile {n}\nunit {u}\n")
                if c is not None:
                    f.write("# concrete failing execution of the real code (native build of the same contract)\n")
                    f.write(open(c[0]).read())
                    f.write("\n# native output\n" + (c[1] or "") + "\n")
                f.write("# failed obligations\n")
                if r.get("vacuous"):
                    f.write(f"vacuity: {r['vacuous']}\n")
                for x in r.get("failures", []):
                    f.write(json.dumps(x) + "\n")
                f.write(f"# status {r['status']} {r.get('reason','')}\n")
            lab = r["failures"][0]["label"] if r.get("failures") else r.get("vacuous") or r.get("reason", "")
            print(f"failed obligation: {n}:{u}: {lab}")
            if c is not None:
                print("  replayed on the real code: " + open(c[0]).read().split("\n")[1])
            nv += 1
        concrete = [v for v in violations if v[2] is not None]
        for (k, r) in notes:
            print(f"UNDECIDED {k[0]}:{k[1]} ({r['status']}: {r.get('reason','')}); bounded stand-in found nothing")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "proof" if not notes else "other", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 1), "violations": nv}
        if notes:
            cov["explanation"] = "some units were outside the verifier's reach on this tree; see bounded_not_proved"
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violations:
            v = (concrete or violations)[0]
            path = os.path.join(self.rd, f"{self.prop}.{v[0][0]}.{v[0][1]}.txt")
            print(f"VIOLATION property={self.prop} replay={path}" + ("" if v[2] is not None else " no-failing-input-found"))
        else:
            print(f"OK property={self.prop} units={len(res)} obligations={tot['vcs']} discharged={tot['ok']} "
                  f"solver={round(solver,1)}s wall={ev['wall_s']}s")
        shutil.rmtree(self.bd, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    "x86-64 little-endian data layout, two's complement; allocation never fails; exceptions are disabled in the verified build",
    "distinct objects do not alias and have distinct addresses; pointer order across objects is unspecified",
    "termination is not proved (partial correctness); loops are cut at their inferred inductive invariants",
    "the component contracts (ghost reader, abstract sub-rules, handlers) in contracts/ are what lexy's documentation requires of user supplied types",
]


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[0] == "--unit":
        src = a[1]
        unit = a[2] if len(a) > 2 and a[2].startswith("vu_") else None
        flags = [x for x in a[2:] if x.startswith("-D")]
        bd = "/tmp/vdbg"
        os.makedirs(bd, exist_ok=True)
        ll = os.path.join(bd, os.path.basename(src) + "".join(x for x in flags if x.startswith("-D")) + ".ll")
        t = time.time()
        e = compile_ir(src, flags, ll)
        if e:
            print(e)
            return 2
        print("compiled", round(time.time() - t, 1), "s", len(open(ll).read().split("\n")), "lines")
        for u in units_of(ll):
            if unit and u != unit:
                continue
            o = {"budget": int(os.environ.get("BUDGET", "300")), "verbose": True, "tb": "-v" in a}
            if os.environ.get("BMC"):
                o.update({"bmc": int(os.environ["BMC"]), "len_bound": int(os.environ.get("LEN", "4")), "stop_on_fail": True})
            p = subprocess.run([PY, os.path.join(ROOT, "engine", "worker.py"), ll, u, json.dumps(o)], stdout=subprocess.PIPE, text=True)
            try:
                r = json.loads(p.stdout.strip().split("\n")[-1])
            except Exception:
                print(u, "DIED")
                continue
            print(u, r["status"], r["reason"], f"paths={r.get('paths')} wall={r['wall']} q={r.get('queries')} solver={r.get('solver_s')} max={r.get('max_query_s')}")
            cv = [l for l, c in r.get("covered", {}).items() if l.startswith("cover:") and not c]
            if cv:
                print("   UNCOVERED", cv)
            if "-q" not in a:
                for o_ in r.get("obl", []):
                    print("   ", o_)
            seen = set()
            for f in r.get("failures", []):
                key = (f["label"], f["where"])
                if key in seen:
                    continue
                seen.add(key)
                print("   FAIL", f["kind"], f["label"], f["where"], "modular" if f["modular"] else "concrete", str([(t if t[0]!="arr" else (t[0],t[1],t[2][:16])) for t in f["trace"][:30]])[:700])
            for x in r.get("undecided", [])[:5]:
                print("   UNDECIDED", x)
            if "-v" in a:
                for l, x in r.get("invariants", {}).items():
                    print("   LOOP", l)
                    for y in x:
                        print("      ", json.dumps(y))
        if "-n" in a:
            exe = os.path.join(bd, os.path.basename(src) + ".exe")
            e = compile_native(src, flags, exe)
            if e:
                print("native:", e)
                return 2
            for u in units_of(ll):
                if unit and u != unit:
                    continue
                ok, log = native_run(exe, u, int(os.environ.get("RUNS", "20000")), seed, None, os.path.join(bd, "out.txt"))
                print("native", u, ok, log[-300:] if not ok else open(os.path.join(bd, "out.txt")).read()[:1500] + log[-1500:])
        return 0
    if a[0] == "--replay":
        lines = open(a[1]).read().split("\n")
        prop = lines[0].split()[1]
        fname, unit = lines[1].split()[1], lines[2].split()[1]
        c = Check(prop, tier, seed)
        for n, src, fl, f in c.files():
            if n == fname:
                exe = os.path.join(c.bd, n + ".exe")
                e = compile_native(src, fl, exe)
                if e:
                    print(e)
                    return 2
                out = os.path.join(c.bd, "replay.out")
                ok, log = native_run(exe, unit, 20, seed, a[1], out)
                print(("reproduced:\n" + open(out).read() + log) if ok else "not reproduced")
                shutil.rmtree(c.bd, ignore_errors=True)
                return 1 if ok else 0
        return 2
    return Check(a[0], tier, seed).run()


if __name__ == "__main__":
    sys.exit(main())
