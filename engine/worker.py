#!/usr/bin/env python3-vt
"""verify one unit:  worker.py FILE.ll UNIT JSON-OPTS  -> one JSON line on stdout"""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from ir import Module, IRError
from vcg import VCG, Unsupported, Timeout, Restart


def main():
    path, unit, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3] if len(sys.argv) > 3 else "{}")
    t0 = time.time()
    opts["deadline"] = t0 + opts.get("budget", 300)
    mem = opts.get("mem_mb", 6000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
    except Exception:
        pass
    z3.set_param("smt.random_seed", opts.get("seed", 1) & 0x7FFFFFFF)
    v = None
    status, reason = "ok", ""
    try:
        m = Module(open(path).read())
        opts["nsw_poison"] = set()
        while True:
            v = VCG(m, opts)
            try:
                v.run("@" + unit)
                break
            except Restart:
                pass
    except Timeout:
        status, reason = "timeout", "time budget exhausted"
    except (Unsupported, IRError) as e:
        status, reason = "unsupported", str(e)
        if opts.get("tb"):
            traceback.print_exc()
    except MemoryError:
        status, reason = "timeout", "memory budget exhausted"
    except z3.Z3Exception as e:
        status, reason = "unsupported", "z3: " + str(e)
        if opts.get("tb"):
            traceback.print_exc()
    except Exception as e:
        status, reason = "unsupported", "internal: " + repr(e)
        if opts.get("tb"):
            traceback.print_exc()
    out = {"unit": unit, "status": status, "reason": reason, "wall": round(time.time() - t0, 2)}
    if v is not None:
        out.update({
            "obl": [[k, l, o["vcs"], o["ok"], o["trivial"], o["fail"], o["unknown"]] for (k, l), o in v.obl.items()],
            "failures": v.failures[:40], "undecided": v.undecided[:40], "covered": v.covered,
            "paths": v.npaths, "ended_ok": v.ended_ok, "queries": v.nq, "cvc5": v.ncvc5, "solver_s": round(v.tq, 2),
            "max_query_s": round(v.maxquery, 2), "functions": v.functions, "insts": v.inst_count,
            "invariants": v.inv_report})
        if status == "ok" and v.failures:
            out["status"] = "failed"
        elif status == "ok" and v.undecided:
            out["status"] = "undecided"
        elif v.failures:
            out["status"] = "failed"
    sys.stdout.write(json.dumps(out) + "\n")


main()
