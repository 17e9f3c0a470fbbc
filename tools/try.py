#!/usr/bin/env python3
"""development aid: runs the jobs of a property (optionally those whose name contains a string) and prints every violation, without replays"""
import concurrent.futures as cf, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hv"))
import checks, run
pid, only = sys.argv[1], sys.argv[2:]
tier = "quick"
if only and only[0] == "-t":
    tier, only = "thorough", only[1:]
jobs = [j for j in checks.SPECS[pid]["jobs"] if (j.tier == "quick" or tier == "thorough") and all(o in j.name() for o in only)]
lp, p, w, seen = cf.ThreadPoolExecutor(8), cf.ThreadPoolExecutor(8), tempfile.mkdtemp(), set()
for j, f in [(j, p.submit(run.run_job, j, lp, w)) for j in jobs]:
    r = f.result()
    x = r.get("res", {})
    err = r.get("error", "")
    if err:
        ls = [l for l in err.splitlines() if "rror" in l or "undefined" in l][:6] or [err[-300:]]
        err = "\n   ".join(l[:300] for l in ls)
        err = "(same error)" if err in seen else seen.add(err) or err
    print("%-75s %5.1fs p %s st %s ck %s q %s sol %ss %s" % (j.name()[:75], r["wall"], x.get("paths"), x.get("steps"), x.get("checks"), x.get("queries"), x.get("solver_seconds"), err or (x.get("incomplete_why", "") + x.get("fatal", ""))[:400]))
    for v in x.get("violations", []):
        print("    ", v["kind"], v["msg"][:150], "@", v["where"][:160], " ".join("%s%s=%s" % tuple(m) for m in v["model"] if "#i" in m[0] or len(v["model"]) < 9)[:160])
    if x and not x["violations"]:
        for t in j.reach:
            if t not in x["reached"]:
                print("     VACUOUS", t)
