#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]
Dump the compiler's IR of the crate as it stands, decide the property's obligations on it, report."""
import argparse, json, os, re, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def part(job):
    pid, name = job
    from rulekit import Report, Stuck
    import registry
    rep = Report(pid)
    t = time.time()
    try:
        dict(registry.parts(pid))[name](rep, MIR)
    except Stuck as e:
        rep.undecided.append("the analysis does not follow the code at: %s" % str(e)[:600])
    except KeyError as e:
        rep.undecided.append("the obligations cannot be placed: %s" % str(e)[:600])
    except Exception:
        tb = traceback.format_exc().strip().splitlines()
        rep.undecided.append("the analysis failed: " + " / ".join(x.strip() for x in tb[-5:])[:800])
    st = {}
    fns, summ, hav = set(), set(), {}
    for E in rep.engines:
        fns |= E.stats["functions"]
        summ |= set(E.stats.get("summaries", ()))
        for k, v in E.stats["havoc_calls"].items():
            hav[k] = hav.get(k, 0) + (v if isinstance(v, int) else 1)
        for k in ("calls", "blocks", "joins", "loops", "loop_rounds"):
            st[k] = st.get(k, 0) + E.stats.get(k, 0)
    return {"name": name, "obl": rep.obl, "viol": rep.viol, "paths": rep.paths, "assumed": rep.assumed, "notes": rep.notes, "undecided": rep.undecided,
            "stats": st, "functions": sorted(fns), "summaries": sorted(summ), "uninterpreted": hav, "wall": round(time.time() - t, 2)}


def main():
    global MIR
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--mir")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.environ["VERIF_TIER"] = a.tier
    pid = a.pid
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    if pid not in registry.RULES:
        print("no check for", pid)
        return 2
    if a.mir:
        path = a.mir
    else:
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        fd, path = tempfile.mkstemp(prefix="mir.", suffix=".json", dir=os.path.join(ROOT, "build"))
        os.close(fd)
        r = subprocess.run(["bash", os.path.join(ROOT, "tools", "mirdump.sh"), a.repo, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            os.unlink(path)
            print("cannot compile %s:\n%s" % (a.repo, r.stdout[-2500:]))
            return 2
    import mir
    MIR = mir.Mir(path)
    if not a.mir:
        os.unlink(path)
    t1 = time.time()
    jobs = [(pid, n) for n, _ in registry.parts(pid)]
    if len(jobs) == 1:
        res = [part(jobs[0])]
    else:
        with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            res = pool.map(part, jobs, chunksize=1)
    # ---------------------------------------------------------------- report
    known = known_findings(pid)
    viol, seen = [], set()
    for r in res:
        for key, where, text in r["viol"]:
            if key not in seen:
                seen.add(key)
                viol.append((key, where, text))
    new = [v for v in viol if v[0] not in known]
    obl = [o for r in res for o in r["obl"]]
    distinct = {}
    for rule, where, ok in obl:
        distinct.setdefault((rule, where), [0, 0])
        distinct[(rule, where)][0 if ok else 1] += 1
    functions = sorted({f for r in res for f in r["functions"]})
    undecided = [(r["name"], t) for r in res for t in r["undecided"]]
    if not obl and not undecided:
        new.append(("empty@" + pid, "-", "no obligation was generated: the code this property is about was not found"))
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    unint = {}
    for r in res:
        for k, v in r["uninterpreted"].items():
            unint[k] = unint.get(k, 0) + v
    info = registry.CHECKS.get(pid, {})
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": info.get("level", "other"), "wall_s": round(time.time() - t0, 2),
          "coverage": {
              "explanation": info.get("explain", info.get("technique", "")) ,
              "rule": info.get("rule", info.get("technique", "")),
              "obligations": len(obl), "discharged": sum(1 for o in obl if o[2]),
              "distinct_obligations": len(distinct), "paths": sum(r["paths"] for r in res),
              "functions_analysed": len(functions), "functions": functions[:200],
              "call_sites_followed": tot.get("calls", 0), "blocks_interpreted": tot.get("blocks", 0), "joins": tot.get("joins", 0),
              "loops_closed": tot.get("loops", 0), "loop_rounds": tot.get("loop_rounds", 0),
              "summarised_functions": sorted({f for r in res for f in r["summaries"]}),
              "uninterpreted_calls": dict(sorted(unint.items())[:80]),
              "parts": [{"name": r["name"], "obligations": len(r["obl"]), "paths": r["paths"], "wall_s": r["wall"]} for r in res],
              "samples": [{"rule": k[0], "where": k[1], "discharged": v[0], "failed": v[1]} for k, v in sorted(distinct.items())[:60]],
              "assumptions": sorted({x for r in res for x in r["assumed"]}),
              "known_findings": sorted(k for k, _, _ in viol if k in known),
              "undecided": [{"part": n, "why": t} for n, t in undecided],
              "violations": [{"key": k, "where": w, "what": t} for k, w, t in new],
          }}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", pid + ".json")
    json.dump(ev, open(evp + ".tmp", "w"), indent=1)
    os.replace(evp + ".tmp", evp)
    for k, w, t in viol:
        if k in known:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, k, w, known[k]))
    print("%s: %d obligations (%d distinct) on %d paths through %d functions, %d discharged; dump %.1f s, analysis %.1f s"
          % (pid, len(obl), len(distinct), ev["coverage"]["paths"], len(functions), ev["coverage"]["discharged"], t1 - t0, time.time() - t1))
    for n, t in undecided:
        print("UNDECIDED property=%s part=%s %s" % (pid, n, t[:500]))
    if new:
        rp = os.path.join(ROOT, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, w, t in new:
                f.write("%s\n  at %s\n  %s\n" % (k, w, t))
        for k, w, t in new[:20]:
            print("  %s at %s: %s" % (k, w, t[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 2 if undecided and a.tier == "thorough" else 0


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            mm = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if mm and mm.group(1) == pid:
                out[mm.group(2)] = mm.group(3)
    return out


if __name__ == "__main__":
    sys.exit(main())
