#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--case GLOB] [--jobs N] | --replay FILE"""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
os.environ.update({"DIFF_DIFF_BACKEND": "python", "DIFF_DIFF_R": "skip", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
                   "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"})
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

def _worker(conn, prop, tier, seed):
    import warnings
    import traceback
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    sys.setrecursionlimit(5000)
    from symx import pdx, load, engine
    pdx.install()
    load.install()
    engine.start_monitor()
    num = engine.NumWorker()
    m = importlib.import_module("props." + prop.lower())
    cases = {c.name: c for c in m.cases(tier)}
    last = [0.0]
    while True:
        job = conn.recv()
        if job is None:
            num.stop()
            return
        name, budget, max_paths, skip = job

        def beat(res, where):
            # heartbeat with everything decided so far: the parent ends a worker
            # whose solver call ignores its own time limit
            now = time.time()
            if now - last[0] <= 0.5:
                conn.send(("at", name, where, None))
            else:
                last[0] = now
                r = dict(res)
                r["assumptions"] = sorted(res["assumptions"])
                conn.send(("beat", name, where, r))
        try:
            case = cases[name]
            r = engine.run_case(prop, tier, case, num, budget=case.budget or budget, max_paths=case.max_paths or max_paths, seed=seed,
                                beat=beat, skip=skip)
        except BaseException:
            r = {"case": name, "fatal": traceback.format_exc()}
        conn.send(("done", name, None, r))


def run_jobs(prop, tier, seed, jobs, n, hang, deadline, report):
    """jobs: [(name, budget, max_paths)]; runs them on n worker processes"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    queue = [(x, ()) for x in jobs]
    workers, results = {}, []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, prop, tier, seed), daemon=False)
        p.start()
        b.close()
        return {"p": p, "c": a, "job": None, "t": 0.0, "last": None, "where": None}
    ws = [spawn() for _ in range(n)]

    def give(w):
        if not queue or time.time() > deadline:
            w["job"] = None
            return
        (name, budget, mp_), skip = queue.pop(0)
        w.update(job=(name, budget, mp_), skip=skip, t=time.time(), last=None, where=None)
        w["c"].send((name, budget, mp_, skip))

    def done(r):
        results.append(r)
        report(r)

    def stop(w):
        for ch in _children(w["p"].pid) + [w["p"].pid]:
            try:
                os.kill(ch, 9)
            except OSError:
                pass
        w["p"].join()
    for w in ws:
        give(w)
    while any(w["job"] for w in ws):
        for c in wait([w["c"] for w in ws if w["job"]], timeout=1.0):
            w = [x for x in ws if x["c"] is c][0]
            try:
                kind, name, where, r = c.recv()
            except (EOFError, OSError):
                done(w["last"] or {"case": w["job"][0], "fatal": "worker died"})
                stop(w)
                ws[ws.index(w)] = w = spawn()
                give(w)
                continue
            w["t"] = time.time()
            if kind == "at":
                w["where"] = where
            elif kind == "beat":
                w["last"], w["where"] = _partial(r), where
            else:
                done(r)
                give(w)
        for i, w in enumerate(ws):
            if not w["job"]:
                continue
            late = time.time() > deadline
            if late or time.time() - w["t"] > hang:
                stop(w)
                if not late and w["where"] and w["where"] not in w["skip"] and len(w["skip"]) < 2:
                    queue.insert(0, (w["job"], w["skip"] + (w["where"],)))
                else:
                    done(w["last"] or {"case": w["job"][0], "fatal": "solver call ignored its time limit"})
                ws[i] = w = spawn()
                give(w)
    for (name, _, _), _s in queue:
        done({"case": name, "fatal": "not started within the time limit"})
    for w in ws:
        stop(w)
    return results


def _children(pid):
    out = []
    try:
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    if int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1]) == pid:
                        out.append(int(d))
                except (OSError, ValueError, IndexError):
                    pass
    except OSError:
        pass
    return out


def _partial(r):
    r["budget"] = True
    return r


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="symx_")
    os.environ["MPLCONFIGDIR"] = tmp
    try:
        if a.replay:
            return replay(a.replay)
        return check(a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    from symx import engine
    r = json.load(open(path))
    w = engine.NumWorker()
    out = w.run(r["property"], r["tier"], r["case"], r["values"])
    w.stop()
    print(json.dumps(out, indent=1))
    bad = [c for c in out["checks"] if not c[1]]
    return 1 if bad or out["exc"] else 0


def check(a):
    t0 = time.time()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = importlib.import_module("props." + prop.lower())
    cases = m.cases(tier)
    if a.case:
        cases = [c for c in cases if fnmatch.fnmatch(c.name, a.case)]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    budget = getattr(m, "BUDGET", {}).get(tier, 60 if tier == "quick" else 900)
    max_paths = getattr(m, "MAX_PATHS", {}).get(tier, 60 if tier == "quick" else 2000)
    jobs = [(c.name, c.budget or budget, c.max_paths or max_paths) for c in cases]
    n = max(1, min(a.jobs, len(jobs)))

    def report(r):
        if not a.v:
            return
        if "fatal" in r:
            print(r["case"], r["fatal"])
        else:
            print("%-40s paths=%d checks=%d holds=%d unk=%d viol=%d unsup=%s mism=%s unrep=%s pend=%d q=%d %.1fs" % (
                r["case"], r["paths"], r["checks"], r["holds"], r["unknown"], len(r["violations"]), r["unsupported"][:2], r["mismatch"][:2],
                r["unreproduced"][:1], r["pending"], r["queries"], r["wall"]), r.get("unknown_labels", [])[:4])
            for v in r["violations"]:
                print("   VIOL", v["label"], v["detail"], {k: round(x, 4) for k, x in list(v["values"].items())[:8]} if v["values"] else None)
                if v.get("tb"):
                    print(v["tb"])
        sys.stdout.flush()
    hang = 75 if tier == "quick" else 240
    results = run_jobs(prop, tier, seed, jobs, n, hang, t0 + (700 if tier == "quick" else 6 * 3600), report)
    known = load_known()
    fatal = [r for r in results if "fatal" in r]
    results = [r for r in results if "fatal" not in r]
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    nviol = 0
    printed_known = set()
    for r in results:
        for v in r["violations"]:
            hit = None
            for k in known.get("known", []):
                if k["property"] == prop and fnmatch.fnmatchcase(v["case"], k["case"]) and fnmatch.fnmatchcase(v["label"], k["label"]):
                    hit = k
                    break
            if hit is not None:
                if hit["what"] not in printed_known:
                    printed_known.add(hit["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
                continue
            nviol += 1
            path = os.path.join(ROOT, "evidence", "replays", "%s_%d.json" % (prop, nviol))
            json.dump({"property": prop, "tier": tier, "case": v["case"], "label": v["label"], "values": v["values"], "detail": v["detail"]},
                      open(path, "w"), indent=1)
            if nviol <= 20:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  case=%s assertion=%s %s" % (v["case"], v["label"], v["detail"]))
    tot = lambda k: sum(r[k] for r in results)
    und = [r for r in results if r["unknown"] or r["unsupported"] or r["budget"] or r["mismatch"] or r["unreproduced"] or r["pending"]]
    funcs = sorted(set(f for r in results for f in r["functions"]))
    kinds = {}
    for r in results:
        for k, x in r["qkinds"].items():
            kinds[k] = kinds.get(k, 0) + x
    assumptions = sorted(set(x for r in results for x in r["assumptions"])) + list(getattr(m, "ASSUMPTIONS", []))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": tot("replays"),
              "samples": [s for r in results for s in r["samples"]][:4],
              "cases": len(results), "assertions": tot("checks"), "assertions_proved_within_bounds": tot("holds"),
              "assertions_undecided": tot("unknown"), "reachability_witnesses": tot("reach"),
              "queries": tot("queries"), "queries_by_kind": kinds, "solver_s": round(sum(r["solver_s"] for r in results), 2),
              "solver": "z3 " + _z3v(), "functions_encoded": funcs,
              "bounds": {r["case"]: next(c.bounds for c in cases if c.name == r["case"]) for r in results[:60]},
              "undecided": [{"case": r["case"], "unknown": r.get("unknown_labels", [])[:5], "unsupported": r["unsupported"][:3], "budget": r["budget"],
                             "unexplored_paths": r["pending"], "mismatch": r["mismatch"][:3], "unreproduced": [u["label"] for u in r["unreproduced"][:3]]} for r in und][:40],
              "explanation": "states = symbolic paths of the real code; transitions = symbolic branch decisions; every completed path has a "
                             "solver witness replayed on the stock interpreter with unmodified /repo code"},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not a.case:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: cases=%d paths=%d assertions=%d holds=%d undecided=%d queries=%d solver=%.1fs replays=%d violations=%d known=%d wall=%.1fs" % (
        prop, tier, len(results), tot("paths"), tot("checks"), tot("holds"), tot("unknown"), tot("queries"), sum(r["solver_s"] for r in results),
        tot("replays"), nviol, len(printed_known), time.time() - t0))
    if und:
        print("  undecided: " + "; ".join("%s(%s)" % (r["case"], ",".join(filter(None, [
            "unknown:%d" % r["unknown"] if r["unknown"] else "", "unsupported:%s" % r["unsupported"][0] if r["unsupported"] else "",
            "budget" if r["budget"] else "", "mismatch:%s" % r["mismatch"][0] if r["mismatch"] else "",
            "unreproduced:%s" % r["unreproduced"][0]["label"] if r["unreproduced"] else ""]))) for r in und[:8]))
    for r in fatal:
        print("  fatal in %s: %s" % (r["case"], r["fatal"].strip().splitlines()[-1]))
    if nviol:
        return 1
    if fatal and not results:
        return 2
    if tot("holds") == 0:
        print("nothing decided")
        return 2
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
