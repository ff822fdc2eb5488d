"""check <property>: runs every scenario of a property, replays counterexamples on the
real code, writes the evidence file and decides the exit status."""
import json
import math
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def _job(args, conn):
    prop, tier, sid, seed, budget = args
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from props import registry
        from vf import engine
        scn = next(s for s in registry.scenarios(prop, tier) if s.id == sid)
        r = engine.run_scenario(scn, seed, budget)
    except BaseException as e:  # noqa: BLE001
        import traceback
        r = {"scenario": sid, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
    try:
        conn.send_bytes(json.dumps(r, default=str).encode())
    finally:
        conn.close()


def run_jobs(jobs, nproc, hard, confirm=None):
    """jobs: list of args; each in its own process, with a hard time limit. Once ``confirm``
    says that a result holds a violation which reproduces, the rest is cut short."""
    pending = list(jobs)
    stop = None
    t0 = time.time()
    live = []
    results = {}
    while pending or live:
        while pending and len(live) < nproc:
            a = pending.pop(0)
            if stop is not None and time.time() > stop:
                results[a[2]] = {"scenario": a[2], "stopped": True}
                continue
            rx, tx = mp.Pipe(False)
            p = mp.Process(target=_job, args=(a, tx), daemon=True)
            p.start()
            tx.close()
            live.append((p, rx, a, time.time()))
        time.sleep(0.005)
        nxt = []
        for p, rx, a, t in live:
            done = False
            if rx.poll(0):
                try:
                    results[a[2]] = json.loads(rx.recv_bytes())
                except EOFError:
                    results[a[2]] = {"scenario": a[2], "error": "worker died"}
                done = True
            elif not p.is_alive():
                results[a[2]] = {"scenario": a[2], "error": f"worker ended with {p.exitcode}"}
                done = True
            elif stop is not None and time.time() > stop:
                p.kill()
                results[a[2]] = {"scenario": a[2], "stopped": True}
                done = True
            elif time.time() - t > hard(a):
                p.kill()
                results[a[2]] = {"scenario": a[2], "error": "hard time limit"}
                done = True
            if done:
                p.join(5)
                rx.close()
                if stop is None and confirm is not None and results[a[2]].get("cex") and confirm(results[a[2]]):
                    stop = time.time() + max(20.0, 0.5 * (time.time() - t0))
            else:
                nxt.append((p, rx, a, t))
        live = nxt
    return results


def real_runs(prop, tier, runs):
    if not runs:
        return []
    n = min(6, max(1, len(runs) // 6))
    chunks = [runs[i::n] for i in range(n)]
    procs = []
    with tempfile.TemporaryDirectory(prefix="vf") as d:
        for k, ch in enumerate(chunks):
            a, b = os.path.join(d, f"q{k}.json"), os.path.join(d, f"r{k}.json")
            with open(a, "w") as fh:
                json.dump({"property": prop, "tier": tier, "runs": ch}, fh)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", MPLCONFIGDIR=d)
            procs.append((subprocess.Popen([REAL, os.path.join(ROOT, "vf", "concrete.py"), a, b], env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), b))
        out = []
        for (p, b), ch in zip(procs, chunks):
            try:
                _, err = p.communicate(timeout=200)
            except subprocess.TimeoutExpired:
                p.kill()
                err = b"timeout"
            if p.returncode == 0 and os.path.exists(b):
                with open(b) as fh:
                    out.append(json.load(fh))
            else:
                out.append([{"error": (err or b"").decode(errors="replace")[-800:]} for _ in ch])
        res = [None] * len(runs)
        for k in range(n):
            for j, r in enumerate(out[k]):
                res[k + j * n] = r
        return res


def _num(x):
    return isinstance(x, dict) and "data" in x


def agree(enc, real, tol=1e-6, atol=0.0):
    """None if the real outputs equal the encoded ones, otherwise what differs."""
    if set(enc) != set(real):
        return f"outputs {sorted(set(enc) ^ set(real))[:5]}"
    glob = max([abs(x) for d in (enc, real) for v in d.values() if _num(v) for x in v["data"] if math.isfinite(x)] + [0.0])
    for k in sorted(enc):
        a, b = enc[k], real[k]
        if _num(a) and _num(b):
            if a["shape"] != b["shape"]:
                return f"{k}: shape {a['shape']} encoded, {b['shape']} real"
            fin = [abs(x) for x in a["data"] + b["data"] if math.isfinite(x)]
            s = max(fin) if fin else 0.0
            for i, (x, y) in enumerate(zip(a["data"], b["data"])):
                if not math.isfinite(x) and not math.isfinite(y):
                    continue
                if not abs(x - y) <= tol * max(s, 1e-9 * glob) + 1e-300 + atol:
                    return f"{k}[{i}]: {x!r} encoded, {y!r} real"
        elif _num(a) != _num(b):
            x = a["data"][0] if _num(a) and a["shape"] == [] else a
            y = b["data"][0] if _num(b) and b["shape"] == [] else b
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y:
                continue
            return f"{k}: {str(a)[:60]} encoded, {str(b)[:60]} real"
        elif a != b:
            return f"{k}: {a!r} encoded, {b!r} real"
    return None


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known:"):
                    d = dict(t.split("=", 1) for t in line[6:].split("::")[0].split())
                    d["text"] = line.split("::", 1)[1].strip() if "::" in line else ""
                    out.append(d)
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import z3  # noqa: F401  (before forking)
    from props import registry
    from vf import engine  # noqa: F401
    scns = registry.scenarios(prop, tier)
    if only:
        scns = [s for s in scns if only in s.id]
    assert len({s.id for s in scns}) == len(scns), "duplicate scenario ids"
    total = 700.0 if tier == "quick" else 3300.0
    default = 200.0 if tier == "quick" else 600.0
    jobs = [(prop, tier, s.id, seed, s.budget or default) for s in scns]
    nproc = min(8, os.cpu_count() or 4)
    end = t0 + total
    atol = {s.id: s.atol for s in scns}
    kf = [k for k in known_findings() if k.get("property") == prop]

    def listed(v):
        return next((k for k in kf if k.get("scenario") == v["scenario"] and k.get("label") == v["label"]), None)

    def judge(v, got):
        """does the counterexample violate the property on the real code?"""
        v["real"] = got
        if v["outputs"] is None:
            if "exception" in got:
                ok = got["exception"][0] == v["exception"][0] or v["exception"][0] == "IntegerStorage"
                return ok, "" if ok else f"the real code raises {got['exception'][:2]}"
            # a failure of the symbolic run alone: do the real results at this point violate anything?
            try:
                worst = engine.recheck(next(s for s in scns if s.id == v["scenario"]), seed, v, got["outputs"])
            except Exception as e:  # noqa: BLE001
                return False, f"the real code does not raise (recheck: {type(e).__name__}: {e})"
            if worst is None:
                return False, f"the real code does not raise {v['exception'][:2]}"
            v["entry"], v["actual"], v["expected"] = worst[1], worst[2], worst[3]
            return True, None
        if "exception" in got:
            return False, f"the real code raises {got['exception'][:2]}"
        why = agree(v["outputs"], got["outputs"], atol=atol[v["scenario"]])
        if why is None:
            return True, None
        # e.g. another eigenframe: judge the real outputs by the obligation itself
        try:
            worst = engine.recheck(next(s for s in scns if s.id == v["scenario"]), seed, v, got["outputs"])
        except Exception as e:  # noqa: BLE001
            return False, why + f" (recheck: {type(e).__name__}: {e})"
        if worst is None:
            return False, why
        v["entry"], v["actual"], v["expected"] = worst[1], worst[2], worst[3]
        return True, None

    def confirm(r):
        cs = [c for c in r["cex"] if not listed(c)]
        got = real_runs(prop, tier, [{"scenario": c["scenario"], "inputs": c["inputs"]} for c in cs])
        return any("error" not in g and judge(c, g)[0] for c, g in zip(cs, got))

    results = run_jobs(jobs, nproc, lambda a: min(a[4] * 1.3 + 30, max(5.0, end - time.time() + 20)), confirm)
    order = [results[s.id] for s in scns]

    runs, tags = [], []
    for r in order:
        for v in r.get("validate", []):
            runs.append({"scenario": v["scenario"], "inputs": v["inputs"]})
            tags.append(("trace", r, v))
        for v in r.get("probe", []):
            runs.append({"scenario": v["scenario"], "inputs": v["inputs"]})
            tags.append(("probe", r, v))
        for c in r.get("cex", []):
            runs.append({"scenario": c["scenario"], "inputs": c["inputs"]})
            tags.append(("cex", r, c))
    real = real_runs(prop, tier, runs)
    errors, violations, known = [], [], []
    validated = 0
    for (kind, r, v), got in zip(tags, real):
        if "error" in got:
            errors.append(f"{v['scenario']}: real run failed: {got['error'][-300:]}")
            continue
        if kind == "probe":
            # the encoding stopped (stays inconclusive), unless the real code fails clearly here
            if "exception" in got:
                v.update(label="exception at a sampled point", exception=list(got["exception"][:2]), real=got)
                violations.append(v)
                continue
            try:
                worst = engine.recheck(next(s for s in scns if s.id == v["scenario"]), seed, v, got["outputs"])
            except Exception:  # noqa: BLE001
                worst = None
            if worst is not None and worst[0] > v["tol"]:
                v.update(label=f"{worst[4]} at a sampled point", entry=worst[1], actual=worst[2], expected=worst[3], real=got)
                violations.append(v)
            continue
        if kind == "trace":
            if "exception" in got:
                # the encoding does not see it, but the property fails at a valid input
                v.update(label="exception at a sampled point", exception=list(got["exception"][:2]), real=got)
                violations.append(v)
                continue
            d = agree(v["outputs"], got["outputs"], atol=atol[v["scenario"]])
            if d is None:
                validated += 1
                continue
            # do the real results violate the property (well beyond rounding)?
            try:
                worst = engine.recheck(next(s for s in scns if s.id == v["scenario"]), seed, {**v, "outputs": None}, got["outputs"])
            except Exception as e:  # noqa: BLE001
                worst, d = None, d + f" (recheck: {type(e).__name__}: {e})"
            if worst is not None and worst[0] > 1e-3:
                v.update(label=f"{worst[4]} at a sampled point", entry=worst[1], actual=worst[2], expected=worst[3], real=got)
                violations.append(v)
            else:
                errors.append(f"{v['scenario']}: encoding and real code disagree: {d}")
            continue
        # counterexample
        ok, why = judge(v, got)
        if not ok:
            errors.append(f"{v['scenario']}: counterexample for {v['label']} does not reproduce: {why}")
            continue
        k = listed(v)
        if k is not None:
            known.append((k, v))
        else:
            violations.append(v)

    late = []
    optional = {s.id for s in scns if s.optional}

    def out_of_time(r):
        return "hard time limit" in str(r.get("error")) or "time budget exhausted" in r.get("inconclusive", [])

    # The quick tier is bounded in time: scenarios beyond it are listed as not explored, as long as
    # these are few. The thorough tier has to decide all but the optional ones.
    slow = {r["scenario"] for r in order if out_of_time(r) and all(i == "time budget exhausted" for i in r.get("inconclusive", []))}
    if tier != "quick" or len(slow - optional) * 4 > len(order):
        slow &= optional
    for r in order:
        if r["scenario"] in slow or (r["scenario"] in optional and out_of_time(r)):
            late.append(r["scenario"])
            continue
        if "error" in r:
            errors.append(f"{r['scenario']}: {r['error']}")
        for i in r.get("inconclusive", []):
            errors.append(f"{r['scenario']}: inconclusive: {i}")

    stopped = [r["scenario"] for r in order if r.get("stopped")]
    ok = [r for r in order if "error" not in r]
    solver = {}
    for r in ok:
        for k, x in r.get("solver", {}).items():
            solver[k] = max(solver.get(k, 0), x) if k == "slowest" else solver.get(k, 0) + x
    tot = lambda key: sum(r.get(key, 0) for r in ok)  # noqa: E731
    files = sorted({os.path.relpath(f, os.environ.get("VERIF_REPO", "/repo")) if "hyperelastic" in f else f for r in ok for f in r.get("files", [])})
    samples = []
    for (kind, r, v), got in list(zip(tags, real)):
        if kind == "trace" and len(samples) < 2:
            samples.append(_short({"scenario": v["scenario"], "inputs": v["inputs"], "real_outputs_agree": True}))
    for v in violations[:2]:
        samples.append(_short({k: v.get(k) for k in ("scenario", "label", "inputs", "actual", "expected", "exception")}))
    coverage = {
        "states": tot("paths"),
        "transitions": tot("decisions") + int(solver.get("queries", 0)),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": False,
        "functions_encoded": registry.anchors(prop),
        "source_files_executed_symbolically": files,
        "bounds": registry.bounds(prop),
        "scenarios": [{"id": r["scenario"], "paths": r.get("paths"), "obligations": r.get("obligations"),
                       "discharged": r.get("discharged"), "wall_s": r.get("wall")} for r in order][:150],
        "n_scenarios": len(order),
        "branch_decisions": tot("decisions"),
        "infeasible_branches": tot("infeasible"),
        "branches_outside_the_bounds": tot("not_explored"),
        "obligations": tot("obligations"),
        "obligations_discharged": tot("discharged"),
        "obligations_closed_by_identical_terms": tot("trivial"),
        "lemmas_proved": tot("lemmas"),
        "queries_discharged": int(solver.get("unsat", 0)),
        "queries": int(solver.get("queries", 0)),
        "queries_sat": int(solver.get("sat", 0)),
        "queries_unknown": int(solver.get("unknown", 0)),
        "solver_seconds": round(solver.get("time", 0.0), 3),
        "slowest_query_seconds": round(solver.get("slowest", 0.0), 3),
        "counterexamples_replayed": sum(1 for t in tags if t[0] == "cex"),
        "scenarios_cut_short_after_a_violation": stopped,
        "scenarios_beyond_the_time_limit": late,
        "errors": errors[:20],
        "known_findings_seen": [k["text"] for k, _ in known],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
          "assumptions": registry.assumptions(prop), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    outdir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, f"{prop}.json")
    blob = json.dumps(ev, indent=1)
    if len(blob) > 60000:
        coverage["scenarios"] = coverage["scenarios"][:40]
        coverage["samples"] = coverage["samples"][:1]
        blob = json.dumps(ev, indent=1)
    with open(path, "w") as fh:
        fh.write(blob)

    for k, v in known:
        print(f"KNOWN-FINDING: property={prop} {k['text'] or v['label']}")
    seen = set()
    for n, v in enumerate(violations):
        rp = os.path.join(outdir, f"replay-{prop}-{n}.json")
        with open(rp, "w") as fh:
            json.dump({"property": prop, "tier": tier, **v}, fh, indent=1)
        key = (v["scenario"], v["label"])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) <= 10:
            print(f"VIOLATION property={prop} replay={os.path.relpath(rp, ROOT)}")
            print(f"  {v['scenario']}: {v['label']} {v.get('entry', '')} {v.get('note', '')}"
                  + (f" code gives {v['actual']:.9g}, required {v['expected']:.9g}" if "actual" in v else "")
                  + (f" {v['exception'][0]}: {v['exception'][1][:160]}" if v.get("exception") else ""))
    print(f"{prop} [{tier}] scenarios={len(order)} paths={tot('paths')} obligations={tot('obligations')} "
          f"discharged={tot('discharged')} queries={int(solver.get('queries', 0))} solver={solver.get('time', 0):.1f}s "
          f"validated={validated} violations={len(seen)} errors={len(errors)} wall={time.time() - t0:.1f}s")
    if verbose:
        for r in order:
            print({k: r.get(k) for k in ("scenario", "paths", "obligations", "discharged", "trivial", "lemmas", "solver", "wall")})
    for n in late:
        print("NOT EXPLORED within the time limit:", n)
    for e in errors[:12]:
        print("ERROR:", e)
    if verbose:
        for r in order:
            if "trace" in r:
                print(r["trace"])
    if violations:
        return 1
    return 2 if errors else 0


def _short(x):
    s = json.dumps(x)
    return x if len(s) < 6000 else {k: (v if len(json.dumps(v)) < 1500 else "(large)") for k, v in x.items()}


if __name__ == "__main__":
    sys.exit(main())
