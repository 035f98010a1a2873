"""Runs the harnesses of a property in parallel, prints the verdict and writes
the evidence file."""
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")


def pool(tasks, run, workers=None):
    """Runs run(task) in forked processes; yields (task, result | exception text)."""
    workers = workers or min(8, os.cpu_count() or 1)
    todo = list(tasks)
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            t = todo.pop(0)
            fd, path = tempfile.mkstemp(prefix="fpvres")
            os.close(fd)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    r = ("ok", run(t))
                except BaseException as e:
                    r = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
                try:
                    with open(path, "wb") as f:
                        pickle.dump(r, f)
                except BaseException:
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            live[pid] = (t, path)
        pid, st = os.wait()
        if pid not in live:
            continue
        t, path = live.pop(pid)
        try:
            with open(path, "rb") as f:
                r = pickle.load(f)
        except Exception as e:
            r = ("err", f"worker ended with status {st}: {e}")
        os.unlink(path)
        yield t, r


def known(pid):
    """Keys of recorded findings: lines 'KNOWN property=<id> key=<harness>/<label prefix> ...'"""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("KNOWN ") and f"property={pid} " in line:
                    key = line.split("key=", 1)[1].split(" ", 1)
                    out.append((key[0], key[1].strip() if len(key) > 1 else ""))
    except FileNotFoundError:
        pass
    return out


def default(o):
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, set):
        return sorted(o)
    if hasattr(o, "item"):
        return o.item()
    return str(o)


def check(pid, harnesses, tier, seed, only=None, budget=None, assumptions=(), run=None,
          technique_note=""):
    from . import harness as H
    t0 = time.time()
    hs = [h for h in harnesses if not only or only in h.name]
    run = run or (lambda h: H.run_harness(h, tier, seed, budget))
    results, errors = [], []
    for h, (st, r) in pool(hs, run):
        if st == "ok":
            results.append(r)
        else:
            errors.append((h.name, r))
    results.sort(key=lambda r: r.name)
    violations = [v for r in results for v in r.violations]
    ks = known(pid)
    real, knownhits = [], []
    for v in violations:
        hit = next((k for k in ks if v["harness"].startswith(k[0].split("/")[0])
                    and any(f.startswith(k[0].split("/", 1)[1]) for f in v["failed"])), None) if ks else None
        (knownhits if hit else real).append(v)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for v in knownhits:
        print(f"KNOWN-FINDING: property={pid} {v['harness']}: {'; '.join(v['failed'])[:200]}")
    paths = []
    for i, v in enumerate(real):
        p = os.path.join(EVID, "replay", f"{pid}-{i}.json")
        with open(p, "w") as f:
            json.dump(dict(v, property=pid), f, indent=1, default=default)
        paths.append(p)
    tot = lambda k: sum(getattr(r, k) for r in results)
    st = lambda k: sum(r.stats.get(k, 0) for r in results)
    cov = dict(
        states=tot("paths"),
        transitions=st("branches"),
        traces_validated_against_impl=tot("replayed"),
        samples=[s for r in results for s in r.samples][:6],
        paths_completed=tot("complete_paths"), paths_proved=tot("proved_paths"),
        paths_inconclusive=tot("inconclusive"),
        engine_disagreements=tot("disagreements"),
        assertions=tot("conds"), assertions_decided_by_solver=tot("conds_solver"),
        queries=st("queries"), solver_unknown=st("unknown"), solver_s=round(st("solver_s"), 3),
        exhaustive=all(r.exhausted for r in results) and not tot("inconclusive") and not errors,
        functions_encoded=sorted(set().union(*[r.functions for r in results])) if results else [],
        reached=sorted(set().union(*[r.reached for r in results])) if results else [],
        harnesses=[dict(name=r.name, bounds=r.bounds, paths=r.paths, proved=r.proved_paths,
                        inconclusive=r.inconclusive, replayed=r.replayed, queries=r.stats.get("queries", 0),
                        exhausted=r.exhausted, wall_s=round(r.wall, 2), notes=r.notes) for r in results],
        engine_errors=[f"{n}: {e[-400:]}" for n, e in errors],
        assertion_labels=sorted({l[:120] for r in results for l in r.labels})[:60],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(real))
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=default)
    for v, p in zip(real, paths):
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {v['harness']}: {'; '.join(v['failed'])[:300]}  inputs={str(v['inputs'])[:400]}")
    print(f"{pid}: {len(results)} harnesses, {cov['states']} paths ({cov['paths_proved']} proved, "
          f"{cov['paths_inconclusive']} inconclusive), {cov['queries']} queries {cov['solver_s']}s solver, "
          f"{cov['traces_validated_against_impl']} replays, {ev['wall_s']}s"
          + ("" if cov["exhaustive"] else "  NOT EXHAUSTIVE"))
    for n, e in errors:
        print(f"  engine error in {n}: {e.strip().splitlines()[-1]}")
        if os.environ.get("VERIF_DEBUG"):
            print(e)
    if os.environ.get("VERIF_DEBUG") or not cov["exhaustive"] or cov["engine_disagreements"]:
        for r in results:
            for n in r.notes:
                print(f"  [{r.name}] {n}"[:600])
    return 1 if real else 0


def replay(v, harnesses):
    from . import harness as H
    h = next(x for x in harnesses if x.name == v["harness"])
    vals = {k: Fraction(x) if isinstance(x, str) else x for k, x in v["inputs"].items()}
    failed, obs, skipped, note = H.concrete_run(h, vals)
    print("failed:", failed, "skipped:", skipped)
    if note:
        print(note)
    for l, o in obs:
        print(f"  {l} = {o!r}"[:300])
    return 1 if failed else 0
