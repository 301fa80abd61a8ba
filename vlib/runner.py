"""Runs the cases of one property in parallel, prints the verdict, writes the evidence file."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import queue as _queue
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EIN_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout


# ------------------------------------------------------------------ which functions were executed symbolically
class Trace:
    """Qualified names of the functions of /repo/ein that ran (each code object is seen once, then disabled)."""

    def __init__(self):
        self.seen = set()

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(m.COVERAGE_ID, "verif")
            m.register_callback(m.COVERAGE_ID, m.events.PY_START, self._hit)
            m.set_events(m.COVERAGE_ID, m.events.PY_START)
        except Exception:  # noqa: BLE001
            pass

    def _hit(self, code, offset):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            self.seen.add(f[len(REPO) + 1:] + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def take(self):
        s, self.seen = self.seen, set()
        return sorted(s)


def _worker(decider, cases, nxt, out, limit):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGALRM, _alarm)
    from . import engine

    tr = Trace()
    tr.start()
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(cases):
            break
        out.put(("start", i, os.getpid()))
        before = dict(engine.STATS)
        t0 = time.time()
        try:
            signal.alarm(int(limit))
            try:
                r = decider(cases[i])
                d = dict(id=r.case_id, status=r.status, detail=r.detail, replay=r.replay, paths=r.paths,
                         elements=r.elements, sample=r.sample, validated=r.validated)
            finally:
                signal.alarm(0)
        except CaseTimeout:
            engine._S = None
            d = dict(id=cases[i].id, status="undecided", detail=f"no verdict within {limit} s")
        except MemoryError:
            d = dict(id=cases[i].id, status="undecided", detail="out of memory")
        except BaseException as e:  # noqa: BLE001
            engine._S = None
            d = dict(id=cases[i].id, status="undecided", detail="error in the check: " + traceback.format_exc()[-600:])
        d["wall"] = time.time() - t0
        d["stats"] = {k: engine.STATS[k] - before[k] for k in engine.STATS}
        d["functions"] = tr.take()
        out.put(("done", i, d))
    out.put(("exit", None, os.getpid()))


def run_cases(decider, cases, limit=60, deadline=600.0, jobs=None):
    """Decide all the cases on several processes; a list of result dicts (None: not reached)."""
    ctx = mp.get_context("fork")
    jobs = min(jobs or os.cpu_count() or 4, 8, max(1, len(cases)))
    nxt, out = ctx.Value("i", 0), ctx.Queue()
    procs = {}

    def spawn():
        p = ctx.Process(target=_worker, args=(decider, cases, nxt, out, limit), daemon=True)
        p.start()
        procs[p.pid] = p

    for _ in range(jobs):
        spawn()
    res: list = [None] * len(cases)
    current: dict = {}
    t_end = time.time() + deadline
    exited = set()
    while procs and time.time() < t_end:
        try:
            tag, i, x = out.get(timeout=0.5)
        except _queue.Empty:
            for pid, p in list(procs.items()):
                if not p.is_alive() and pid not in exited:
                    # died without a word: its case is undecided
                    i = current.get(pid)
                    if i is not None and res[i] is None:
                        res[i] = dict(id=cases[i].id, status="undecided", detail=f"worker died ({p.exitcode})", wall=0, stats={}, functions=[])
                    del procs[pid]
                    if nxt.value < len(cases):
                        spawn()
            continue
        if tag == "start":
            current[x] = i
        elif tag == "done":
            res[i] = x
        else:
            exited.add(x)
            procs.pop(x, None)
    for p in procs.values():
        p.kill()
    return res


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines 'known: property=<id> case=<case id> <what>' of known_findings.txt."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                words = line[len("known: "):].split(None, 2)
                kv = dict(w.split("=", 1) for w in words[:2])
                if kv.get("property") == prop:
                    out[kv["case"]] = words[2] if len(words) > 2 else ""
    return out


# ------------------------------------------------------------------ the report
def report(prop, tier, level, cases, results, t0, coverage_extra, assumptions):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    known = known_findings(prop)
    counts: dict = {}
    stats: dict = {}
    functions: set = set()
    violations, undecided, samples = [], [], []
    elements = paths = validated = 0
    for c, r in zip(cases, results):
        if r is None:
            r = dict(id=c.id, status="undecided", detail="overall deadline", wall=0, stats={}, functions=[])
        counts[r["status"]] = counts.get(r["status"], 0) + 1
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        functions |= set(r["functions"])
        elements += r.get("elements", 0) or 0
        paths += r.get("paths", 0) or 0
        validated += r.get("validated", 0) or 0
        if r["status"] == "violation":
            violations.append(r)
        elif r["status"] == "undecided":
            undecided.append({"case": r["id"], "why": (r["detail"] or "")[:400]})
        if r.get("sample") and len(samples) < 400:
            samples.append(r["sample"])
    step = max(1, len(samples) // 6)
    samples = samples[::step][:6]
    new = [r for r in violations if r["id"] not in known]
    for r in violations:
        if r["id"] in known:
            print(f"KNOWN-FINDING: property={prop} {r['id']} {known[r['id']]}")
    decided = counts.get("held", 0) + counts.get("violation", 0) + counts.get("vacuous", 0)
    cov = dict(coverage_extra)
    cov.update({
        "cases": len(cases), "verdicts": counts, "paths": paths,
        "assertions_decided": elements,
        "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
        "queries": stats.get("queries", 0), "queries_unsat": stats.get("unsat", 0), "queries_sat": stats.get("sat", 0),
        "queries_unknown": stats.get("unknown", 0), "solver_s": round(stats.get("solver_s", 0.0), 3),
        "concrete_replays_on_the_real_code": validated,
        "undecided": undecided[:40], "undecided_count": len(undecided),
        "samples": samples,
    })
    if level == "translation_validation":
        cov["programs"] = len({(c.prog.name, str(c.dims)) for c in cases})
        cov["disagreements_checked"] = elements
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}]: {len(cases)} cases, {counts}, {paths} paths, {elements} assertions, "
          f"{stats.get('queries', 0)} queries, {stats.get('solver_s', 0.0):.1f} s solver, {time.time() - t0:.1f} s")
    for u in undecided[:10]:
        print("  undecided:", u["case"], "-", u["why"][:300].replace("\n", " "))
    if new:
        path = os.path.join(ev_dir, "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": [dict(r["replay"] or {}, case=r["id"], detail=r["detail"]) for r in new]}, f, indent=1)
        for r in new[:10]:
            print("  violation:", r["id"], "-", (r["detail"] or "")[:300].replace("\n", " "))
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
        return 1
    if decided * 10 < len(cases):
        print("no verdict: fewer than a tenth of the cases were decided")
        return 2
    return 0
