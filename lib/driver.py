"""Driver: schedules scenarios on worker processes, aggregates monitors, writes evidence, gives the verdict.

Exit 0 held on everything observed, 1 violation, 2 inconclusive / error of the check itself.
"""
from __future__ import annotations

import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
MARK = "@@VERIF@@"


class Worker:
    def __init__(self, prop, tier, seed):
        self.p = subprocess.Popen(
            [sys.executable, "-m", "lib.worker", prop, tier, str(seed)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, cwd=VERIF, bufsize=1,
        )
        self.q: queue.Queue = queue.Queue()
        self.tail: list[str] = []
        self.t = threading.Thread(target=self._pump, daemon=True)
        self.t.start()

    def _pump(self):
        for line in self.p.stdout:
            i = line.find(MARK)
            if i >= 0:
                self.q.put(json.loads(line[i + len(MARK):]))
            else:
                self.tail.append(line)
                del self.tail[:-40]
        self.q.put(None)

    def ask(self, msg, timeout):
        try:
            self.p.stdin.write(json.dumps(msg) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main(argv):
    t0 = time.time()
    replay = None
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            replay = json.load(f)
        prop, tier, seed = replay["property"], replay["tier"], int(replay["seed"])
    else:
        prop, tier = argv[0], argv[1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    scenarios = mod.scenarios(tier, seed)
    if replay is not None:
        want = {v["scenario"]["id"] for v in replay["violations"]}
        scenarios = [s for s in scenarios if s["id"] in want]
    assert len({s["id"] for s in scenarios}) == len(scenarios), "duplicate scenario ids"
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 5400))
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_JOBS", getattr(mod, "JOBS", 8)))
    scn_timeout = getattr(mod, "SCENARIO_TIMEOUT", 300 if tier == "quick" else 1500)

    todo: queue.Queue = queue.Queue()
    for s in scenarios:
        todo.put(s)
    lock = threading.Lock()
    results, violations, errors = [], [], []

    def loop():
        w = None
        while True:
            try:
                s = todo.get_nowait()
            except queue.Empty:
                break
            if time.time() > deadline:
                with lock:
                    errors.append({"scenario": s["id"], "why": "budget exhausted before start"})
                continue
            if w is None:
                w = Worker(prop, tier, seed)
                r = w.ask({"hello": 1}, 400)
                if r in (None, "timeout"):
                    with lock:
                        errors.append({"scenario": s["id"], "why": f"worker did not start: {r}", "tail": w.tail[-15:]})
                    w.kill()
                    w = None
                    continue
                if r.get("import_failure"):
                    with lock:
                        f = r["import_failure"]
                        (violations if f["in_repo"] else errors).append(
                            {"monitor": "import", "scenario": s, "why": f["text"]})
                    w.kill()
                    w = None
                    continue
            r = w.ask({"run": s}, min(scn_timeout, max(5, deadline - time.time())))
            if r == "timeout":
                with lock:
                    errors.append({"scenario": s["id"], "why": "scenario timeout (inconclusive)"})
                w.kill()
                w = None
            elif r is None:
                rc = w.p.wait()
                with lock:
                    if rc == -9:
                        errors.append({"scenario": s["id"], "why": "worker killed (SIGKILL)", "tail": w.tail[-15:]})
                    elif rc < 0:
                        violations.append({"monitor": "process_crash", "scenario": s, "why": f"signal {-rc} while running the code under test", "tail": w.tail[-15:]})
                    else:
                        errors.append({"scenario": s["id"], "why": f"worker exited {rc}", "tail": w.tail[-15:]})
                w.kill()
                w = None
            else:
                with lock:
                    results.append(r)
                    violations.extend(r["violations"])
                    if r.get("harness_error"):
                        errors.append({"scenario": s["id"], "why": r["harness_error"]})
        if w is not None:
            w.kill()

    if scenarios:
        # Warm the (fresh, per-run) compilation cache with one worker so that the others load it.
        w0 = Worker(prop, tier, seed)
        r = w0.ask({"warm": 1}, 400)
        if r in (None, "timeout"):
            errors.append({"scenario": "warmup", "why": f"warm-up: {r}", "tail": w0.tail[-15:]})
        w0.kill()
    threads = [threading.Thread(target=loop) for _ in range(min(nproc, max(1, len(scenarios))))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # ---- aggregate
    events, maxdev, cases, samples, ncases = {}, {}, set(), [], 0
    skipped = []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["maxdev"].items():
            maxdev[k] = max(maxdev.get(k, 0.0), v)
        cases.update(r["cases"])
        ncases += r["ncases"]
        if len(samples) < 8 and r["samples"]:
            samples.append(r["samples"][0])
    # ---- monitors that must have been reached
    if replay is None and not errors:
        for name, n in mod.REQUIRED.items():
            if tier == "quick" or n >= 0:
                if events.get(name, 0) < n and not violations:
                    errors.append({"why": f"monitor {name} reached {events.get(name, 0)} < {n} times: inconclusive"})
        if ncases == 0:
            errors.append({"why": "no case executed"})
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == prop]
    unlisted, hit = [], {}
    for v in violations:
        for k in known:
            if v["monitor"] == k["monitor"] and (k.get("case_contains", "") in json.dumps(v.get("case", v.get("scenario")), sort_keys=True)):
                hit[k["id"]] = k
                break
        else:
            unlisted.append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ncases, "distinct_nontrivial": len(cases), "rule": mod.RULE,
            "samples": samples[:8] or ["none"],
            "scenarios_run": len(results), "scenarios_planned": len(scenarios),
            "monitor_events": dict(sorted(events.items())),
            "max_deviation_seen": {k: float(f"{v:.3g}") for k, v in sorted(maxdev.items())},
            "inconclusive": len(errors),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(unlisted),
    }
    if replay is None:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    slow = sorted(((r["wall"], r["id"]) for r in results), reverse=True)[:int(os.environ.get("VERIF_SLOW", 5))]
    print(f"[{prop} {tier} seed={seed}] scenarios {len(results)}/{len(scenarios)} cases {ncases} distinct {len(cases)} "
          f"checks {sum(events.values())} wall {wall:.1f}s slowest {[(round(a, 1), b) for a, b in slow]}")
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(evidence["coverage"], indent=1))
    for e in errors[:4]:
        print("INCONCLUSIVE:", json.dumps(e)[-1200:])
    if unlisted:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": unlisted}, f, indent=1)
        seen = set()
        for v in unlisted:
            if v["monitor"] not in seen:
                seen.add(v["monitor"])
                if len(seen) <= 12:
                    print("  violated:", json.dumps(v)[:900])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
