"""Driver of the checks: enumerates the cases of a property, runs every one of
them on the real code in worker processes, and reports.

The driver itself never imports festim: a hanging or crashing execution only
takes its worker with it and is reported as a violation.
"""

import collections
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HOME = os.environ.get("MC_HOME", os.path.dirname(os.path.dirname(__file__)))
SCRATCH = os.environ["MC_SCRATCH"]
EVIDENCE = os.path.join(HOME, "evidence")

PCH = """#include <dolfin/function/Expression.h>
#include <dolfin/math/basic.h>
#include <Eigen/Dense>
"""


def build_pch():
    """precompiled header for the expressions that FEniCS compiles"""
    try:
        inc = [
            "-Wall", "-shared", "-fPIC", "-std=c++11", "-O0", "-fno-math-errno",
            "-fno-trapping-math", "-ffinite-math-only",
        ]
        for d in (
            "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
            "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-real/include",
            "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
            "/usr/lib/x86_64-linux-gnu/openmpi/include",
            "/usr/include/hdf5/openmpi",
            "/usr/include/eigen3",
            "/usr/lib/python3/dist-packages/ffc/backends/ufc",
        ):
            inc.append("-I" + d)
        h = os.path.join(SCRATCH, "bin", "pch.h")
        with open(h, "w") as f:
            f.write(PCH)
        subprocess.run(
            ["/usr/bin/g++", *inc, "-x", "c++-header", h, "-o", h + ".tmp"],
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            timeout=60,
        )
        os.rename(h + ".tmp", h + ".gch")
    except Exception:
        pass  # only an optimisation


class Worker:
    """one worker process; cases go in and results come out as JSON lines"""

    def __init__(self, prop):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.tmp = None
        env = dict(os.environ)
        n = Worker.count = getattr(Worker, "count", 0) + 1
        env["MC_WORKDIR"] = os.path.join(SCRATCH, f"w{n}")
        os.makedirs(env["MC_WORKDIR"], exist_ok=True)
        self.errfile = os.path.join(SCRATCH, f"w{n}.err")
        self.p = subprocess.Popen(
            [sys.executable, "-m", "mc.worker", prop, str(r1), str(w2)],
            pass_fds=(r1, w2),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=open(self.errfile, "wb"),
            cwd=env["MC_WORKDIR"],
            env=env,
            start_new_session=True,
        )
        os.close(r1)
        os.close(w2)
        self.out = os.fdopen(w1, "w")
        self.inp = os.fdopen(r2, "r")
        self.q = queue.Queue()
        self.history = []
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.inp:
            self.q.put(json.loads(line))
        self.q.put(None)

    def run(self, case, timeout):
        self.history.append(case)
        try:
            self.out.write(json.dumps(case) + "\n")
            self.out.flush()
            res = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            return {
                "violations": [f"no result within {timeout:.0f} s (hangs)"],
                "dead": True,
            }
        except BrokenPipeError:
            res = None
        if res is None:
            self.kill()
            try:
                with open(self.errfile, errors="replace") as f:
                    tail = f.read()[-600:]
            except OSError:
                tail = ""
            return {"violations": [f"the process died: {tail}"], "dead": True}
        return res

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()

    def close(self):
        try:
            self.out.close()
            self.p.wait(timeout=3)
        except Exception:
            self.kill()


def known_findings(prop):
    """listed findings of this property: {case id: text}"""
    out = {}
    path = os.path.join(HOME, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                out[key[len("case="):]] = text
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    t0 = time.time()
    budget = 780.0 if tier == "quick" else 4 * 3600.0
    case_timeout = getattr(mod, "CASE_TIMEOUT", 200.0)
    nproc = int(os.environ.get("MC_JOBS", min(8, os.cpu_count() or 1)))
    threading.Thread(target=build_pch, daemon=True).start()

    if replay:
        rec = json.load(open(replay))
        w = Worker(prop)
        bad = []
        for case in rec.get("history", []) + [rec["case"]]:
            res = w.run(case, case_timeout)
            bad = res["violations"]
            for v in bad:
                print(f"case {case['id']}: {v}")
        w.close()
        sys.exit(1 if bad else 0)

    cases = mod.cases(tier)
    only = os.environ.get("MC_ONLY")
    if only:
        cases = [c for c in cases if only in c["id"]]
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    known = known_findings(prop)

    # group cases which share compiled forms, biggest groups first; a group is
    # split only once its first case has compiled what the others need
    groups = collections.OrderedDict()
    for c in cases:
        groups.setdefault(c.get("group", c["id"]), []).append(c)
    work = collections.deque(
        sorted(groups.values(), key=lambda g: -sum(c.get("cost", 1) for c in g))
    )
    tails = collections.deque()  # remaining cases of groups already compiled
    lock = threading.Lock()
    results, found, skipped, active = [], [], [], [0]
    stop = threading.Event()

    def take():
        with lock:
            if work:
                g = work.popleft()
                n = max(1, (len(g) + 3) // 4) if len(g) > 8 else len(g)
                active[0] += 1
                return g[:n], g[n:]
            if tails:
                g = tails.popleft()
                n = max(1, min(len(g), 8))
                if g[n:]:
                    tails.appendleft(g[n:])
                active[0] += 1
                return g[:n], []
            return None if active[0] == 0 else ()

    def loop():
        w = Worker(prop)
        while not stop.is_set():
            job = take()
            if job is None:
                break
            if job == ():
                time.sleep(0.05)
                continue
            head, tail = job
            released = False
            for case in head:
                if stop.is_set():
                    break
                if time.time() - t0 > budget:
                    with lock:
                        skipped.append(case["id"])
                    continue
                res = w.run(case, case_timeout)
                hist = w.history[:-1]
                if res.get("dead"):
                    w = Worker(prop)
                with lock:
                    results.append((case, res))
                    if res["violations"]:
                        found.append((case, res, hist))
                        if len(found) >= int(os.environ.get("MC_MAXBAD", 3)) and not known:
                            stop.set()
                    if tail and not released:
                        tails.append(tail)
                        released = True
            with lock:
                if tail and not released:
                    tails.append(tail)
                active[0] -= 1
        w.close()

    threads = [threading.Thread(target=loop) for _ in range(min(nproc, max(1, len(cases))))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # confirm: alone in a fresh process, otherwise after the same history
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    violations, unconfirmed, seen_known = [], [], []
    for case, res, hist in found:
        if len(violations) >= 3:
            break
        rec = {"property": prop, "tier": tier, "case": case, "violations": res["violations"]}
        ok = False
        for history in ([], hist):
            w = Worker(prop)
            for h in history:
                if w.run(h, case_timeout).get("dead"):
                    w = Worker(prop)
            again = w.run(case, case_timeout)
            w.close()
            if again["violations"]:
                rec["violations"] = again["violations"]
                rec["history"] = history
                ok = True
                break
            if not hist:
                break
        if not ok:
            unconfirmed.append(rec)
            continue
        if case["id"] in known:
            seen_known.append(case["id"])
            continue
        path = os.path.join(EVIDENCE, "replay", f"{prop}-{len(violations) + 1}.json")
        json.dump(rec, open(path, "w"), indent=1)
        violations.append((path, rec))

    tot = collections.Counter()
    outcomes = collections.Counter()
    worst = 0.0
    for case, res in results:
        for k in ("states", "transitions", "traces"):
            tot[k] += res.get(k, 0)
        if "outcome" in res:
            outcomes[res["outcome"]] += 1
        worst = max(worst, res.get("worst", 0.0) or 0.0)
    if os.environ.get("MC_WORST"):
        for case, res in sorted(results, key=lambda cr: -(cr[1].get("worst") or 0.0))[: int(os.environ["MC_WORST"])]:
            print("#", case["id"], res.get("worst"))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "cases_enumerated": len(cases),
            "cases_run": len(results),
            "distinct_outcomes": len(outcomes),
            "exhaustive": len(results) == len(cases) and not skipped and not only,
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "largest_accepted_discrepancy": worst,
            "outcomes": dict(outcomes.most_common(12)),
            "samples": [
                {"case": c, "outcome": r.get("outcome"), "states": r.get("states")}
                for c, r in results[:: max(1, len(results) // 4)][:5]
            ],
            "skipped": skipped[:20],
            "unconfirmed": unconfirmed[:5],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(EVIDENCE, f"{prop}.json"), "w"), indent=1)
    print(
        f"{prop} {tier}: {len(results)}/{len(cases)} cases, states={tot['states']} "
        f"transitions={tot['transitions']} traces={tot['traces']} "
        f"outcomes={len(outcomes)} worst={worst:.2e} wall={time.time() - t0:.1f}s"
        + (f" SKIPPED={len(skipped)}" if skipped else "")
        + (f" UNCONFIRMED={[(u['case']['id'], u['violations'][:1]) for u in unconfirmed]}" if unconfirmed else "")
    )
    for k in known:
        if k in seen_known:
            print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for path, rec in violations:
        print(f"# {rec['case']['id']}: {rec['violations'][0][:400]}")
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    os._exit(1 if violations else 0)


if __name__ == "__main__":
    main()
