"""Controlled execution of a model: the answers of the nonlinear solver (the
environment of the time stepping) are decided by the exploration."""

import fenics as f
import numpy as np

from mc.build import Run, check_trajectory


class Horizon(Exception):
    """more attempts than any admissible execution makes"""


class Controlled(f.NewtonSolver):
    """answers of the solver, decided by a script of letters

    "a": converges in few iterations, "b": converges in many iterations,
    "x": does not converge; after the script: "a".

    With `real`, a converging attempt is solved by the original solver; a
    diverging one leaves garbage in the solution, as a diverged Newton loop does.
    """

    FAST, SLOW = 2, 7

    def __init__(self, run, script, real, horizon, fast=2, slow=7, tail="a"):
        super().__init__()
        self.sim, self.script, self.real = run.sim, list(script), real
        self.inner = run.sim.h_transport_problem.newton_solver
        self.horizon = horizon
        self.log = []  # (outcome, stepsize) of every attempt
        self.fast, self.slow, self.tail = fast, slow, tail

    def solve(self, problem, vector):
        n = len(self.log)
        if n >= self.horizon:
            raise Horizon()
        o = self.script[n] if n < len(self.script) else self.tail
        self.log.append((o, float(self.sim.dt.value) if self.sim.dt else 0.0))
        if o == "x":
            if self.real:
                a = vector.get_local()
                vector.set_local(a * 3.0 + 17.0)
                vector.apply("insert")
            return 30, False
        if self.real:
            it, ok = self.inner.solve(problem, vector)
            if not ok:
                self.log[-1] = ("n", self.log[-1][1])
                return it, ok
        return (self.fast if o == "a" else self.slow), True


def control(run, script, real=True, horizon=400, **kw):
    c = Controlled(run, script, real, horizon, **kw)
    run.sim.h_transport_problem.newton_solver = c
    return c


def run_model(case):
    """build, run, and check every accepted step against the reference"""
    spec = case["spec"]
    r = Run(spec)
    r.initialise()
    c = None
    if case.get("script") is not None:
        c = control(r, case["script"])
    r.run()
    tol = 5e-6
    if spec.get("coord", "cartesian") != "cartesian":
        # integrands in 1/r: the quadrature rule of the code isn't exact
        tol = 1e-4 if min(spec.get("verts", [1.0])) == 0 else 2e-5
    bad, worst, n = check_trajectory(r, tol=case.get("tol", tol), heat=case.get("heat"))
    if n == 0:
        bad.append("no state was produced")
    bad += quick_times(r, c)
    return {
        "violations": bad[:6],
        "worst": worst,
        "states": n,
        "transitions": len(c.log) if c else n,
        "traces": 1,
        "outcome": outcome(r),
    }


def quick_times(r, c=None):
    if not r.sp.get("settings", {}).get("transient", True):
        return []
    ts = [row["t"] for row in r.rows]
    out = []
    if any(b <= a for a, b in zip([0.0] + ts, ts)):
        out.append(f"times do not increase: {ts}")
    if ts and abs(ts[-1] - r.sp["final"]) > 1e-5 * abs(r.sp["final"]):
        out.append(f"ended at {ts[-1]} instead of {r.sp['final']}")
    if c is not None:
        acc = [d for o, d in c.log if o in "ab"]
        dts = np.diff([0.0] + ts)
        if len(acc) != len(dts) or np.max(
            np.abs(np.array(acc) - dts) / np.maximum(np.array(acc), 1e-300)
        ) > 1e-6:
            out.append(f"accepted stepsizes {acc} but times {ts}")
    return out


def outcome(r):
    if not r.rows:
        return "empty"
    last = r.rows[-1]
    return f"{len(r.rows)}:{float(np.sum(last['c'])):.6g}:{float(np.sum(last['T'])):.6g}"
