"""Time stepping explored as a transition system.

The environment of the time stepping is the nonlinear solver: at every attempt
it may converge quickly, converge slowly, or fail.  All sequences of answers up
to a depth are enumerated on the real code (stateless exploration: one
execution of the real simulation per leaf of the tree of answers)."""

import fenics as f
import festim as F
import numpy as np

from mc.explore import Controlled, Horizon

RT = 2e-5  # festim identifies two times which differ by less than 1e-5 (relative)


class Probe(F.DerivedQuantity):
    """records the time of every accepted step"""

    def __init__(self, owner):
        super().__init__("T")
        self.owner = owner

    @property
    def title(self):
        return "probe"

    def compute(self):
        self.owner.times.append(float(self.owner.sim.t))
        return 0.0


class Stepping:
    """smallest model: one material, constant temperature, no solve"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.times = []
        s = F.Simulation(log_level=50)
        s.mesh = F.MeshFromVertices([0, 0.5, 1])
        s.materials = F.Material(1, 1, 0)
        s.T = F.Temperature(500)
        if cfg.get("steady"):
            s.settings = F.Settings(1e-10, 1e-10, transient=False)
        else:
            s.settings = F.Settings(
                1e-10, 1e-10, final_time=cfg["final"], update_jacobian=bool(cfg.get("jac")))
            d = dict(cfg["dt"])
            if isinstance(d.get("max_stepsize"), list):
                d["max_stepsize"] = pieces(d["max_stepsize"])
            if cfg.get("plain"):
                s.dt = d["initial_value"]
            else:
                s.dt = F.Stepsize(**d)
        self.txt = [
            F.TXTExport("T", filename=f"p{i}.txt", times=list(ts), write_at_last=True)
            for i, ts in enumerate(cfg.get("txt", []))
        ]
        s.exports = [F.DerivedQuantities([Probe(self)])] + self.txt
        self.sim = s
        s.initialise()

    def play(self, script, tail="a", horizon=120, fast=4, slow=5):
        """run with the given answers; True / exception"""
        self.times = []
        self.ctl = Controlled(self, script, False, horizon, fast=fast, slow=slow, tail=tail)
        self.sim.h_transport_problem.newton_solver = self.ctl
        try:
            self.sim.run()
            self.end = None
        except Horizon:
            self.end = "horizon"
        except Exception as e:
            self.end = e
        return self


def pieces(p):
    """[[t0, v0], [t1, v1]...] -> function of time (None: no limit)"""

    def g(t):
        v = None
        for t0, x in p:
            if t >= t0:
                v = x
        return v

    return g


def tree(cfg, depth, alphabet="abx", tails=("a", "x"), horizon=120):
    """every distinct execution whose first `depth` attempts are decided by the
    alphabet, and whose later attempts are all answered by a tail letter"""
    for tail in tails:
        stack = [""]
        while stack:
            pre = stack.pop()
            r = Stepping(cfg).play(pre, tail, horizon)
            yield r, pre, tail
            used = len(r.ctl.log)
            full = pre
            for i in range(len(pre), min(used, depth)):
                for l in alphabet:
                    if l != tail:
                        stack.append(full + l)
                full += tail


def reachable_milestones(cfg):
    ms = list(cfg["dt"].get("milestones") or [])
    for ts in cfg.get("txt", []):
        ms += list(ts)
    return sorted({m for m in ms if 0 < m <= cfg["final"] * (1 + 1e-9)})


def near(a, b, rt=RT):
    return abs(a - b) <= rt * abs(b)


def check_ends(r):
    """C01: exact end, strictly increasing times, error when it cannot go on"""
    cfg, log, out = r.cfg, r.ctl.log, []
    fin = cfg["final"]
    ts = r.times
    if r.end == "horizon":
        return [f"the run does not end: {len(log)} attempts, t={r.sim.t}"]
    prev = 0.0
    for t in ts:
        if not t > prev:
            out.append(f"time does not increase: {prev} -> {t}")
        prev = t
    if ts and max(ts) > fin * (1 + 1e-9):
        out.append(f"final time exceeded: {max(ts)} > {fin}")
    acc = [d for o, d in log if o != "x"]
    if len(acc) != len(ts):
        out.append(f"{len(acc)} converged attempts but {len(ts)} steps")
    else:
        prev = 0.0
        for d, t in zip(acc, ts):
            if abs(prev + d - t) > 1e-9 * abs(t):
                out.append(f"step from {prev} with stepsize {d} recorded at {t}")
            prev = t
    if any(not d > 0 for _, d in log):
        out.append(f"stepsize not positive: {log}")
    d = cfg["dt"]
    ratio, dmin = d.get("stepsize_change_ratio"), d.get("dt_min")
    last_fail = bool(log) and log[-1][0] == "x"
    hopeless = last_fail and (
        ratio is None or dmin is None or log[-1][1] / ratio < dmin * (1 - 1e-9)
    )
    if r.end is None:
        if last_fail:
            out.append("ended normally after an attempt which did not converge")
        if not ts or not near(ts[-1], fin):
            out.append(f"ended at {ts[-1:]} instead of {fin}")
    else:
        if not hopeless:
            out.append(f"raised {type(r.end).__name__}: {r.end} though it could go on ({log[-2:]})")
    for (o, dd), nxt in zip(log, log[1:]):
        if o == "x":
            if ratio is None or dmin is None or dd / ratio < dmin * (1 - 1e-9):
                out.append("went on after an attempt which had to be fatal")
                break
            if not nxt[1] < dd:
                out.append(f"attempted again without a smaller stepsize: {dd} -> {nxt[1]}")
                break
    return out


def check_milestones(r):
    """C02: every milestone up to the final time (or the point of failure) is
    the time of a step, and never stepped over"""
    out = []
    reached = r.cfg["final"] if r.end is None else (r.times[-1] if r.times else 0.0)
    for m in reachable_milestones(r.cfg):
        if m <= reached * (1 + 1e-9) and not any(near(t, m) for t in r.times):
            out.append(f"milestone {m} stepped over: {r.times[:12]}")
    return out


def law(cfg, log, times):
    """C03: predicted stepsize of every attempt, from the documented law"""
    d = cfg["dt"]
    fin = cfg["final"]
    ratio, dmin = d.get("stepsize_change_ratio"), d.get("dt_min")
    mx = d.get("max_stepsize")
    if ratio is not None and (d.get("t_stop") is not None):
        mx = [[d["t_stop"], d["stepsize_stop_max"]]]
    ms = reachable_milestones(cfg)

    def clip(dt, t):
        nx = [m for m in ms if m > t and not np.isclose(t, m, atol=0)]
        if nx and t + dt > nx[0]:
            dt = nx[0] - t
        return min(dt, fin - t)

    t = 0.0
    dt = clip(d["initial_value"], 0.0)
    k = 0
    for i, (o, real) in enumerate(log):
        if abs(real - dt) > 1e-7 * abs(dt) + 1e-12 * fin:
            return [f"attempt {i} at t={t}: stepsize {real} instead of {dt} (answers {[x[0] for x in log[:i]]})"]
        dt = real
        if o == "x":
            if ratio is None or dmin is None:
                break
            dt = dt / ratio
            continue
        t = times[k] if k < len(times) else t + dt
        k += 1
        if ratio is None:
            dt = d["initial_value"]
        else:
            dt = dt * ratio if o == "a" else dt / ratio
            lim = pieces(mx)(t) if isinstance(mx, list) else mx
            if lim is not None:
                dt = min(dt, lim)
        dt = clip(dt, t)
    return []


WORDS = ["", "x", "x" * 12, "ax" * 15, "xxa" * 8, "a" * 30 + "x" * 9, "b" * 20, "ab" * 20, "bbbx" * 6, "aaaxb" * 8]


def explore_long(cfg, checks, words=WORDS, **kw):
    bad, states, trans, outs = [], 0, 0, set()
    adaptive = "stepsize_change_ratio" in cfg["dt"]
    words = words if adaptive else [w for w in words if "x" not in w or w == "x"]
    for w in words:
        r = Stepping(cfg).play(w, "a", 8000, **kw)
        states += len(r.times)
        trans += len(r.ctl.log)
        outs.add((len(r.times), str(r.end)[:20]))
        for c in checks:
            for b in c(r):
                bad.append(f"answers '{w}' then 'a': {b}")
    return {"violations": bad[:4], "states": states, "transitions": trans, "traces": len(words), "outcome": f"{len(outs)} behaviours", "worst": 0.0}


def explore(cfg, depth, checks, alphabet="abx", tails=("a", "x"), horizon=120):
    bad, n, states, trans, outs = [], 0, 0, 0, set()
    for r, pre, tail in tree(cfg, depth, alphabet, tails, horizon):
        n += 1
        states += len(r.times)
        trans += len(r.ctl.log)
        outs.add((len(r.times), str(r.end)[:20]))
        for c in checks:
            for b in c(r):
                bad.append(f"answers '{pre}' then '{tail}': {b}")
        if len(bad) > 3:
            break
    return {
        "violations": bad[:4], "states": states, "transitions": trans, "traces": n,
        "outcome": f"{len(outs)} behaviours", "worst": 0.0,
    }
