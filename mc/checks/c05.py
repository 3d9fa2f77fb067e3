"""Results are computed and written at exactly the requested steps."""

import itertools

BOUNDS = {
    "quick": "runs of 1 to 8 steps (constant, adaptive, with milestones, with rejected attempts) and steady "
    "runs; runs whose last step reaches the final time only within rounding (time scales 1e-10 to 1e6); every step inspected, times and values; all combinations of compute every 1-3 x export every None,1-3; XDMF every "
    "1-3 or last, checkpoint on/off; text exports with and without times, at each or last; runs of 12 and 26 steps with intervals 7, 10, 11, 30; unsorted and repeated text-export times; steps that end within 1e-2 to 1e-4 of the requested times and of the final one without being them",
    "thorough": "as quick with up to 14 steps and intervals up to 5",
}
ASSUMPTIONS = ["exports of a run are written in the order in which they are listed"]


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(1, 15 if big else 9):
        for kind in ("const", "adapt", "miles", "reject"):
            out.append({"id": f"{kind}-{n}", "n": n, "kind": kind, "group": f"{kind}{n}", "cost": n,
                        "top": 5 if big else 3})
    # steps that only reach the final time within rounding errors, and other time scales
    for n, d in itertools.product(range(2, 15 if big else 12), (0.1, 0.3, 1e-7, 1e-10, 86400.1)):
        if n in (3, 6, 7, 8, 10, 11) or big:
            out.append({"id": f"round-{n}-{d}", "n": n, "d": d, "kind": "round", "group": f"round{n}", "cost": n,
                        "top": 2})
    # more than ten steps, intervals of more than ten steps and longer than the run
    for n, kind in itertools.product((12, 26) if not big else (11, 12, 25, 26, 101), ("const", "miles", "reject")):
        out.append({"id": f"many-{kind}-{n}", "n": n, "kind": kind, "group": f"many{kind}{n}", "cost": n, "every": [1, 7, 10, 11, 30]})
    # steps that end close to the final time and to the requested times, but not at them
    for e in (1e-2, 1e-3, 1e-4):
        out.append({"id": f"near-{e}", "n": 4, "e": e, "kind": "near", "group": "near", "cost": 20, "top": 2})
    out.append({"id": "steady", "n": 1, "kind": "steady", "top": 3})
    for q in ("retention", "solute", "1", "T"):
        out.append({"id": f"field-{q}", "n": 3, "kind": "const", "field": q, "top": 2, "group": "field"})
        out.append({"id": f"field-{q}-steady", "n": 1, "kind": "steady", "field": q, "top": 2, "group": "field"})
    return out


def config(case):
    n = case["n"]
    k = case["kind"]
    if k == "steady":
        return {"steady": True}, ""
    if k == "const":
        return {"final": float(n), "dt": {"initial_value": 1.0}}, ""
    if k == "round":
        return {"final": n * case["d"], "dt": {"initial_value": case["d"]}}, ""
    if k == "near":
        e = case["e"]
        return {"final": 4.0, "dt": {"initial_value": 1.0, "stepsize_change_ratio": 2.0, "dt_min": 1e-5,
                                     "milestones": [2 * (1 - e), 2.0, 2 * (1 + e), 4 * (1 - e)]}}, ""
    if k == "adapt":
        return {"final": float(2**n - 1), "dt": {"initial_value": 1.0, "stepsize_change_ratio": 2.0, "dt_min": 1e-3}}, ""
    if k == "miles":
        return {"final": float(n), "dt": {"initial_value": 1.0, "milestones": [0.5, 0.5 * n, 0.75 * n]}}, ""
    return {"final": float(n), "dt": {"initial_value": 1.0, "stepsize_change_ratio": 2.0, "dt_min": 1e-3}}, "axa"


def run(case):
    import os
    import re

    import festim as F
    from mc.explore import Controlled

    cfg, script = config(case)
    field = case.get("field", "T")
    s = F.Simulation(log_level=50)
    s.mesh = F.MeshFromVertices([0, 0.5, 1])
    mat = F.Material(1, 1, 0)
    s.materials = mat
    s.T = F.Temperature(500 + 10 * F.x if case["kind"] == "steady" else 500 + (10 + 1 / case.get("d", 1.0) * F.t) * (1 + F.x))
    s.boundary_conditions = [F.DirichletBC(1, 1 + F.t / case.get("d", 1.0), 0)]
    if case.get("field"):
        s.traps = F.Trap(1, 0.1, 1, 0.1, mat, 1)
    steady = bool(cfg.get("steady"))
    if steady:
        s.settings = F.Settings(1e-10, 1e-10, transient=False)
    else:
        s.settings = F.Settings(1e-10, 1e-10, final_time=cfg["final"], update_jacobian=False)
        s.dt = F.Stepsize(**cfg["dt"])
    every = case.get("every") or list(range(1, case["top"] + 1))
    dqs = []
    for c, e in itertools.product(every, [None] + every):
        dqs.append((c, e, F.DerivedQuantities(
            [F.AverageVolume(field, 1), F.TotalVolume(field, 1)], nb_iterations_between_compute=c,
            nb_iterations_between_exports=e, filename=f"dq/{c}-{e}.csv")))
    xs = []
    for m, ck in itertools.product(every + ["last"], (True, False)):
        xs.append((m, ck, F.XDMFExport(field, label="u", mode=m, checkpoint=ck, filename=f"x-{m}-{ck}.xdmf")))
    ts = []
    fin = cfg.get("final")
    tl = [None] if steady else [None, [fin], [fin / 2, fin], [fin / 2], [fin, fin / 2], [fin / 2, 2 * fin / 2, fin / 4, fin / 2]]
    if not steady and case["kind"] in ("adapt", "reject"):
        tl = [None, [fin]]
    for i, (tt, last) in enumerate(itertools.product(tl, (True, False))):
        ts.append((tt, last, F.TXTExport(field, filename=f"t/{i}.txt", times=tt, write_at_last=last)))

    bad, hist, prof = [], [], []
    xv = [0, 0.5, 1]

    def profile():
        """values of the field at the vertices, from the unknowns themselves"""
        u = s.h_transport_problem.u
        if field == "T":
            return [s.T.T(v) for v in xv]
        comp = u.split(True) if u.function_space().num_sub_spaces() else [u]
        use = {"solute": [0], "1": [1]}.get(field, [0, 1])
        return [sum(comp[j](v) for j in use) for v in xv]

    def values():
        """at the end: the recorded and written values are those of their steps"""
        import fenics as f
        import numpy as np

        at = {t: p for t, p in zip(hist, prof)}

        def near(t):
            k = min(at, key=lambda v: abs(v - t))
            return at[k]

        for c, e, q in dqs:
            for t, a, b in zip(q.t, q[0].data, q[1].data):
                p = near(t)
                w = (p[0] + 2 * p[1] + p[2]) / 4
                if abs(a - w) > 1e-8 * (1 + abs(w)) or abs(b - w) > 1e-8 * (1 + abs(w)):
                    bad.append(f"quantities every {c}: {a}, {b} at t={t}, expected {w}")
            if os.path.exists(f"dq/{c}-{e}.csv"):
                for line in open(f"dq/{c}-{e}.csv").read().split("\n")[1:]:
                    if line:
                        t, a, b = map(float, line.split(","))
                        p = near(t)
                        w = (p[0] + 2 * p[1] + p[2]) / 4
                        if abs(a - w) > 1e-8 * (1 + abs(w)) or abs(b - w) > 1e-8 * (1 + abs(w)):
                            bad.append(f"file of quantities every {c}: {a}, {b} at t={t}, expected {w}")
        for m, ck, x in xs:
            name = f"x-{m}-{ck}.xdmf"
            if not ck or not os.path.exists(name):
                continue
            u = f.Function(f.FunctionSpace(s.mesh.mesh, "DG" if field == "retention" else "CG", 1))
            for k, t in enumerate(xdmf_times(name)):
                with f.XDMFFile(name) as g:
                    g.read_checkpoint(u, "u", k)
                if max(abs(u(v) - w) for v, w in zip(xv, near(t))) > 1e-8 * (1 + max(map(abs, near(t)))):
                    bad.append(f"{name}: values {[u(v) for v in xv]} at t={t}, expected {near(t)}")
        for k, (tt, last, x) in enumerate(ts):
            if not os.path.exists(f"t/{k}.txt"):
                continue
            d = np.loadtxt(f"t/{k}.txt", delimiter=",", skiprows=1, ndmin=2)
            cols = list(hist) if tt is None else [v for v in hist if any(abs(v - w) <= 1e-9 * w for w in tt)]
            for j, t in enumerate(cols):
                for row in d:
                    w = float(np.interp(row[0], xv, near(t)))
                    if abs(row[1 + j] - w) > 1e-8 * (1 + abs(w)):
                        bad.append(f"t/{k}.txt: {row[1 + j]} at x={row[0]} in the column of t={t}, expected {w}")
                        break

    def csv_rows(p):
        if not os.path.exists(p):
            return None
        return [float(l.split(",")[0]) for l in open(p).read().split("\n")[1:] if l]

    def xdmf_times(p):
        if not os.path.exists(p):
            return []
        return [float(v) for v in re.findall(r'<Time Value="([^"]*)"', open(p).read())]

    def txt_cols(p):
        if not os.path.exists(p):
            return None
        return open(p).readline().strip().split(",")[1:]

    def same(a, b):
        return a is not None and b is not None and len(a) == len(b) and all(
            abs(x - y) <= 1e-9 * abs(y) for x, y in zip(a, b))

    def inspect(t, when):
        """compare everything with the expectation after the step at t"""
        i = len(hist) - 1
        times = [x for x in hist]
        done = steady or abs(t - fin) <= 1e-5 * fin
        for c, e, q in dqs:
            want = [x for j, x in enumerate(times) if j % c == 0]
            if not same(list(q.t), want) or any(not same(list(d.t), want) or len(d.data) != len(want) for d in q):
                bad.append(f"{when}: quantities every {c} computed at {q.t}, expected {want}")
            # rows in the file: those computed when the file was last written
            if steady:
                wj = 0
            elif e is None:
                wj = i if done else None
            else:
                wj = (i // e) * e
            wantf = None if wj is None else [x for j, x in enumerate(times[: wj + 1]) if j % c == 0]
            got = csv_rows(f"dq/{c}-{e}.csv")
            if (got is None) != (wantf is None) or (got is not None and not same(got, wantf)):
                bad.append(f"{when}: file of quantities every {c}, written every {e}: {got}, expected {wantf}")
        for m, ck, x in xs:
            if m == "last":
                want = [t] if done else []
            else:
                want = [v for j, v in enumerate(times) if j % m == 0]
            got = xdmf_times(f"x-{m}-{ck}.xdmf")
            if not same(got, want):
                bad.append(f"{when}: XDMF every {m} (checkpoint {ck}) has {got}, expected {want}")
        for k, (tt, last, x) in enumerate(ts):
            if tt is None:
                cols = list(times)
                end = done
            else:
                cols = [v for v in times if any(abs(v - w) <= 1e-9 * w for w in tt)]
                end = steady or abs(t - max(tt)) <= 1e-9 * t or t > max(tt)
            want = cols if (cols and (end or not last)) else None
            got = txt_cols(f"t/{k}.txt")
            if steady:
                ok = got == ["t=steady"]
            else:
                hdr = None if want is None else [f"t={v:.2e}s" for v in want]
                ok = got == hdr
            if not ok:
                bad.append(f"{when}: text export times={tt} write_at_last={last}: {got}, expected {want}")

    class Watch(F.DerivedQuantity):
        title = "watch"

        def __init__(self):
            super().__init__("T")

        def compute(self):
            hist.append(float(s.t))
            prof.append(profile())
            inspect(float(s.t), f"step {len(hist)}")
            return 0.0

    s.exports = [q for _, _, q in dqs] + [x for _, _, x in xs] + [x for _, _, x in ts] + [F.DerivedQuantities([Watch()])]
    s.initialise()

    class Own:
        sim = s

    s.h_transport_problem.newton_solver = Controlled(Own, script, False, 200)
    s.run()
    if not hist:
        bad.append("no step")
    else:
        inspect(hist[-1], "end")
        values()
    return {"violations": bad[:4], "states": len(hist), "transitions": len(hist) * (len(dqs) + len(xs) + len(ts)),
            "traces": 1, "outcome": f"{case['kind']}:{len(hist)}"}
