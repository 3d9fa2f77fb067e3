"""Simulations in one process don't influence each other."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "11 models; pairs of different models with objects of their own: all 20 interleavings of {build, initialise, run} of the two, and all operations of one nested in every "
    "step of the run of the other; pairs of 4 kinds of models made of the same lists, expressions and functions as arguments, in all 20 interleavings; models written by assigning or by appending to the lists of a new simulation; one after the other sharing each single part, each pair (5 models) and all of {mesh, materials, materials and "
    "traps, temperature, conditions, sources, initial conditions, stepsize, settings, quantities}",
    "thorough": "as quick, all ordered pairs of models, all pairs of parts for all models",
}
ASSUMPTIONS = ["objects shared by two simulations are used by one after the other is finished; each initialises before it runs"]

PARTS = ["mesh", "mats", "traps", "T", "bcs", "srcs", "ics", "dt", "settings", "exports"]


def models():
    d = S.features()
    d["steady"] = S.base(T="300+20*x", traps=[S.trap(1, [0])], bcs=[{"type": "dirichlet", "value": 1.3, "surf": [1]}], settings={"transient": False})
    for k, s in d.items():
        if k == "steady":
            s.pop("dt"), s.pop("final")
            continue
        s["final"], s["dt"] = 0.5, {"initial_value": 0.2, "stepsize_change_ratio": 1.5, "dt_min": 1e-4, "milestones": [0.3]}
    return d


def variant(s):
    """the same structure with other numbers, to follow on shared parts"""
    import copy

    v = copy.deepcopy(s)
    if "cyl" == s.get("coord", "")[:3]:
        v["verts"] = [1.0 + x for x in (0.0, 0.2, 0.35, 0.5, 0.65, 0.9, 1.0)]
    else:
        v["verts"] = [0.0, 0.2, 0.35, 0.5, 0.65, 0.9, 1.0]
    for m in v["mats"]:
        m["D"] = [m["D"][0] * 1.4, m["D"][1] + 0.01]
    for t in v.get("traps", []):
        t["k"], t["p"] = t["k"] * 1.2, t["p"] * 0.7
        if "prm" not in t:
            t["dens"] = "1.4+0.3*x"
    if not isinstance(v["T"], dict):
        v["T"] = "330+10*x" + ("+15*t" if "final" in v else "")
    else:
        v["T"] = dict(v["T"], init="310+10*x") if v["T"]["transient"] else v["T"]
    for b in v.get("bcs", []):
        if b["type"] == "dirichlet":
            b["value"] = 315.0 if b.get("field") == "T" else 0.8
    v["srcs"] = [dict(x) for x in v.get("srcs", [])] + [{"type": "source", "value": 0.6, "field": 0, "vol": [1]}]
    if v.get("ics"):
        v["ics"] = [{"field": 0, "value": "0.6+0.5*x"}]
    if "final" in v:
        v["final"], v["dt"] = 0.4, {"initial_value": 0.1, "stepsize_change_ratio": 1.2, "dt_min": 1e-4}
    return v


def words():
    """interleavings of two sequences of three operations"""
    for pos in itertools.combinations(range(6), 3):
        yield "".join("A" if i in pos else "B" for i in range(6))


def cases(tier):
    out = []
    names = list(models())
    n = len(names)
    pairs = [(names[i], names[(i + k) % n]) for i in range(n) for k in ((1,) if tier == "quick" else range(1, n))]
    for a, b in pairs:
        for style in ("attributes", "append"):
            out.append({"id": f"inter-{a}-{b}-{style}", "kind": "inter", "a": a, "b": b, "style": style, "cost": 20, "group": a})
    for a, b in pairs:
        out.append({"id": f"nest-{a}-{b}", "kind": "nest", "a": a, "b": b, "style": "append", "cost": 12, "group": a})
    for a, b in itertools.product(ARGS, ARGS):
        out.append({"id": f"args-{a}-{b}", "kind": "args", "a": a, "b": b, "cost": 20, "group": "args"})
    for a in names:
        out.append({"id": f"share-{a}", "kind": "share", "a": a, "cost": 30, "group": a, "short": tier == "quick" and a not in ("traps", "heat", "extrinsic", "kinetics", "chempot")})
    return out


ARGS = ["transient", "steady", "chempot", "heat"]


def arguments():
    """what two scripts may have in common: plain lists, tuples and expressions"""
    import festim as F

    return {"verts": [0.0, 0.5, 0.1, 0.25, 0.7, 1.0], "ids": [3, 1], "borders": [[0.0, 0.25], [0.5, 1.0]], "mid": [0.25, 0.5], "names": ["b", "a"],
            "k": [1.2, 0.7], "E": [0.01, 0.02], "p": [0.6, 0.4], "dens": [1.0 + 0.5 * F.x, 0.8], "surf": [2, 1], "vols": [2, 1], "milestones": [0.3, 0.15],
            "times": [0.4, 0.22], "point": [0.6], "T": 300 + 20 * F.x, "c": 1.0 + F.x, "kth": lambda T: 2.0 + 0.001 * T, "prm": 0.3 + F.t,
            "fun": lambda T, c, p: 0.2 * p - 0.1 * c}


def arg_model(L, kind, which):
    """model number `which` of a kind, made of the arguments L"""
    import festim as F

    w = 1.0 + 0.4 * which
    tr = kind != "steady"
    sim = F.Simulation(log_level=50)
    sim.mesh = F.MeshFromVertices(L["verts"])
    kw = [{}, {}]
    if kind == "chempot":
        kw = [{"S_0": 1.5 * w, "E_S": 0.01}, {"S_0": 0.9, "E_S": 0.02 * w}]
    if kind == "heat":
        kw = [{"thermal_cond": L["kth"], "heat_capacity": 1.1 * w, "rho": 1.2}, {"thermal_cond": 3.0 * w, "heat_capacity": 1.0, "rho": 1.0}]
    sim.materials = [F.Material(L["ids"], 1.0 * w, 0.02, borders=L["borders"], name="a", **kw[0]), F.Material(2, 0.7, 0.03 * w, borders=L["mid"], name="b", **kw[1])]
    sim.traps = [F.Trap(L["k"], L["E"], L["p"], L["E"], L["names"], L["dens"]), F.Trap(0.5 * w, 0.01, 0.3, 0.02, "a", L["c"])]
    sim.sources = [F.Source(L["c"], L["vols"], "0"), F.RadioactiveDecay(0.1 * w, L["vols"], "all")]
    sim.boundary_conditions = [F.CustomFlux(L["surf"], L["fun"], 0, p=L["prm"]) if tr else F.DirichletBC(L["surf"], L["c"], 0)]
    if kind == "heat":
        sim.boundary_conditions.append(F.DirichletBC(L["surf"], L["T"], "T"))
        sim.T = F.HeatTransferProblem(initial_condition=L["T"])
    else:
        sim.T = L["T"] if which else F.Temperature(L["T"])
    if tr:
        sim.initial_conditions = [F.InitialCondition(0, L["c"])]
        sim.dt = F.Stepsize(0.1 * w, milestones=L["milestones"])
    q = [F.PointValue(k, L["point"]) for k in ("0", "1", "2", "T", "retention")] + [F.TotalVolume(k, v) for k in ("solute", 1, "T") for v in L["vols"] + L["ids"][:1]]
    dq = F.DerivedQuantities(q)
    sim.exports = [dq]
    if which == 0:
        sim.exports.append(F.TXTExport("solute", "p0.txt", times=L["times"] if tr else None))
    else:
        sim.exports.append(F.XDMFExport("1", mode="last", checkpoint=False))
    sim.settings = F.Settings(1e-10, 1e-11, transient=tr, final_time=0.5 if tr else None, chemical_pot=kind == "chempot", traps_element_type="DG", maximum_iterations=40)
    return sim, dq


def run_args(case):
    import numpy as np

    def alone(kind, which):
        sim, dq = arg_model(arguments(), kind, which)
        sim.initialise()
        sim.run()
        return [list(r) for r in dq.data[1:]]

    ref = alone(case["a"], 0), alone(case["b"], 1)
    bad, n = [], 0
    for w in words():
        L = arguments()
        sims = [None, None]
        stage = [0, 0]
        try:
            for l in w:
                i = "AB".index(l)
                if stage[i] == 0:
                    sims[i] = arg_model(L, case["ab"[i]], i)
                elif stage[i] == 1:
                    sims[i][0].initialise()
                else:
                    sims[i][0].run()
                stage[i] += 1
                n += 1
        except Exception as e:
            bad.append(f"{case['a']} (A) and {case['b']} (B) made of the same arguments, order {w}: {type(e).__name__}: {' '.join(str(e).split())[:200]}")
            continue
        for i in (0, 1):
            got = [list(r) for r in sims[i][1].data[1:]]
            if [r[0] for r in got] != [r[0] for r in ref[i]] or not np.allclose(np.array(got), np.array(ref[i]), rtol=1e-7, atol=1e-10):
                bad.append(f"{case['a']} (A) and {case['b']} (B) made of the same arguments, order {w}: {'AB'[i]} gives {got[-1][:4]} after {len(got)} steps, alone {ref[i][-1][:4]} after {len(ref[i])}")
    return {"violations": bad[:6], "worst": 0.0, "states": n, "transitions": n, "traces": 20, "outcome": case["id"]}


def run(case):
    if case["kind"] == "args":
        return run_args(case)
    import fenics as f
    import festim as F
    import numpy as np
    from mc import build as B

    sets = models()

    class Sim:
        """one simulation and what it recorded"""

        def __init__(self, spec, style):
            self.spec, self.style, self.hook = spec, style, None
            self.r = None

        def build(self):
            r = B.Run(self.spec)
            if self.style == "append":
                s = r.sim
                n = F.Simulation(log_level=50)
                n.mesh, n.materials, n.T, n.settings = s.mesh, s.materials, s.T, s.settings
                if s.dt:
                    n.dt = s.dt
                for t in s.traps:
                    n.traps.append(t)
                for k in ("boundary_conditions", "sources", "initial_conditions", "exports"):
                    for x in getattr(s, k):
                        getattr(n, k).append(x)
                r.sim = n
            self.r = r

        def initialise(self):
            self.r.initialise()

        def run(self):
            if self.hook:
                take = self.r.take

                def hooked(field, fn):
                    take(field, fn)
                    if field == "solute":
                        self.hook(len(self.r.rows))

                self.r.take = hooked
            self.r.run()

        def result(self):
            u = self.r.sim.h_transport_problem.u.vector().get_local()
            return {"rows": self.r.rows, "u": u, "T": self.r.sim.T.T.vector().get_local(), "dq": [list(q.data) for q in self.r.dq if isinstance(q, F.AdsorbedHydrogen)],
                    "t": self.r.sim.t}

    def fresh(spec):
        s = Sim(spec, "attributes")
        s.build(), s.initialise(), s.run()
        return s.result()

    def differ(a, b):
        if len(a["rows"]) != len(b["rows"]):
            return f"{len(a['rows'])} steps, alone {len(b['rows'])}"
        if a["t"] != b["t"]:
            return f"ends at {a['t']}, alone {b['t']}"
        for x, y in zip(a["rows"], b["rows"]):
            if abs(x["t"] - y["t"]) > 1e-12:
                return f"step at {x['t']}, alone {y['t']}"
            for k in ("c", "T"):
                if x[k].shape != y[k].shape:
                    return f"{k} has shape {x[k].shape}, alone {y[k].shape}"
                e = np.abs(x[k] - y[k]).max() / np.abs(y[k]).max()
                if not e < 1e-7:
                    return f"{k} differs by {e:.1e} at t={x['t']}"
            if len(x["traps"]) != len(y["traps"]):
                return f"{len(x['traps'])} traps, alone {len(y['traps'])}"
            for i, (p, q) in enumerate(zip(x["traps"] + [d for d in x["dens"] if d is not None], y["traps"] + [d for d in y["dens"] if d is not None])):
                e = np.abs(p - q).max() / max(np.abs(q).max(), 1e-9)
                if not e < 1e-7:
                    return f"trap {i} differs by {e:.1e} at t={x['t']}"
        for k in ("u", "T"):
            if a[k].shape != b[k].shape or not np.abs(a[k] - b[k]).max() <= 1e-7 * np.abs(b[k]).max():
                return f"final {k} differs"
        for p, q in zip(a["dq"], b["dq"]):
            if len(p) != len(q) or not np.allclose(p, q, rtol=1e-7, atol=1e-12):
                return "adsorbed hydrogen differs"
        return None

    bad, n, traces = [], 0, 0
    if case["kind"] in ("inter", "nest"):
        sa, sb = sets[case["a"]], sets[case["b"]]
        ra, rb = fresh(sa), fresh(sb)
    if case["kind"] == "inter":
        for w in words():
            A, C = Sim(sa, case["style"]), Sim(sb, case["style"])
            todo = {"A": iter((A.build, A.initialise, A.run)), "B": iter((C.build, C.initialise, C.run))}
            traces += 1
            try:
                for l in w:
                    next(todo[l])()
                    n += 1
            except Exception as e:
                bad.append(f"{case['a']} (A) and {case['b']} (B), order {w}: {type(e).__name__}: {' '.join(str(e).split())[:200]}")
                continue
            for nm, s, ref in (("A", A, ra), ("B", C, rb)):
                d = differ(s.result(), ref)
                if d:
                    bad.append(f"{case['a']} (A) and {case['b']} (B), order of build, initialise, run {w}: {nm}: {d}")
    elif case["kind"] == "nest":
        steps = len(ra["rows"])
        for k in range(1, steps + 1):
            for first in range(3):
                # B: the operations from `first` on at step k of A, the others before
                A, C = Sim(sa, "append"), Sim(sb, "append")
                ops = [C.build, C.initialise, C.run]
                traces += 1

                def hook(i, k=k, ops=ops, first=first):
                    if i == k:
                        for o in ops[first:]:
                            o()

                try:
                    A.build()
                    A.initialise()
                    for o in ops[:first]:
                        o()
                    A.hook = hook
                    A.run()
                    n += 6
                except Exception as e:
                    bad.append(f"{case['b']} within step {k} of {case['a']}: {type(e).__name__}: {' '.join(str(e).split())[:200]}")
                    continue
                for nm, s, ref in (("outer", A, ra), ("inner", C, rb)):
                    d = differ(s.result(), ref)
                    if d:
                        bad.append(f"{case['b']} within step {k} of {case['a']} (from operation {first + 1}): {nm}: {d}")
    else:
        base = sets[case["a"]]
        var = variant(base)
        choices = [[p] for p in PARTS] + [list(c) for c in itertools.combinations(PARTS, 2)] + [PARTS]
        keys = {"mesh": ["verts", "coord"], "mats": ["mats"], "traps": ["traps", "mats"], "T": ["T"], "bcs": ["bcs"], "srcs": ["srcs"], "ics": ["ics"], "dt": ["dt"], "settings": ["settings", "final"], "exports": []}
        if case.get("short"):
            choices = [c for c in choices if len(c) != 2]
        if "final" not in base:
            choices = [c for c in choices if "dt" not in c and "ics" not in c]
        first = None
        for ch in choices:
            # the second simulation: parameters of the variant except in the shared parts
            sp = dict(var)
            for p in ch:
                for k in keys[p]:
                    if k in base:
                        sp[k] = base[k]
                    else:
                        sp.pop(k, None)
            A = Sim(base, "attributes")
            traces += 1
            try:
                A.build(), A.initialise(), A.run()
                C = Sim(sp, "attributes")
                C.build()
                s, a = C.r.sim, A.r.sim
                if "mesh" in ch:
                    s.mesh = a.mesh
                if "mats" in ch or "traps" in ch:
                    s.materials = a.materials
                    C.r.mats = A.r.mats
                    C.r.traps = A.r.traps if "traps" in ch else [B.make_trap(t, A.r.mats) for t in sp.get("traps", [])]
                    s.traps = C.r.traps
                for p, k in (("T", "T"), ("bcs", "boundary_conditions"), ("srcs", "sources"), ("ics", "initial_conditions"), ("dt", "dt"), ("settings", "settings")):
                    if p in ch:
                        setattr(s, k, getattr(a, k))
                if "exports" in ch:
                    for q in A.r.dq:
                        if hasattr(q, "owner"):
                            q.owner = C.r
                    C.r.dq = A.r.dq
                    s.exports = a.exports
                C.initialise()
                C.run()
                n += 6
            except Exception as e:
                bad.append(f"{case['a']}: a second simulation that shares {ch}: {type(e).__name__}: {' '.join(str(e).split())[:200]}")
                continue
            d = differ(C.result(), fresh(sp))
            if d:
                bad.append(f"{case['a']}: a second simulation that shares {ch}: {d}")
    return {"violations": bad[:6], "worst": 0.0, "states": n, "transitions": n, "traces": traces, "outcome": f"{case['id']}"}
