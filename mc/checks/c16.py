"""A simulation restarted from the fields exported at any step continues as the
uninterrupted one."""

import copy
import itertools

from mc import specs as S

BOUNDS = {
    "quick": "19 models with time-independent inputs (coordinates, 1 or 2 materials, 0-3 traps in CG or DG with ids in any order, sources, fluxes, Soret, computed temperature, chemical "
    "potential, 2D, 3D) of 4 steps x restart from every step (counted from either end of the file) x names of the fields; all fields compared at every later step; a file of 13 steps",
    "thorough": "as quick, 6 steps, and a second restart from every step of every restarted run",
}
ASSUMPTIONS = ["inputs independent of time; all fields exported with checkpoints at every step; adsorbed and extrinsic populations can't be restarted and are not claimed"]


def models():
    left = {"type": "dirichlet", "value": 2.0, "surf": [1]}
    ic = [{"field": 0, "value": "1.0+x"}]
    d = {}
    for coord in ("cartesian", "cylindrical", "spherical"):
        b = S.base(T="300+20*x", coord=coord, verts=S.V if coord == "cartesian" else S.VR, bcs=[left], ics=ic)
        d[f"{coord}-0"] = b
        d[f"{coord}-1"] = S.merge(b, {"traps": [S.trap(1, [0])], "ics": [{"field": 1, "value": "0.5*x"}]})
    b = d["cartesian-0"]
    d["traps2"] = S.merge(b, {"traps": [S.trap(1, [0], id=2), S.trap(2, [0], id=1)]})
    d["traps3"] = S.merge(b, {"traps": [S.trap(1, [0], id=7), S.trap(2, [0]), S.trap(3, [0], id=1)]})
    two = {"mats": [S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])]}
    d["two"] = S.merge(b, dict(two, traps=[S.trap(1, [0]), S.trap(2, [1])], settings={"traps_element_type": "DG"}))
    d["two-cg"] = S.merge(b, dict(two, traps=[S.trap(1, [0, 1])]))
    d["src"] = S.merge(b, {"traps": [S.trap(1, [0])], "srcs": [{"type": "source", "value": 0.4, "field": 0, "vol": [1]},
                                                               {"type": "decay", "lam": 0.3, "field": "all", "vol": [1]}]})
    d["fluxes"] = S.merge(S.base(T="300+20*x", ics=ic), {"bcs": [
        {"type": "recomb", "Kr": 0.7, "E": 0.01, "order": 2, "surf": [1]}, {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [2]}]})
    d["soret"] = S.merge(b, {"mats": [S.mat(1, Q="0.12+0.0001*T")], "settings": {"soret": True}})
    d["heat"] = S.base(T={"transient": True, "init": "300+20*x"}, mats=[S.therm(1)], ics=ic, traps=[S.trap(1, [0])],
                       bcs=[left, {"type": "convective", "h": 0.8, "T_ext": 350.0, "surf": [2]},
                            {"type": "dirichlet", "field": "T", "value": 300.0, "surf": [1]}],
                       srcs=[{"type": "source", "value": 100.0, "field": "T", "vol": [1]}])
    d["adaptive"] = S.merge(b, {"traps": [S.trap(1, [0])]})
    d["rect"] = S.merge(b, {"traps": [S.trap(1, [0])]})
    del d["rect"]["verts"]
    d["rect"]["rect"] = [2, 2]
    d["rect2"] = S.merge(d["rect"], {"mats": [S.mat(1), S.mat(2)], "settings": {"traps_element_type": "DG"}})
    d["box"] = S.merge(d["rect2"], {})
    d["box"]["rect"] = [2, 1, 1]
    d["chempot"] = S.merge(b, dict(two, settings={"chemical_pot": True}))
    d["chempot"]["mats"] = [S.mat(1, S=S.SOL[1], borders=[0, 0.5]), S.mat(2, S=S.SOL[2], borders=[0.5, 1.0])]
    d["chempot1"] = S.merge(b, dict(mats=[S.mat(1, S=S.SOL[1])], traps=[S.trap(1, [0])], settings={"chemical_pot": True}))
    d["chempot-henry"] = S.merge(d["chempot"], {})
    d["chempot-henry"]["mats"][1]["law"] = "henry"
    return d


def cases(tier):
    n = 6 if tier == "thorough" else 4
    out = []
    for name in models():
        for names in (0, 1) if name in ("cartesian-1", "traps3", "two") else (0,):
            if name == "cartesian-1" and not names:
                # files of more than ten steps
                out.append({"id": "long", "model": name, "n": 13, "names": names, "again": False, "group": name, "cost": 12})
            out.append({"id": f"{name}-{names}", "model": name, "n": n, "names": names, "again": tier == "thorough", "group": name, "cost": 6})
    return out


def run(case):
    import numpy as np
    import festim as F
    from mc.build import Run

    base = models()[case["model"]]
    n = case["n"]
    dts = [0.2] * n
    base["final"], base["dt"] = 0.2 * n, {"initial_value": 0.2}
    heat = isinstance(base["T"], dict)
    ids = []
    bad, worst, states = [], 0.0, 0
    count = itertools.count()
    cp = bool(base.get("settings", {}).get("chemical_pot"))
    # the reported concentration is a projection of the potential's: not reversible exactly
    tol = 1e-5 if cp else 1e-7

    def execute(sp, restart, steps):
        """restart: {field: (file, label, step)}"""
        k = next(count)
        r = Run(sp, observe=True)
        ids[:] = r.ref.trap_ids()
        fields = ["solute"] + [str(i) for i in ids] + (["T"] if heat else [])
        ex = {fl: F.XDMFExport(fl if not case["names"] or fl == "T" else {"solute": 0}.get(fl, fl if fl == "solute" else int(fl) if fl.isdigit() else fl),
                               label=f"u{fl}", filename=f"r{k}-{fl}.xdmf") for fl in fields}
        r.sim.exports = [r.dq] + list(ex.values())
        if restart:
            ics = []
            for fl, (file, label, step) in restart.items():
                if fl == "T":
                    r.sim.T.initial_condition = F.InitialCondition(field="T", value=file, label=label, time_step=step)
                else:
                    name = fl if case["names"] else (0 if fl == "solute" else int(fl))
                    ics.append(F.InitialCondition(field=name, value=file, label=label, time_step=step))
            r.sim.initial_conditions = ics
        r.sim.settings.final_time = steps * 0.2
        r.initialise()
        r.run()
        return r, {fl: (e.filename, e.label) for fl, e in ex.items()}

    def compare(r, rows, what):
        nonlocal worst, states
        if len(r.rows) != len(rows):
            bad.append(f"{what}: {len(r.rows)} steps instead of {len(rows)}")
        for a, b in zip(r.rows, rows):
            states += 1
            pairs = [("mobile", a["c"], b["c"]), ("T", a["T"], b["T"])] + [
                (f"trap {i}", x, y) for i, x, y in zip(ids, a["traps"], b["traps"])]
            for nm, x, y in pairs:
                e = float(np.max(np.abs(x - y)) / np.max(np.abs(y)))
                worst = max(worst, e if e < tol else 0)
                if not e <= tol:
                    bad.append(f"{what}: {nm} differs by {e:.2e} at t={b['t']:.3g}")

    r0, files = execute(copy.deepcopy(base), None, n)
    if len(r0.rows) != n:
        return {"violations": [f"{len(r0.rows)} steps"]}
    for k in range(n - 1):
        for step in (k, k - n) if k % 2 == 0 else (k - n,):
            r1, f1 = execute(copy.deepcopy(base), {fl: (a, b, step) for fl, (a, b) in files.items()}, n - 1 - k)
            compare(r1, r0.rows[k + 1:], f"restart from step {step}")
            if case["again"] and step >= 0:
                for j in range(n - 2 - k):
                    r2, _ = execute(copy.deepcopy(base), {fl: (a, b, j) for fl, (a, b) in f1.items()}, n - 2 - k - j)
                    compare(r2, r0.rows[k + 2 + j:], f"restart from {step}, then {j}")
    return {"violations": bad[:6], "worst": worst, "states": states, "transitions": states, "traces": next(count),
            "outcome": f"{float(np.sum(r0.rows[-1]['c'])):.8g}"}
