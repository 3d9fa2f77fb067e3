"""The computed temperature satisfies the documented heat equation, and the
hydrogen transport uses that temperature."""

import copy
import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all combinations of {cartesian, cylindrical, spherical} x {1 material, 2, 2 in three subdomains} x {constant, temperature-"
    "dependent properties} x {steady, transient heat} x {steady, transient hydrogen} in 1D; all pairs of 5 kinds of thermal boundary conditions; sources "
    "in every set of volumes; 2D; 3D; temperatures and initial temperatures read from files written by FESTIM; every 4th case also in 5 other systems of units",
    "thorough": "as quick, all pairs of conditions in all coordinates and 3 schedules",
}
ASSUMPTIONS = ["properties, sources and conditions of the enumerated shapes"]

KINDS = {
    "dirichlet": {"type": "dirichlet", "field": "T", "value": "320+10*x+40*t"},
    "flux": {"type": "flux", "field": "T", "value": "30*(1+t)"},
    "convective": {"type": "convective", "h": "0.8+t", "T_ext": "320+10*t"},
    "customflux": {"type": "customflux", "field": "T", "fun": "-0.3*(T-p)", "prm": "340+20*t"},
    "customdc": {"type": "customdc", "field": "T", "fun": "p+0*T", "prm": "310+30*t"},
}


def still(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, str) and k in ("value", "T_ext", "prm"):
            v = v.replace("+40*t", "").replace("*(1+t)", "").replace("+10*t", "").replace("+20*t", "").replace("+30*t", "")
        if k == "h":
            v = 0.8
        out[k] = v
    return out


WARM = {"type": "source", "value": 15.0, "field": "T", "vol": [1]}


def spec(coord, nm, dep, ht, tr, bcs, srcs=(WARM,), dt=None):
    sp = {"coord": coord, "verts": S.V if coord == "cartesian" else S.VR}
    if nm >= 3 and coord != "cartesian":
        sp["verts"] = [0.0, 0.5, 1.0, 1.2, 1.4, 1.5, 1.7, 2.0]
    L = max(sp["verts"])
    a, mid = (0.25, 0.5) if coord == "cartesian" else (1.0, 1.5)
    m = [S.therm(1), S.therm(2)][:nm]
    if not dep:
        for i, q in enumerate(m):
            q.update(k_th=[1.3, 2.2][i], cp=[2.0, 1.1][i], rho=[1.2, 0.7][i])
    if nm == 2:
        m[0]["borders"], m[1]["borders"] = [0, mid], [mid, L]
    elif nm == 3:
        m[0].update(id=[1, 3], borders=[[0, a], [mid, L]])
        m[1]["borders"] = [a, mid]
    sp["mats"] = m
    sp["T"] = {"transient": True, "init": "320+30*x"} if ht else {"transient": False}
    sp["settings"] = {"transient": bool(tr)}
    hb = [{"type": "dirichlet", "value": 1.0, "surf": [2]}]
    if coord == "cartesian" or min(sp["verts"]) > 0:
        hb.append({"type": "flux", "value": 0.4, "surf": [1]})
    else:
        sp["hsrc"] = 1
    sp["bcs"] = hb + [dict(b) if (ht and tr) else still(b) for b in bcs]
    sp["srcs"] = [dict(s) for s in srcs]
    if sp.pop("hsrc", 0):
        sp["srcs"].append({"type": "source", "value": 0.7, "field": 0, "vol": [1]})
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.0+x"}]
        sp["final"], sp["dt"] = 0.5, dt or {"initial_value": 0.2}
    return sp


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, sp, group=None, **k):
        out.append(dict({"id": name, "spec": sp, "group": group or name, "cost": 3}, **k))

    coords = ("cartesian", "cylindrical", "spherical")
    for coord, nm, dep, (ht, tr) in itertools.product(coords, (1, 2, 3), (0, 1), ((0, 0), (0, 1), (1, 1))):
        src = [{"type": "source", "value": "90*(1+x)" + ("*(1+t)" if ht else ""), "field": "T", "vol": [nm] if nm < 3 else [1, 2]}]
        b = [dict(KINDS["dirichlet"], surf=[2])]
        if coord == "cartesian" or nm == 1:
            b.append(dict(KINDS["convective"], surf=[1]))
        add(f"{coord}-m{nm}-d{dep}-h{ht}-{tr}", spec(coord, nm, dep, ht, tr, b, src), f"{coord}{nm}{dep}")
    for coord in coords if big else ("cartesian",):
        for a, b in itertools.product(KINDS, KINDS):
            for ht in (0, 1):
                if ht == 0 and not ({a, b} & {"dirichlet", "convective", "customflux", "customdc"}):
                    continue
                add(f"pair-{coord}-{a}-{b}-{ht}", spec(coord, 1, 1, ht, 1, [dict(KINDS[a], surf=[1]), dict(KINDS[b], surf=[2])]),
                    f"pair{a}{b}"[:9])
    # several conditions and sources superposed on the same place
    fl = [dict(KINDS[k], surf=[1]) for k in ("flux", "convective", "customflux")]
    for ht in (0, 1):
        add(f"super-{ht}", spec("cartesian", 1, 1, ht, 1, fl + [dict(KINDS["dirichlet"], surf=[2])],
                                [{"type": "source", "value": 50.0, "field": "T", "vol": [1]},
                                 {"type": "source", "value": "20.0*x", "field": "T", "vol": [1]},
                                 {"type": "source", "value": "2.0*x", "field": 0, "vol": [1]}]))
        add(f"both-{ht}", spec("cartesian", 1, 1, ht, 1, [dict(KINDS["convective"], surf=[1, 2])]))
    for k in range(1, 8):
        vols = [v for i, v in enumerate((1, 2, 3)) if k >> i & 1]
        for ht in (0, 1):
            add(f"vol-{k}-{ht}", spec("cartesian", 3, 0, ht, 1, [dict(KINDS["dirichlet"], surf=[1, 2])],
                                      [{"type": "source", "value": "60.0", "field": "T", "vol": vols}]), "vol")
    # features of the hydrogen problem that use the temperature
    for ht in (0, 1):
        sp = spec("cartesian", 2, 1, ht, 1, [dict(KINDS["dirichlet"], surf=[1]), dict(KINDS["flux"], surf=[2])])
        sp["mats"][0].update(Q="0.12+0.0001*T", S=S.SOL[1])
        sp["mats"][1].update(Q="-0.2", S=S.SOL[2])
        sp["traps"] = [S.trap(1, [0, 1])]
        sp["settings"].update(soret=True, traps_element_type="DG")
        add(f"full-{ht}", sp)
        sp = S.merge(sp, {"settings": {"chemical_pot": True}})
        add(f"fullcp-{ht}", sp)
    for coord, ht in itertools.product(("cartesian", "cylindrical"), (0, 1)):
        sp = {
            "rect": [3, 2], "x0": 0.0 if coord == "cartesian" else 1.0, "coord": coord, "mats": [S.therm(1), S.therm(2)],
            "T": {"transient": True, "init": "320+30*x+10*y"} if ht else {"transient": False},
            "bcs": [{"type": "dirichlet", "value": 1.0, "surf": [2]}]
            + [dict(b) if ht else still(b) for b in (dict(KINDS["dirichlet"], surf=[2]), dict(KINDS["convective"], surf=[1, 4]),
                                                     dict(KINDS["flux"], surf=[3]))],
            "srcs": [{"type": "source", "value": "90*(1+y)", "field": "T", "vol": [2]}],
            "ics": [{"field": 0, "value": "1.0+x"}], "final": 0.4, "dt": {"initial_value": 0.2},
        }
        add(f"2d-{coord}-{ht}", sp)
        if coord == "cartesian":
            q = copy.deepcopy(sp)
            q["rect"] = [2, 1, 1]
            if ht:
                q["T"]["init"] = "320+30*x+10*y+20*z"
            q["bcs"][2]["surf"] = [1, 4, 6]
            q["bcs"][3]["surf"] = [3, 5]
            q["srcs"][0]["value"] = "90*(1+y+z)"
            add(f"3d-{ht}", q)
    # schedules
    for i, d in enumerate(({"initial_value": 0.1, "stepsize_change_ratio": 1.7, "dt_min": 1e-3},
                           {"initial_value": 0.2, "milestones": [0.13, 0.31]})):
        sp = spec("cartesian", 2, 1, 1, 1, [dict(KINDS["dirichlet"], surf=[1]), dict(KINDS["convective"], surf=[2])], dt=d)
        add(f"sched-{i}", sp)
        for w in S.words("ax", 3):
            if "x" in w and "stepsize_change_ratio" in d:
                add(f"sched-{i}-{w}", sp, "sched", script=w)
    out += S.in_units(out, big, 4)
    # temperatures read from files
    files = []
    for kind, step in itertools.product(("from", "init"), (0, 1, 2, -1)):
        if kind == "from" and step != -1:
            continue
        for nt in (0, 1):
            files.append({"id": f"file-{kind}-{step}-{nt}", "file": kind, "step": step, "nt": nt, "group": "file", "cost": 3})
    return out + files


def run(case):
    if "file" not in case:
        from mc.explore import run_model

        return run_model(case)
    return run_file(case)


def run_file(case):
    """temperature of a first model, written by FESTIM, used by a second one"""
    import festim as F
    import numpy as np
    from mc import build as B
    from mc import refmodel as R

    a = spec("cartesian", 1, 1, 1, 1, [dict(KINDS["dirichlet"], surf=[1]), dict(KINDS["convective"], surf=[2])])
    ra = B.Run(a, extra_exports=[F.XDMFExport("T", label="temp", filename="T.xdmf", checkpoint=True)])
    ra.initialise()
    ra.run()
    T0 = ra.rows[case["step"]]["T"]
    b = spec("cartesian", 1, 1, 1, 1, [dict(KINDS["dirichlet"], surf=[1]), dict(KINDS["convective"], surf=[2])])
    if case["nt"]:
        b["traps"] = [S.trap(1, [0])]
    rb = B.Run(b)
    bad = []
    if case["file"] == "from":
        rb.sim.boundary_conditions = [x for x in rb.sim.boundary_conditions if x.field != "T"]
        rb.sim.sources = [x for x in rb.sim.sources if x.field != "T"]
        rb.sp = dict(b, T=0.0)
        rb.sim.T = F.TemperatureFromXDMF("T.xdmf", "temp")
        rb.initialise()
        rb.run()
        prev = None
        for row in rb.rows:
            e = float(np.abs(row["T"] / T0 - 1).max())
            if e > 1e-12:
                bad.append(f"temperature differs from the file by {e:.1e} at t={row['t']}")
        rb.initial_row_T = T0
        ref = rb.ref
        w, traps = ref.initial(T0)
        prev = {"t": 0.0, "w": w, "T": T0, "traps": traps, "dens": [None] * len(traps), "cs": {}}
        for row in rb.rows:
            bb, _ = B.check_step(ref, row, prev, row["t"], row["t"] - prev["t"])
            bad += bb
            prev = row
    else:
        step = case["step"] if case["step"] >= 0 else len(ra.rows) - 1
        rb.sim.T.initial_condition = F.InitialCondition(field="T", value="T.xdmf", label="temp", time_step=step)
        rb.initialise()
        rb.run()
        first = rb.initial_row()
        first["T"] = T0
        prev = first
        for row in rb.rows:
            bb, _ = B.check_step(rb.ref, row, prev, row["t"], row["t"] - prev["t"], heat=True)
            bad += bb
            prev = row
    if not rb.rows:
        bad.append("no step")
    return {"violations": bad[:4], "states": len(rb.rows), "transitions": len(rb.rows) + len(ra.rows), "traces": 1,
            "outcome": f"{len(rb.rows)}:{float(np.sum(rb.rows[-1]['c'])):.6g}" if rb.rows else "none"}
