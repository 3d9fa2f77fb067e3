"""Boundary conditions impose their documented formula on exactly the named
surfaces."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "15 kinds of boundary conditions x {left, right, both} x {alone, with a Dirichlet condition, with a flux}; all "
    "pairs of fluxes superposed on one surface; prescribed values with chemical potential (both solubility laws); "
    "all 15 sets of surfaces of a rectangle for 5 kinds; 4 sets of faces of a box for 4 kinds; conditions on traps and on the temperature; all kinds in cylindrical and spherical coordinates; each numeric parameter set to zero; every 4th case also in 5 other systems of units",
    "thorough": "as quick plus all pairs of kinds, left and right",
}
ASSUMPTIONS = ["parameters of the enumerated shapes"]

DC = {
    "dirichlet": {"type": "dirichlet", "value": "1.0+x+t"},
    "sieverts": {"type": "sieverts", "S": [1.2, 0.03], "P": "2.0+t"},
    "henrys": {"type": "henrys", "H": [1.2, 0.03], "P": "2.0+t"},
    "implant0": {"type": "implantdc", "phi": 1.5, "Rp": 0.3, "D": [1.1, 0.02]},
    "implantR": {"type": "implantdc", "phi": 1.5, "Rp": 0.3, "D": [1.1, 0.02], "Kr": [0.8, 0.01]},
    "implantD": {"type": "implantdc", "phi": 1.5, "Rp": 0.3, "D": [1.1, 0.02], "Kr": [0.8, 0.01],
                 "Kd": [0.5, 0.02], "P": 1.3},
    "customdc": {"type": "customdc", "fun": "p+0.002*T", "prm": "1.0+t"},
}
FL = {
    "flux": {"type": "flux", "value": "0.4+x+t"},
    "recomb1": {"type": "recomb", "Kr": 0.6, "E": 0.03, "order": 1},
    "recomb2": {"type": "recomb", "Kr": 0.6, "E": 0.03, "order": 2},
    "dissoc": {"type": "dissoc", "Kd": 0.5, "E": 0.03, "P": "2.0+t"},
    "mass": {"type": "mass", "h": 0.6, "c_ext": "0.3+t"},
    "customflux": {"type": "customflux", "fun": "-p*c*c+0.001*T", "prm": "0.5+t"},
    "kinetics": {k: v for k, v in S.KIN.items() if k != "surf"},
}
ALL = dict(DC, **FL)


def cases(tier):
    out = []
    ic = [{"field": 0, "value": "1.0+x"}]

    def add(i, bcs, cost=2, **k):
        k.setdefault("T", "300+60*x+40*t")
        sp = S.base(bcs=bcs, ics=ic, final=0.4, dt={"initial_value": 0.2}, **k)
        out.append({"id": i, "spec": sp, "cost": cost})

    for n, b in ALL.items():
        for s in ([1], [2], [1, 2]):
            add(f"{n}-{s}", [dict(b, surf=s)])
            if len(s) == 1:
                o = [3 - s[0]]
                add(f"{n}-{s}-dc", [dict(b, surf=s), {"type": "dirichlet", "value": 0.7, "surf": o}])
                add(f"{n}-{s}-fl", [{"type": "flux", "value": 0.7, "surf": o}, dict(b, surf=s)])
        add(f"{n}-trap", [dict(b, surf=[1])], traps=[S.trap(1, [0])])
    for a, b in itertools.combinations([k for k in FL if k != "kinetics"], 2):
        add(f"{a}+{b}", [dict(FL[a], surf=[1, 2]), dict(FL[b], surf=[2])])
    for (a, b), s in itertools.product(itertools.combinations(("flux", "mass"), 2), ([1], [2])):
        add(f"same-{a}-{s}", [dict(FL[a], surf=s), dict(FL[a], value=0.9, surf=s)] if a == "flux" else [])
    for n, b in ALL.items():
        for law in (None, "henry"):
            if law and n in ("kinetics", "recomb2", "customflux"):
                continue
            m = S.mat(1, S=[2.0, 0.03])
            if law:
                m["law"] = law
            add(f"cp-{law}-{n}", [dict(b, surf=[2])], mats=[m], settings={"chemical_pot": True}, cost=3)
    # two materials with different solubilities at the two ends
    for n in ("dirichlet", "sieverts", "customdc"):
        for law in (None, "henry"):
            m = [S.mat(1, S=[2.0, 0.03], borders=[0, 0.5]), S.mat(2, S=[3.0, 0.02], borders=[0.5, 1.0])]
            if law:
                m[1]["law"] = law
                m[0]["law"] = "sievert"
            add(f"cp2-{law}-{n}", [dict(DC[n], surf=[1, 2])], mats=m, settings={"chemical_pot": True}, cost=3)
    # traps
    two = [S.trap(1, [0]), S.trap(2, [0])]
    for n in ("dirichlet", "customdc"):
        for fld in (1, 2):
            for s in ([1], [2], [1, 2]):
                for el in ("CG",):
                    add(f"trap{fld}-{n}-{s}-{el}", [dict(DC[n], surf=s, field=fld), {"type": "dirichlet", "value": 0.7, "surf": [1]}],
                        traps=two, settings={"traps_element_type": el}, cost=3)
    # temperature
    H = {"mats": [S.therm(1)], "T": {"transient": True, "init": "300+20*x"}}
    heat = {
        "dirichlet": {"type": "dirichlet", "field": "T", "value": "300+10*x+t"},
        "customdc": {"type": "customdc", "field": "T", "fun": "300+p", "prm": "5.0+t"},
        "flux": {"type": "flux", "field": "T", "value": "20+10*t"},
        "convective": {"type": "convective", "h": 0.8, "T_ext": "320+10*t"},
        "customflux": {"type": "customflux", "field": "T", "fun": "-p*(T-290)", "prm": "0.5+t"},
    }
    for n, b in heat.items():
        for s in ([1], [2], [1, 2]):
            add(f"heat-{n}-{s}", [dict(b, surf=s), {"type": "dirichlet", "value": 0.7, "surf": [1]}], cost=3, **H)
    for a, b in itertools.combinations(("flux", "convective", "customflux"), 2):
        add(f"heat-{a}+{b}", [dict(heat[a], surf=[1, 2]), dict(heat[b], surf=[2])], cost=3, **H)
    # every set of surfaces in 2D
    for n in ("dirichlet", "sieverts", "flux", "recomb1", "customflux"):
        for k in range(1, 5):
            for s in itertools.combinations((1, 2, 3, 4), k):
                if n in FL and n != "flux" and len(s) in (1, 3) and tier != "thorough":
                    continue
                sp = S.base(bcs=[dict(ALL[n], surf=list(s))], ics=ic, T="300+60*x+30*y+40*t", final=0.2,
                            dt={"initial_value": 0.2})
                sp.pop("verts")
                sp["rect"] = [3, 2]
                out.append({"id": f"2d-{n}-{s}", "spec": sp, "cost": 2,
                            "group": f"2d-{n}" if n in DC else f"2d-{n}-{s}"})
    # a box
    for n in ("dirichlet", "sieverts", "flux", "recomb1"):
        for s in ((1,), (5,), (6, 3), (4, 2, 6)):
            if n in FL and len(s) < 2 and tier != "thorough":
                continue
            sp = S.base(bcs=[dict(ALL[n], surf=list(s))], ics=ic, T="300+60*x+30*y+40*t+20*z", final=0.2, dt={"initial_value": 0.2})
            sp.pop("verts")
            sp["rect"] = [2, 1, 2]
            out.append({"id": f"3d-{n}-{s}", "spec": sp, "cost": 6, "group": f"3d-{n}" if n in DC else f"3d-{n}-{s}"})
    if tier == "thorough":
        for a, b in itertools.product(ALL, ALL):
            add(f"pair-{a}-{b}", [dict(ALL[a], surf=[1]), dict(ALL[b], surf=[2])])
    out = [c for c in out if c["spec"]["bcs"]]
    one = [c for c in out if not c["id"].startswith("pair")]
    for n, b in ALL.items():
        sp = S.base(bcs=[dict(b, surf=[1])], ics=ic, final=0.4, dt={"initial_value": 0.2}, T="300+60*x+40*t", traps=[S.trap(1, [0])])
        for k, q in S.zeros(sp):
            if k.startswith("bcs"):
                out.append({"id": f"zero-{n}-{k}", "spec": q, "cost": 2, "group": f"zero{n}"})
        # in the other coordinates
        for coord in ("cylindrical", "spherical"):
            for s in ([1], [2]):
                sp = S.base(bcs=[dict(b, surf=s)], ics=ic, final=0.4, dt={"initial_value": 0.2}, T="300+60*x+40*t", verts=S.VR, coord=coord)
                out.append({"id": f"{coord}-{n}-{s}", "spec": sp, "cost": 2, "group": f"{coord}{n}"})
    return out + S.in_units(one, tier == "thorough", 4)


def run(case):
    from mc.explore import run_model

    return run_model(case)
