"""Volumetric sources add exactly their value to the named field in the named
volumes; radioactive decay removes its share of every population it names."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all 15 sets of 4 volumes (3 materials, one in two subdomains) x {mobile, each of two traps, temperature} x {constant, space- and time-dependent}; values given as "
    "number, sympy, FEniCS expression, user expression, function; all pairs of kinds of sources on overlapping and disjoint volumes; decay of all "
    "populations or of each one in every set of volumes; implantation in every set of volumes; {cartesian, cylindrical, spherical}, 2D, 3D, steady, chemical potential, rejected attempts; each numeric parameter set to zero; every 5th case also in 5 other systems of units",
    "thorough": "as quick, all pairs of sets of volumes for pairs of sources, both element types for traps",
}
ASSUMPTIONS = ["Gaussian implantation profiles are compared with the tolerance of their polynomial representation"]


def mats():
    m = [S.therm(1, borders=[0, 0.25]), S.therm(2), S.therm(3, borders=[0.4, 0.6])]
    m[1].update(id=[2, 4], borders=[[0.25, 0.4], [0.6, 1.0]])
    return m


def spec(srcs, tr=1, heat=0, traps=2, el="DG", coord="cartesian", m=None, dt=None, cp=0):
    sp = S.base(mats=m or mats(), traps=[S.trap(1, [0]), S.trap(2, [0, 1, 2])][:traps], settings={"traps_element_type": el, "transient": bool(tr)},
                T="300+30*x+40*t" if tr else "300+30*x", coord=coord,
                bcs=[{"type": "dirichlet", "value": "1.0+t" if tr else 1.5, "surf": [2]}], srcs=srcs)
    if cp:
        for i, q in enumerate(sp["mats"]):
            q["S"] = S.SOL[i + 1]
        sp["settings"]["chemical_pot"] = True
    if heat:
        sp["T"] = {"transient": True, "init": "320+30*x"} if tr else {"transient": False}
        sp["bcs"] += [{"type": "dirichlet", "field": "T", "value": 320.0, "surf": [1]}, {"type": "flux", "field": "T", "value": 20.0, "surf": [2]}]
    if coord != "cartesian":
        sp["verts"] = [0.0] + [1.0 + v for v in S.V]
        sp["mats"][0]["borders"] = [0, 1.25]
        sp["mats"][1]["borders"] = [[1.25, 1.4], [1.6, 2.0]]
        sp["mats"][2]["borders"] = [1.4, 1.6]
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.0+x"}] + [{"field": i + 1, "value": f"{0.2 + 0.1 * i}*x"} for i in range(traps)]
        sp["final"], sp["dt"] = 0.4, dt or {"initial_value": 0.2}
    else:
        sp.pop("dt"), sp.pop("final")
    return sp


SUBS = [list(s) for n in (1, 2, 3, 4) for s in itertools.combinations((1, 2, 3, 4), n)]
VALS = [0.7, "0.4+x", "0.3+t", "0.5*x*(1+t)"]
KINDS = {
    "const": {"type": "source", "value": 0.7, "field": 0},
    "time": {"type": "source", "value": "0.4+0.5*x*t", "field": "solute"},
    "trap": {"type": "source", "value": "0.3+t", "field": "2"},
    "decay": {"type": "decay", "lam": 0.4, "field": "all"},
    "decay0": {"type": "decay", "lam": 0.6, "field": 0},
    "decayt": {"type": "decay", "lam": 0.5, "field": 1},
    "implant": {"type": "implant", "flux": "0.5*(1+t)", "depth": 0.4, "width": 0.5, "field": 0},
}


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, sp, group=None, **k):
        if any(s["type"] == "implant" for s in sp["srcs"]):
            k["tol"] = 1e-4
        if sp.get("coord", "cartesian") != "cartesian":
            k["tol"] = 3e-4
        if sp["settings"].get("chemical_pot"):
            k["tol"] = max(k.get("tol", 0), 2e-5)
        out.append({"id": name, "spec": sp, "group": group or name, "cost": 3, **k})

    for n, (vol, field) in enumerate(itertools.product(SUBS, (0, 1, 2, "T"))):
        if len(vol) > 1 and n % 3 == 0:
            vol = vol[::-1]
        v = VALS[n % 4]
        s = {"type": "source", "value": v, "field": field, "vol": vol}
        if field == "T":
            s["value"] = {0.7: 90.0, "0.4+x": "50*(1+x)", "0.3+t": "60*(1+t)", "0.5*x*(1+t)": "90*x*(1+t)"}[v]
        add(f"set-{vol}-{field}", spec([s], heat=field == "T", traps=0 if field == "T" else 2), f"set{field}")
        if field != "T" and len(vol) == 1:
            add(f"steady-{vol}-{field}", spec([dict(s, value="0.4+x")], tr=0), f"set{field}")
    for field, v in itertools.product(("0", "solute", "2"), VALS[2:]):
        add(f"name-{field!r}-{v}", spec([{"type": "source", "value": v, "field": field, "vol": [2, 4]}]), f"set{field}")
    for how, v, field in itertools.product(("expression", "user", "function"), VALS, (0, 1, "T")):
        if how == "function" and "t" in str(v) or how == "user" and field == "T" and not big:
            continue
        v = v if field != "T" else {0.7: 90.0, "0.4+x": "50*(1+x)", "0.3+t": "60*(1+t)", "0.5*x*(1+t)": "90*x*(1+t)"}[v]
        add(f"as-{how}-{v}-{field}", spec([{"type": "source", "value": v, "field": field, "vol": [2], "as": how}], heat=field == "T"), f"as{how}{field}")
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        for va, vb in itertools.product(SUBS, SUBS) if big else [([1, 2], [2, 3]), ([4], [1])]:
            add(f"pair-{a}{va}-{b}{vb}", spec([dict(KINDS[a], vol=va), dict(KINDS[b], vol=vb)]), f"pair{a}{b}")
    for vol in SUBS:
        for i, k in enumerate(("decay", "decay0", "decayt", "implant")):
            if big or len(vol) != 3 and (len(vol) != 2 or (sum(vol) + i) % 2):
                add(f"{k}-{vol}", spec([dict(KINDS[k], vol=vol)]), k)
    for coord in ("cylindrical", "spherical"):
        for k in ("time", "trap", "decay"):
            add(f"{coord}-{k}", spec([dict(KINDS[k], vol=[2, 3])], coord=coord))
    for k in ("time", "decay", "decayt"):
        add(f"cp-{k}", spec([dict(KINDS[k], vol=[1, 2])], cp=1))
        add(f"cg-{k}", spec([dict(KINDS[k], vol=[1, 4])], el="CG"))
        add(f"word-{k}", spec([dict(KINDS[k], vol=[1, 4])], dt=dict(S.ADAPT, initial_value=0.2)), script="xaxa")
    add("three", spec([dict(KINDS["time"], vol=[1]), dict(KINDS["time"], vol=[1, 2]), dict(KINDS["const"], vol=[4]), dict(KINDS["decay"], vol=[2]),
                       dict(KINDS["decay"], lam=0.9, vol=[3])]))
    for k in ("time", "decay", "implant"):
        sp = spec([dict(KINDS[k], vol=[2])], m=[S.mat(1), S.mat(2)], traps=1)
        del sp["verts"]
        sp["rect"] = [4, 2]
        add(f"rect-{k}", sp)
        sp = dict(sp, rect=[2, 1, 1])
        add(f"box-{k}", sp)
    out += S.in_units(out, big, 5)
    for n, b in KINDS.items():
        for k, sp in S.zeros(spec([dict(b, vol=[2])])):
            if k.startswith("srcs") and not k.endswith("lam"):
                add(f"zero-{n}-{k}", sp, "zero")
    return out


def run(case):
    from mc.explore import run_model

    return run_model(case)
