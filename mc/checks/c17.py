"""Surface kinetics: adsorbed, subsurface and bulk hydrogen exchange as
documented on every surface that has them."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "each of the 3 coefficients (k_sb, k_bs, J_vs) as a constant or a function of each of {T, adsorbed, mobile concentration, two time-dependent "
    "parameters}; all sets and orders of surfaces in one or two conditions with different coefficients and initial values; all combinations of {cartesian, cylindrical, spherical} x {1, 2 "
    "materials} x {0, 1, 2 traps} x kinds of temperature; with each other kind of condition on the opposite surface, Soret, chemical potential, sources; adaptive steps; steady; every 3rd case also in 5 other systems of units",
    "thorough": "as quick, all combinations of dependences of the 3 coefficients, 3 schedules",
}
ASSUMPTIONS = ["one-dimensional models (others are rejected, see C15)"]

DEP = {
    "const": {"k_sb": 1.2, "k_bs": 0.6, "J_vs": 0.4},
    "T": {"k_sb": "2.4*exp(-20/T)", "k_bs": "0.6+0.001*T", "J_vs": "0.4+0.002*T"},
    "cs": {"k_sb": "1.2+0.2*cs", "k_bs": "0.6/(1+cs)", "J_vs": "0.4-0.2*cs"},
    "c": {"k_sb": "1.2+0.1*c", "k_bs": "0.6/(1+0.1*c)", "J_vs": "0.4+0.1*c"},
    "p": {"k_sb": "1.2*p", "k_bs": "0.6*p", "J_vs": "0.4*p"},
    "q": {"k_sb": "1.2*q", "k_bs": "0.6*q+0.1*p", "J_vs": "0.4*q-0.1*p"},
}
BASE = {"type": "kinetics", "lam": 0.2, "n_surf": 3.0, "n_IS": 5.0, "prm": "1.0+t", "prm2": "1.5-0.5*t", "surf": [1], "init": 0.5}


def kin(a="p", b="T", c="cs", surf=(1,), **k):
    d = dict(BASE, k_sb=DEP[a]["k_sb"], k_bs=DEP[b]["k_bs"], J_vs=DEP[c]["J_vs"], surf=list(surf))
    d.update(k)
    return d


SECOND = dict(k_sb="0.9+0.1*p", k_bs="0.8", J_vs="0.7-0.1*cs*q", lam=0.35, n_surf=2.2, n_IS=4.0, init=1.1, prm="0.5+2*t", prm2="1+x")
OTHER = [
    {"type": "dirichlet", "value": "1.0+0.5*t", "surf": [2]},
    {"type": "flux", "value": "0.8", "surf": [2]},
    {"type": "recomb", "Kr": 0.6, "E": 0.03, "order": 2, "surf": [2]},
    {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [2]},
    {"type": "customflux", "fun": "-p*c", "prm": "0.5+t", "surf": [2]},
]
TEMPS = {"uniform": 320.0, "time": "300+20*x+30*t", "heat": {"transient": True, "init": "320+30*x"}}


def spec(coord="cartesian", nm=1, nt=0, T="time", bcs=(), soret=0, cp=0, dt=None):
    sp = {"coord": coord, "verts": S.V if coord == "cartesian" else S.VR}
    m = [S.therm(1), S.therm(2)][:nm]
    if nm == 2:
        o = 0 if coord == "cartesian" else 1
        m[0]["borders"], m[1]["borders"] = [0, o + 0.5], [o + 0.5, o + 1.0]
    for i, q in enumerate(m):
        if soret:
            q["Q"] = ["0.12+0.0001*T", "-0.2"][i]
        if cp:
            q["S"] = S.SOL[i + 1]
    sp["mats"] = m
    sp["traps"] = [S.trap(1, [0]), S.trap(2, list(range(nm)))][:nt]
    sp["settings"] = {"soret": bool(soret), "chemical_pot": bool(cp)}
    if nm == 2:
        sp["settings"]["traps_element_type"] = "DG"
    sp["T"] = TEMPS[T]
    sp["bcs"] = list(bcs)
    if T == "heat":
        sp["bcs"] += [{"type": "dirichlet", "field": "T", "value": "320+40*t", "surf": [1]}, {"type": "flux", "field": "T", "value": 30.0, "surf": [2]}]
    sp["ics"] = [{"field": 0, "value": "1.5+x"}]
    sp["final"], sp["dt"] = 0.6, dt or {"initial_value": 0.2}
    return sp


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, sp, group=None, **k):
        out.append({"id": name, "spec": sp, "group": group or name, "cost": 3, **k})

    deps = list(DEP)
    trip = set()
    for i in range(3):
        for d in deps:
            t = ["p", "T", "cs"]
            t[i] = d
            trip.add(tuple(t))
    if big:
        trip = set(itertools.product(deps, repeat=3))
    for t in sorted(trip):
        add("dep-" + "-".join(t), spec(bcs=[kin(*t, surf=[1, 2])]))
    k = 0
    for bcs in (
        [kin(surf=[1])], [kin(surf=[2])], [kin(surf=[1, 2])], [kin(surf=[2, 1])],
        [kin(surf=[1]), kin(surf=[2], **SECOND)], [kin(surf=[2]), kin(surf=[1], **SECOND)],
        [kin(surf=[1], **SECOND), kin(surf=[2])], [kin(surf=[2], **SECOND), kin(surf=[1])],
    ):
        for nt in (0, 1, 2):
            k += 1
            add(f"surf-{k}", spec(nt=nt, bcs=bcs), f"s{k}")
    for coord, nm, nt, T in itertools.product(("cartesian", "cylindrical", "spherical"), (1, 2), (0, 1, 2), TEMPS):
        k += 1
        if not big and coord != "cartesian" and T == "uniform":
            continue
        add(f"{coord}-{nm}-{nt}-{T}", spec(coord, nm, nt, T, [kin(surf=[[1], [2], [1, 2]][k % 3])]), f"{coord}{nm}{nt}")
    for i, o in enumerate(OTHER):
        add(f"other-{i}", spec(bcs=[kin(surf=[1]), o]))
        add(f"other-r{i}", spec(bcs=[dict(o, surf=[1]), kin(surf=[2])], nt=1))
    for nm, nt in itertools.product((1, 2), (0, 1)):
        add(f"soret-{nm}{nt}", spec("cartesian", nm, nt, "time", [kin(surf=[1, 2])], soret=1))
        add(f"cp-{nm}{nt}", spec("cartesian", nm, nt, "time", [kin(surf=[1, 2])], cp=1))
        add(f"cp-heat-{nm}{nt}", spec("cartesian", nm, nt, "heat", [kin(surf=[2])], cp=1))
    sp = spec(bcs=[kin(surf=[1, 2])], nt=1)
    sp["srcs"] = [{"type": "source", "value": "0.4*(1+t)", "field": 0, "vol": [1]}, {"type": "decay", "lam": 0.3, "field": "all", "vol": [1]}]
    add("src", sp)
    add("adaptive", spec(bcs=[kin(surf=[1, 2])], dt=dict(S.ADAPT, initial_value=0.1)))
    for w in ("f", "cf", "ff", "cfcf") if not big else S.words("cf", 4):
        if "fff" in w:
            continue
        add(f"fail-{w}", spec(bcs=[kin(surf=[1]), kin(surf=[2], **SECOND)], nt=1, dt=dict(S.ADAPT, initial_value=0.2)), "fail", word=w)
    for nt in (0, 1):
        sp = spec(bcs=[kin("const", "T", "cs", surf=[1]), dict(OTHER[0], value=1.0)], nt=nt)
        sp["settings"]["transient"] = False
        sp["T"] = "300+20*x"
        sp["ics"] = []
        add(f"steady-{nt}", sp)
    return out + S.in_units([c for c in out if "word" not in c], big, 3)


def run(case):
    from mc.build import Run, check_trajectory

    sp = case["spec"]
    if "word" in case:
        from mc.explore import run_model

        return run_model({"spec": sp, "script": case["word"].replace("c", "a").replace("f", "x")})
    r = Run(sp)
    r.initialise()
    r.run()
    bad, worst, n = check_trajectory(r, tol=5e-6 if sp["coord"] == "cartesian" else 2e-5)
    if n != (3 if sp["settings"].get("transient", True) else 1) and "stepsize_change_ratio" not in sp["dt"]:
        bad.append(f"{n} states")
    for q in r.dq:
        if hasattr(q, "surface") and len(q.data) != n:
            bad.append(f"{len(q.data)} values of the adsorbed concentration in {n} steps")
    return {"violations": bad[:5], "worst": worst, "states": n, "transitions": n, "traces": 1,
            "outcome": f"{n}:{[float(v) for v in r.rows[-1].get('cs', {}).values()]}"}
