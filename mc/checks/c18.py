"""Every trap captures and releases hydrogen with its own parameters, in its own
materials and nowhere else; trap densities that evolve follow their documented law."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all non-empty sets of 3 materials (the second in two subdomains) x {one set of parameters, one per material in every order} x {transient, steady} x {materials given "
    "as objects (named, unnamed, of the same name), by name}; all pairs of sets for two traps; CG and DG; constant, space- and time-dependent densities; densities and parameters given as numbers, sympy expressions, fenics Expressions and UserExpressions; every parameter of the extrinsic and neutron-"
    "induced densities as a function of space and of time x {prescribed, computed temperature} x every place among other traps x 4 schedules with rejected attempts; 12 traps; each numeric parameter set to zero; every 5th case also in 5 other systems of units",
    "thorough": "as quick, both element types everywhere, all pairs of evolving traps x all words of 4 answers of the solver",
}
ASSUMPTIONS = ["with CG elements the trapped concentration is continuous, also at interfaces (documented); the evolving density seen by a step is the one at its beginning"]

PAR = [dict(k=1.3, E_k=0.01, p=0.7, E_p=0.02, dens="1.0+x"), dict(k=0.8, E_k=0.025, p=0.45, E_p=0.01, dens=0.6),
       dict(k=2.1, E_k=0.015, p=1.1, E_p=0.03, dens="0.8+0.5*t")]


def mats():
    m = [S.mat(1, borders=[0, 0.25]), S.mat(2), S.mat(3, borders=[0.4, 0.6])]
    m[1].update(id=[2, 4], borders=[[0.25, 0.4], [0.6, 1.0]])
    return m


def trap(sub, lists, which=0, steady=False, **k):
    """trap in the materials `sub` (in that order)"""
    if lists:
        d = {key: [PAR[i][key] for i in sub] for key in PAR[0]}
        if steady:
            d["dens"] = [v.replace("+0.5*t", "") if isinstance(v, str) else v for v in d["dens"]]
    else:
        d = dict(PAR[which])
        if steady and isinstance(d["dens"], str):
            d["dens"] = d["dens"].replace("+0.5*t", "")
    d["mats"] = list(sub)
    d.update(k)
    return d


def spec(traps, el="DG", tr=1, T=None, dt=None, m=None):
    sp = S.base(mats=m or mats(), traps=traps, T=T or ("300+30*x+40*t" if tr else "300+30*x"), settings={"traps_element_type": el, "transient": bool(tr)},
                bcs=[{"type": "dirichlet", "value": "1.0+t" if tr else 1.5, "surf": [1]}, {"type": "flux", "value": 0.4, "surf": [2]}])
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.0+x"}] + [{"field": i + 1, "value": f"{0.2 + 0.1 * i}*x"} for i in range(len(traps))]
        sp["final"], sp["dt"] = 0.4, dt or {"initial_value": 0.2}
    else:
        sp.pop("dt"), sp.pop("final")
    return sp


EX = {"phi_0": 1.3, "n_amax": 3.0, "n_bmax": 2.0, "eta_a": 0.5, "eta_b": 0.7, "f_a": 1.1, "f_b": 0.9}
NE = {"phi": 1.3, "K": 1.2, "n_max": 4.0, "A_0": 0.5, "E_A": 0.02}


def evolving(kind, over=None, m=(0,), n=1):
    p = dict(EX if kind == "extrinsic" else NE)
    p.update(over or {})
    d = dict(PAR[n], kind=kind, prm=p, mats=list(m))
    del d["dens"]
    return d


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, sp, group=None, **k):
        out.append({"id": name, "spec": sp, "group": group or name, "cost": 3, **k})

    subs = [s for n in (1, 2, 3) for s in itertools.combinations(range(3), n)]
    for s in subs:
        for tr in (1, 0):
            for el in ("DG", "CG") if big or len(s) == 3 else ("DG",):
                add(f"one-{s}-{tr}-{el}", spec([trap(s, False, steady=not tr, by_name=bool(len(s) % 2))], el, tr))
                if el == "DG":
                    add(f"name-{s}-{tr}", spec([trap(s, len(s) > 1, steady=not tr, by_name=True)], el, tr), f"one-{s}-{tr}-{el}")
                for o in itertools.permutations(s):
                    add(f"list-{o}-{tr}-{el}", spec([trap(o, True, steady=not tr)], el, tr))
            # materials without names, or whose names are the same
            for nn in (None, "W"):
                add(f"names-{nn}-{s}-{tr}", dict(spec([trap(s, len(s) > 1, steady=not tr)], "DG", tr), names=[nn] * 3), f"one-{s}-{tr}-DG")
        if not big and len(s) == 1:
            add(f"cg-{s}", spec([trap(s, False)], "CG"))
    for a, b in itertools.product(subs, subs):
        add(f"two-{a}-{b}", spec([trap(a, False, 0), trap(b, len(b) > 1, 1)], "DG", 1), f"two{a}")
    one = [S.mat(1)]
    for el, d in itertools.product(("CG", "DG"), (0.7, "1.0+x", "0.5+t", "0.4+x*t")):
        add(f"dens-{el}-{d}", spec([trap([0], False, dens=d), trap([0], False, 1)], el, 1, m=one))
        for how in ("expression", "user"):
            add(f"dens-{el}-{d}-{how}", spec([dict(trap([0], False, dens=d), **{"as": how}), trap([0], False, 1)], el, 1, m=one), f"dens-{el}-{d}")
    heat = {"transient": True, "init": "300+20*x"}
    for kind, pr in (("extrinsic", EX), ("neutron", NE)):
        for key, v in pr.items():
            for dep in ("+0.5*t", "+0.3*x"):
                add(f"{kind}-{key}{dep}", spec([evolving(kind, {key: f"{v}{dep}"})], "CG", 1, m=one))
            for how in ("expression", "user"):
                add(f"{kind}-{key}-{how}", spec([dict(evolving(kind, {key: f"{v}+0.5*t+0.3*x"}), **{"as": how})], "CG", 1, m=one), f"{kind}-{key}+0.5*t")
        for i in range(3):
            ts = [trap([0], False, 0), trap([0], False, 2)]
            ts.insert(i, evolving(kind, {"phi_0" if kind == "extrinsic" else "phi": "1.0+t"}))
            add(f"{kind}-among-{i}", spec(ts, "CG", 1, m=one))
        for s in subs:
            add(f"{kind}-in-{s}", spec([evolving(kind, m=s)], "DG", 1))
        sp = spec([evolving(kind), evolving("neutron", n=2)], "CG", 1, T=heat, m=[S.therm(1)])
        sp["bcs"] += [{"type": "dirichlet", "field": "T", "value": "300+60*t", "surf": [1]}]
        sp["srcs"] = [{"type": "source", "field": "T", "value": 200.0, "vol": [1]}]
        add(f"{kind}-heat", sp)
        for w in ("x", "ax", "axx", "baxa") if not big else [w for w in S.words("ax", 4) if "xxx" not in w]:
            sp = spec([evolving(kind, {"phi_0" if kind == "extrinsic" else "phi": "1.0+t"}), evolving("neutron" if kind == "extrinsic" else "extrinsic", n=2)],
                      "CG", 1, dt=dict(S.ADAPT, initial_value=0.2), m=one)
            sp["final"] = 1.0
            add(f"{kind}-word-{w}", sp, f"{kind}word", script=w)
    out += S.in_units(out, big, 5)
    for n in ("traps", "extrinsic", "chempot"):
        for k, sp in S.zeros(S.features()[n]):
            if k.startswith("traps"):
                add(f"zero-{n}-{k}", sp, f"zero{n}")
    out.append({"id": "many-CG", "spec": S.many(), "cost": 40})
    out.append({"id": "many-DG", "spec": S.many(el="DG"), "cost": 40})
    return out


def run(case):
    from mc.explore import run_model

    return run_model(case)
